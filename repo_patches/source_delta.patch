From e045f37eb3a1faaa2f2ff0aa82f1f64109c42447 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:42 +0000
Subject: [PATCH 01/47] fix: do not queue the same uid twice in UidQueue

A population member with several outstanding children (or told again) was queued
once per tell, and discarding it removed only one entry: a later ask would then
provide the uid of a removed member (KeyError in DE and PSO).
---
 nevergrad/optimization/utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/nevergrad/optimization/utils.py b/nevergrad/optimization/utils.py
index 72aade6..c4b026c 100644
--- a/nevergrad/optimization/utils.py
+++ b/nevergrad/optimization/utils.py
@@ -340,7 +340,8 @@ class UidQueue:
 
     def tell(self, uid: str) -> None:
         """Removes the uid from the asked queue and adds to the told queue"""
-        self.told.append(uid)
+        if uid not in self.told:  # a uid must not be queued twice (it can be told for each of its asks)
+            self.told.append(uid)
         if uid in self.asked:
             self.asked.discard(uid)
 
-- 
2.43.0


From c45c272765aca037bede130f1383566a2b7ba29b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:42 +0000
Subject: [PATCH 02/47] fix: discard an actual population member in
 multiobjective DE tell-not-asked

The discarded key was read from the lineage of the member, which is not its key
in the population when it was added by a tell-not-asked (KeyError).
---
 nevergrad/optimization/differentialevolution.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/nevergrad/optimization/differentialevolution.py b/nevergrad/optimization/differentialevolution.py
index 1324edc..7c391ed 100644
--- a/nevergrad/optimization/differentialevolution.py
+++ b/nevergrad/optimization/differentialevolution.py
@@ -289,10 +289,10 @@ class _DE(base.Optimizer):
             else:  # multiobjective: replace if in pareto and some parents are not
                 pareto_uids = {c.uid for c in self.pareto_front()}
                 if candidate.uid in pareto_uids:
-                    non_pareto_pop = {c.uid for c in self.population.values()} - pareto_uids
+                    # keys may differ from the member lineages (if the member was told but not asked)
+                    non_pareto_pop = [uid for uid, c in self.population.items() if c.uid not in pareto_uids]
                     if non_pareto_pop:
-                        nonpareto = {c.uid: c for c in self.population.values()}[list(non_pareto_pop)[0]]
-                        discardable = nonpareto.heritage["lineage"]
+                        discardable = non_pareto_pop[0]
         if discardable is not None:  # if we found a point to kick, kick it
             del self.population[discardable]
             self._uid_queue.discard(discardable)
-- 
2.43.0


From e9667019ffff04a9e18e55595cbbaeba15359c54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:42 +0000
Subject: [PATCH 03/47] fix: use Pareto dominance in the NSGA-II non-dominated
 ranking

Counting the better objectives is not a partial order with 3 objectives or more: cyclic
triplets such as (1,2,3), (2,3,1), (3,1,2) led to an empty first front, an empty
selection, and an optimizer unable to ask.
---
 nevergrad/optimization/multiobjective/nsga2.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/nevergrad/optimization/multiobjective/nsga2.py b/nevergrad/optimization/multiobjective/nsga2.py
index fadab22..5a24b8b 100644
--- a/nevergrad/optimization/multiobjective/nsga2.py
+++ b/nevergrad/optimization/multiobjective/nsga2.py
@@ -123,11 +123,11 @@ class FastNonDominatedRanking:
         :param candidate1: Candidate.
         :param candidate2: Candidate.
         """
-        one_wins = np.sum(candidate1.losses < candidate2.losses)
-        two_wins = np.sum(candidate2.losses < candidate1.losses)
-        if one_wins > two_wins:
+        one_wins = np.any(candidate1.losses < candidate2.losses)
+        two_wins = np.any(candidate2.losses < candidate1.losses)
+        if one_wins and not two_wins:
             return -1
-        if two_wins > one_wins:
+        if two_wins and not one_wins:
             return 1
         return 0
 
-- 
2.43.0


From b1be8088653e78eaa416ca3ee3e0bfdfda6b6a30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:42 +0000
Subject: [PATCH 04/47] fix: ignore points over the upper bounds in the
 hypervolume

Points over the upper bounds are recorded while there is no better point, but they
were then used with negative extents in the volume, so that points improving the
front could be rejected and wrong losses be provided.
---
 nevergrad/optimization/multiobjective/core.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/nevergrad/optimization/multiobjective/core.py b/nevergrad/optimization/multiobjective/core.py
index b9deb06..73cdc11 100644
--- a/nevergrad/optimization/multiobjective/core.py
+++ b/nevergrad/optimization/multiobjective/core.py
@@ -129,7 +129,9 @@ class HypervolumePareto:
         if self._hypervolume is None:
             self._hypervolume = HypervolumeIndicator(self._upper_bounds)
             self._pf._hypervolume = self._hypervolume
-        new_volume = self._hypervolume.compute([pa.losses for pa in self._pf.get_raw()] + [losses])
+        # points over the upper bounds (recorded until there is a better one) do not contribute to the volume
+        within = [pa.losses for pa in self._pf.get_raw() if (pa.losses <= self._upper_bounds).all()]
+        new_volume = self._hypervolume.compute(within + [losses])
         if new_volume > self._best_volume:
             # This point is good! Let us give him a great mono-fitness value.
             self._best_volume = new_volume
-- 
2.43.0


From cc182b01aafd00bed72763c270517a1728d94523 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:07 +0000
Subject: [PATCH 05/47] fix: process length-1 losses like floats in tell

A list with one integer failed with AttributeError, a one-element array was
refused, and too high or NaN values were not clipped.
---
 nevergrad/optimization/base.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/nevergrad/optimization/base.py b/nevergrad/optimization/base.py
index fb411bf..27bb933 100644
--- a/nevergrad/optimization/base.py
+++ b/nevergrad/optimization/base.py
@@ -334,6 +334,9 @@ class Optimizer:  # pylint: disable=too-many-instance-attributes
         will use this suggestion.
         """
         # Check loss type
+        if isinstance(loss, (tuple, list, np.ndarray)) and np.size(loss) == 1:
+            # only one value: this is a single-objective loss, with the same processing as a float
+            loss = float(np.asarray(loss, dtype=float).ravel()[0])
         if isinstance(loss, (Real, float)) or (isinstance(loss, np.ndarray) and not loss.shape):
             # using "float" along "Real" because mypy does not understand "Real" for now Issue #3186
             loss = float(loss)
@@ -346,7 +349,7 @@ class Optimizer:  # pylint: disable=too-many-instance-attributes
                 )
                 loss = 5.0e20  # sys.float_info.max leads to numerical problems so let us do this.
         elif isinstance(loss, (tuple, list, np.ndarray)):
-            loss = np.asarray(loss, dtype=float).ravel() if len(loss) != 1 else loss[0]
+            loss = np.asarray(loss, dtype=float).ravel()
         elif not isinstance(loss, np.ndarray):
             raise TypeError(
                 f'"tell" method only supports float values but the passed loss was: {loss} (type: {type(loss)}.'
-- 
2.43.0


From 37c5acfd18afdd14961816a984d707a5c64839ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:07 +0000
Subject: [PATCH 06/47] fix: do not modify the underlying data when reading a
 stochastic integer value

---
 nevergrad/parametrization/_layering.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nevergrad/parametrization/_layering.py b/nevergrad/parametrization/_layering.py
index 9922201..0419def 100644
--- a/nevergrad/parametrization/_layering.py
+++ b/nevergrad/parametrization/_layering.py
@@ -272,7 +272,7 @@ class Int(Layered, Filterable):
         bounds = self._layers[0].bounds  # type: ignore
         out = super()._layered_get_value()
         if not self.deterministic:
-            out += self.random_state.rand(*out.shape) - 0.5
+            out = out + self.random_state.rand(*out.shape) - 0.5  # not in place: this is the underlying data
         out = np.round(out).astype(np.int64)
         # make sure rounding does not reach beyond the bounds
         eps = 1e-12
-- 
2.43.0


From bc527efd42f3306ad24a21498154614f55c5aea2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:07 +0000
Subject: [PATCH 07/47] fix: select distinct points for the Pareto front
 subsets

Points were drawn with replacement (the subset could contain several times the same
point), and drawing directly among parameters failed for iterable parametrizations
(Tuple, Dict, Instrumentation).
---
 nevergrad/optimization/multiobjective/core.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/nevergrad/optimization/multiobjective/core.py b/nevergrad/optimization/multiobjective/core.py
index 73cdc11..5e19c6b 100644
--- a/nevergrad/optimization/multiobjective/core.py
+++ b/nevergrad/optimization/multiobjective/core.py
@@ -240,9 +240,12 @@ class ParetoFront:
             self._filter_pareto_front()
         if size is None or size >= len(self._pareto):  # No limit: we return the full set.
             return self._pareto
+        # draw indices since parametrizations can be iterable, and without replacement to avoid duplicates
+        num_tentatives = 1 if subset == "random" else subset_tentatives
+        indices = [self._rng.choice(len(self._pareto), size, replace=False) for _ in range(num_tentatives)]
+        tentatives = [[self._pareto[i] for i in inds] for inds in indices]
         if subset == "random":
-            return self._rng.choice(self._pareto, size).tolist()  # type: ignore
-        tentatives = [self._rng.choice(self._pareto, size).tolist() for _ in range(subset_tentatives)]  # type: ignore
+            return tentatives[0]
         if self._hypervolume is None and subset == "hypervolume":
             raise RuntimeError("Hypervolume subsetting not supported as hypervolume not in use")
         hypervolume = self._hypervolume
-- 
2.43.0


From 85847070d211d48746c803d364d9211f4543dc06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:15 +0000
Subject: [PATCH 08/47] fix: select among distinct and evaluated candidates in
 evolution strategies

In the multiobjective case the selection failed if a candidate was told twice
(IndexError) or if an initial candidate was not told yet (RuntimeError).
---
 nevergrad/optimization/es.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/nevergrad/optimization/es.py b/nevergrad/optimization/es.py
index 41680ab..9343dd7 100644
--- a/nevergrad/optimization/es.py
+++ b/nevergrad/optimization/es.py
@@ -78,7 +78,9 @@ class _EvolutionStrategy(base.Optimizer):
 
     def _select(self) -> None:
         choices = self._waiting + ([] if self._config.only_offsprings else list(self._population.values()))
+        choices = list({x.uid: x for x in choices}.values())  # candidates can be told several times
         if self._rank_method is not None and self.num_objectives > 1:
+            choices = [x for x in choices if x._losses is not None]  # initial candidates may not be told yet
             choices_rank = self._rank_method(choices, n_selected=self._config.popsize)
             choices = [x for x in choices if x.uid in choices_rank]
         else:
-- 
2.43.0


From 47a941e78ff9d6a457f53460bc23e07350042439 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:15 +0000
Subject: [PATCH 09/47] fix: add candidates of unknown lineage to the ES
 population whatever their loss

A non-asked candidate with infinite loss (uniformly worse in multiobjective) was queued without
being added to the population, leading to a KeyError in a later ask.
---
 nevergrad/optimization/es.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nevergrad/optimization/es.py b/nevergrad/optimization/es.py
index 9343dd7..c245c15 100644
--- a/nevergrad/optimization/es.py
+++ b/nevergrad/optimization/es.py
@@ -63,8 +63,8 @@ class _EvolutionStrategy(base.Optimizer):
         if self._config.offsprings is None:
             uid = candidate.heritage["lineage"]
             self._uid_queue.tell(uid)
-            parent_value = float("inf") if uid not in self._population else base._loss(self._population[uid])
-            if loss < parent_value:
+            # a candidate which was not asked may come from a lineage which is not in the population
+            if uid not in self._population or loss < base._loss(self._population[uid]):
                 self._population[uid] = candidate
         else:
             no_parent = next(iter(candidate.parents_uids), "#no_parent#") not in self._population
-- 
2.43.0


From 12e141ad4bba28cf54455797517c041297475209 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:11 +0000
Subject: [PATCH 10/47] fix: do not consider asked points as constraint
 violations when using a tabu list

An asked value is in the tabu list, so that each tell was processed as a constraint
violation: the records were never updated, and the initial point was always
recommended.
---
 nevergrad/optimization/base.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/nevergrad/optimization/base.py b/nevergrad/optimization/base.py
index 27bb933..a24059a 100644
--- a/nevergrad/optimization/base.py
+++ b/nevergrad/optimization/base.py
@@ -397,7 +397,9 @@ class Optimizer:  # pylint: disable=too-many-instance-attributes
             callback(self, candidate, loss)
         no_update = False
 
-        if not candidate.satisfies_constraints(self.parametrization) and self.budget is not None:
+        # the tabu list is only for new points: the told candidate can be in it since it was asked
+        satisfies = candidate.satisfies_constraints(self.parametrization, no_tabu=True)
+        if not satisfies and self.budget is not None:
             penalty = self._constraints_manager.penalty(candidate, self.num_ask, self.budget)
             no_update = True
             loss = loss + penalty
-- 
2.43.0


From 9d9bb308399a8643e889ecd0efc30d7b9d77f707 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:11 +0000
Subject: [PATCH 11/47] fix: support nested values in the tabu list

Values of an Instrumentation or containing arrays were not hashable (TypeError).
---
 nevergrad/parametrization/core.py  |  5 ++---
 nevergrad/parametrization/utils.py | 11 +++++++++++
 2 files changed, 13 insertions(+), 3 deletions(-)

diff --git a/nevergrad/parametrization/core.py b/nevergrad/parametrization/core.py
index a010eac..8e7b75d 100644
--- a/nevergrad/parametrization/core.py
+++ b/nevergrad/parametrization/core.py
@@ -294,9 +294,8 @@ class Parameter(Layered):
             tabu_val = self.tabu_congruence(val)
             if isinstance(tabu_val, np.ndarray):
                 tabu_val = hash(tabu_val.tobytes())
-            if isinstance(tabu_val, dict):
-                keys = sorted(list(tabu_val.keys()))
-                tabu_val = str(keys) + str([tabu_val[k] for k in keys])
+            if isinstance(tabu_val, (dict, tuple)):
+                tabu_val = utils.tabu_key(tabu_val)  # possibly containing non-hashable values
             try:
                 if tabu_val in ref.tabu_set:
                     self.tabu_fails += 1
diff --git a/nevergrad/parametrization/utils.py b/nevergrad/parametrization/utils.py
index 27afa71..b920d6b 100644
--- a/nevergrad/parametrization/utils.py
+++ b/nevergrad/parametrization/utils.py
@@ -266,6 +266,17 @@ class Subobjects(tp.Generic[X]):
         return outputs
 
 
+def tabu_key(val: tp.Any) -> tp.Hashable:
+    """Hashable version of a (possibly nested) value, for use in a tabu list"""
+    if isinstance(val, np.ndarray):
+        return hash(val.tobytes())
+    if isinstance(val, dict):
+        return str([(k, tabu_key(val[k])) for k in sorted(val, key=str)])
+    if isinstance(val, (tuple, list)):
+        return tuple(tabu_key(v) for v in val)
+    return val  # type: ignore
+
+
 def float_penalty(x: tp.Union[bool, float]) -> float:
     """Unifies penalties as float (bool=False becomes 1).
     The value is positive for unsatisfied penality else 0.
-- 
2.43.0


From f74f0a5d787f48a71a9f22f463ffe7a8acae391b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:03 +0000
Subject: [PATCH 12/47] fix: wait for the end of the recast thread after its
 last message

---
 nevergrad/optimization/recaster.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/nevergrad/optimization/recaster.py b/nevergrad/optimization/recaster.py
index aa0c07e..f553f12 100644
--- a/nevergrad/optimization/recaster.py
+++ b/nevergrad/optimization/recaster.py
@@ -120,6 +120,9 @@ class MessagingThread:
     def stop(self) -> None:
         self._thread.stop()
 
+    def join(self) -> None:
+        self._thread.join()
+
     def __del__(self) -> None:
         self.stop()  # del method of the thread class does not work
 
@@ -266,6 +269,8 @@ class SequentialRecastOptimizer(RecastOptimizer):
         alive = self._messaging_thread.is_alive()
         if alive:
             point = self._messaging_thread.messages_ask.get()
+            if point is None or isinstance(point, Exception):
+                self._messaging_thread.join()  # that was the last message, make sure it is not considered alive
             if isinstance(point, Exception):
                 raise point
         if not alive or point is None:  # In case the algorithm stops before the budget is elapsed.
@@ -369,6 +374,8 @@ class BatchRecastOptimizer(RecastOptimizer):
         # wait for a message
         if alive:
             points = self._messaging_thread.messages_ask.get()
+            if points is None or isinstance(points, Exception):
+                self._messaging_thread.join()  # that was the last message, make sure it is not considered alive
             if isinstance(points, Exception):
                 raise points
         if not alive or points is None:  # In case the algorithm stops before the budget is elapsed.
-- 
2.43.0


From fbd91fc185019790920e5ce49fb05da3f42781cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:11 +0000
Subject: [PATCH 13/47] fix: refuse an ask before the previous tell in
 sequential recast optimizers instead of hanging

---
 nevergrad/optimization/recaster.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/nevergrad/optimization/recaster.py b/nevergrad/optimization/recaster.py
index f553f12..d5c63cf 100644
--- a/nevergrad/optimization/recaster.py
+++ b/nevergrad/optimization/recaster.py
@@ -250,6 +250,7 @@ class SequentialRecastOptimizer(RecastOptimizer):
     ) -> None:
         super().__init__(parametrization=parametrization, budget=budget, num_workers=num_workers)
         self._enable_pickling = False
+        self._awaiting_tell = False  # whether the thread is waiting for the loss of the point it provided
         self.replay_archive_tell: tp.List[p.Parameter] = []
 
     def enable_pickling(self):
@@ -267,6 +268,8 @@ class SequentialRecastOptimizer(RecastOptimizer):
         if self._messaging_thread is None:
             self._messaging_thread = MessagingThread(self.get_optimization_function())
         alive = self._messaging_thread.is_alive()
+        if alive and self._awaiting_tell:
+            raise TooManyAskError("You must tell the result of the previous point before asking for a new one.")
         if alive:
             point = self._messaging_thread.messages_ask.get()
             if point is None or isinstance(point, Exception):
@@ -281,6 +284,7 @@ class SequentialRecastOptimizer(RecastOptimizer):
             self._check_error()
             data = self._rng.normal(0, 1, self.dimension)
             return self.parametrization.spawn_child().set_standardized_data(data)
+        self._awaiting_tell = True
         candidate = self.parametrization.spawn_child().set_standardized_data(point)
         return candidate
 
@@ -294,6 +298,7 @@ class SequentialRecastOptimizer(RecastOptimizer):
             return
         if self._enable_pickling:
             self.replay_archive_tell.append(candidate)
+        self._awaiting_tell = False
         self._messaging_thread.messages_tell.put(self._post_loss(candidate, loss))
 
     def __getstate__(self):
@@ -313,6 +318,7 @@ class SequentialRecastOptimizer(RecastOptimizer):
         # We temporarily unset _enable_pickling so that the replays do not
         # get archived again.
         self._enable_pickling = False
+        awaiting_tell, self._awaiting_tell = self._awaiting_tell, False
         for i, candidate in enumerate(self.replay_archive_tell):
             new_candidate = self._internal_ask_candidate()
             norm = np.linalg.norm(new_candidate.get_standardized_data(reference=candidate))
@@ -323,7 +329,7 @@ class SequentialRecastOptimizer(RecastOptimizer):
                 raise RuntimeError(f"Mismatch in replay at index {i} of {len(self.replay_archive_tell)}.")
             self._internal_tell_candidate(candidate, candidate.loss)
 
-        if self.num_ask > self.num_tell:
+        if awaiting_tell:
             self._internal_ask_candidate()
 
         self._enable_pickling = True
-- 
2.43.0


From b23b5f6b22ce835d983bfddeb3ac14363af468f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:31 +0000
Subject: [PATCH 14/47] fix: tell the results of chained optimizers to the
 optimizer which provided the candidate

---
 nevergrad/optimization/optimizerlib.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/nevergrad/optimization/optimizerlib.py b/nevergrad/optimization/optimizerlib.py
index 28797d7..0362cf4 100644
--- a/nevergrad/optimization/optimizerlib.py
+++ b/nevergrad/optimization/optimizerlib.py
@@ -3416,7 +3416,8 @@ class _Chain(base.Optimizer):
         for k, opt in enumerate(self.optimizers):
             is_last = k == len(self.optimizers) - 1
             sum_budget += float("inf") if opt.budget is None or is_last else opt.budget
-            if self.num_tell < sum_budget and not (
+            # the optimizer which provided the candidate is always concerned
+            if (self.num_tell < sum_budget or candidate.uid in opt._asked) and not (
                 self.no_crossing
                 and ("optim_index" not in candidate._meta or k != candidate._meta["optim_index"])
             ):
-- 
2.43.0


From c65e8e14cf0c1420f3ffaa48760f1e11163e20bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:31 +0000
Subject: [PATCH 15/47] fix: ask portfolio members with available workers only

---
 nevergrad/optimization/optimizerlib.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/nevergrad/optimization/optimizerlib.py b/nevergrad/optimization/optimizerlib.py
index 0362cf4..13e15c4 100644
--- a/nevergrad/optimization/optimizerlib.py
+++ b/nevergrad/optimization/optimizerlib.py
@@ -2049,6 +2049,12 @@ class Portfolio(base.Optimizer):
         else:
             # for _ in range(2 * len(self.turns)):
             self._current += 1
+            for k in range(len(self.turns)):  # use the next optimizer with available workers, if any
+                opt = self.optims[self.turns[(self._current + k) % len(self.turns)]]
+                over_budget = opt.one_shot and opt.budget is not None and opt.num_ask >= opt.budget
+                if len(opt._asked) < opt.num_workers and not over_budget:
+                    self._current += k
+                    break
             # optim_index = self._current % len(self.optims)
             optim_index = self.turns[self._current % len(self.turns)]
             assert optim_index < len(
-- 
2.43.0


From d4bc998efdad8fd0967c2c5939fe42a2a690ecf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:08:39 +0000
Subject: [PATCH 16/47] fix: do not loop forever in minimize when the budget is
 already exceeded

---
 nevergrad/optimization/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nevergrad/optimization/base.py b/nevergrad/optimization/base.py
index a24059a..1122b3c 100644
--- a/nevergrad/optimization/base.py
+++ b/nevergrad/optimization/base.py
@@ -685,7 +685,7 @@ class Optimizer:  # pylint: disable=too-many-instance-attributes
         tmp_finished: tp.Deque[tp.Tuple[p.Parameter, tp.JobLike[tp.Loss]]] = deque()
         # go
         sleeper = ngtools.Sleeper()  # manages waiting time depending on execution time of the jobs
-        remaining_budget = self.budget - self.num_ask
+        remaining_budget = max(0, self.budget - self.num_ask)  # the budget may already be exceeded
         first_iteration = True
         #
         t0 = time.time()
-- 
2.43.0


From 3499c7d6bb5594c6c093bb6b21c73701aa48d74b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:51 +0000
Subject: [PATCH 17/47] fix: ignore the loss of random points asked after the
 end of sequential recast optimizers

---
 nevergrad/optimization/recaster.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nevergrad/optimization/recaster.py b/nevergrad/optimization/recaster.py
index d5c63cf..e053a7d 100644
--- a/nevergrad/optimization/recaster.py
+++ b/nevergrad/optimization/recaster.py
@@ -292,10 +292,10 @@ class SequentialRecastOptimizer(RecastOptimizer):
         """Returns value for a point which was "asked"
         (none asked point cannot be "tell")
         """
-        assert self._messaging_thread is not None, 'Start by using "ask" method, instead of "tell" method'
-        if not self._messaging_thread.is_alive():  # optimizer is done
+        if not self._awaiting_tell:  # optimizer is done, this is one of the random points which are then provided
             self._check_error()
             return
+        assert self._messaging_thread is not None, 'Start by using "ask" method, instead of "tell" method'
         if self._enable_pickling:
             self.replay_archive_tell.append(candidate)
         self._awaiting_tell = False
-- 
2.43.0


From fb59d97759c5fe8ea96a57fa8176eeaa95026322 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:02:46 +0000
Subject: [PATCH 18/47] fix: do not share the tabu list between copies of a
 parameter

---
 nevergrad/parametrization/core.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/nevergrad/parametrization/core.py b/nevergrad/parametrization/core.py
index 8e7b75d..f0aa08b 100644
--- a/nevergrad/parametrization/core.py
+++ b/nevergrad/parametrization/core.py
@@ -414,6 +414,9 @@ class Parameter(Layered):
         child._subobjects = self._subobjects.new(child)
         child._meta = {}
         child.tabu_length = self.tabu_length
+        child.tabu_set = set()  # the tabu list must not be shared between copies
+        child.tabu_list = []
+        child.tabu_index = 0
         child.real_world = self.real_world
         child.enforce_determinism = self.enforce_determinism
         child.hptuning = self.hptuning
-- 
2.43.0


From 5c96eb1276607d760d22bcfd8d463e1e151ab34d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:11:08 +0000
Subject: [PATCH 19/47] fix: keep the value of frozen random integers after a
 refused modification

---
 nevergrad/parametrization/_layering.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/nevergrad/parametrization/_layering.py b/nevergrad/parametrization/_layering.py
index 0419def..2685cc3 100644
--- a/nevergrad/parametrization/_layering.py
+++ b/nevergrad/parametrization/_layering.py
@@ -285,7 +285,8 @@ class Int(Layered, Filterable):
         return self._cache
 
     def _layered_del_value(self) -> None:
-        self._cache = None  # clear cache!
+        if not getattr(self._layers[0], "_frozen", False):  # the value of a frozen parameter must not be drawn again
+            self._cache = None  # clear cache!
 
     def __call__(self, layered: L) -> L:
         """Creates a new Data instance with int-casting"""
-- 
2.43.0


From 26eb06e7db6e9e0327aa40bc8e5c6e5ea1b6da1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:31:37 +0000
Subject: [PATCH 20/47] fix: keep the selected option when setting the data of
 a TransitionChoice of parameters

---
 nevergrad/parametrization/choice.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nevergrad/parametrization/choice.py b/nevergrad/parametrization/choice.py
index d735e48..b63f8d7 100644
--- a/nevergrad/parametrization/choice.py
+++ b/nevergrad/parametrization/choice.py
@@ -214,7 +214,7 @@ class TransitionChoice(BaseChoice):
         ref = reference if self._ref is None else self._ref
         super()._internal_set_standardized_data(data, ref)  # type: ignore
         # force to bin
-        super()._layered_set_value(super()._layered_get_value())
+        self.indices.value = self.indices.value
 
     def _internal_get_standardized_data(self: T, reference: T) -> np.ndarray:
         ref = reference if self._ref is None else self._ref
-- 
2.43.0


From ae9e005334d07feb3d289e08fc793484751450ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:33:12 +0000
Subject: [PATCH 21/47] fix: mutate unordered TransitionChoice of parameters

---
 nevergrad/parametrization/choice.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/nevergrad/parametrization/choice.py b/nevergrad/parametrization/choice.py
index b63f8d7..f8f916e 100644
--- a/nevergrad/parametrization/choice.py
+++ b/nevergrad/parametrization/choice.py
@@ -227,7 +227,10 @@ class TransitionChoice(BaseChoice):
     def mutate(self) -> None:
         if self._ref is not None:
             new = self.random_state.normal(size=self.indices.value.size)
-            self._internal_set_standardized_data(new, self._ref)
+            self.indices.set_standardized_data(new, reference=self._ref.indices)
+            self.indices.value = self.indices.value  # force to bin
+            for ind in set(self.indices.value):
+                self.choices[ind].mutate()
             return
         # force random_state sync
         self.random_state  # pylint: disable=pointless-statement
-- 
2.43.0


From 5c6dc64a5aa72bf90f238435361fdb2af08bd8c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:06:09 +0000
Subject: [PATCH 22/47] fix: integer casting must not exclude large bounds
 because of float precision

---
 nevergrad/parametrization/_layering.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/nevergrad/parametrization/_layering.py b/nevergrad/parametrization/_layering.py
index 2685cc3..f1261ab 100644
--- a/nevergrad/parametrization/_layering.py
+++ b/nevergrad/parametrization/_layering.py
@@ -274,12 +274,11 @@ class Int(Layered, Filterable):
         if not self.deterministic:
             out = out + self.random_state.rand(*out.shape) - 0.5  # not in place: this is the underlying data
         out = np.round(out).astype(np.int64)
-        # make sure rounding does not reach beyond the bounds
-        eps = 1e-12
+        # make sure rounding does not reach beyond the bounds (which are known up to float precision)
         if bounds[0] is not None:
-            out = np.maximum(_to_int(bounds[0] + 0.5 - eps), out)
+            out = np.maximum(_to_int(np.ceil(bounds[0] - _precision(bounds[0]))), out)
         if bounds[1] is not None:
-            out = np.minimum(_to_int(bounds[1] - 0.5 + eps), out)
+            out = np.minimum(_to_int(np.floor(bounds[1] + _precision(bounds[1]))), out)
         # return out
         self._cache = out
         return self._cache
@@ -299,6 +298,11 @@ class Int(Layered, Filterable):
         return out  # type: ignore
 
 
+def _precision(value: np.ndarray) -> np.ndarray:
+    """Tolerance for the computation of bounds"""
+    return 1e-12 + 1e-14 * np.abs(value)  # type: ignore
+
+
 def _to_int(value: tp.Union[float, np.ndarray]) -> tp.Union[int, np.ndarray]:
     """Returns a int from a float, or a int typed array from a float array"""
     if not isinstance(value, np.ndarray):
-- 
2.43.0


From 15bf24c4ba15ba166b454c20a2cb543c60fa556f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:07:13 +0000
Subject: [PATCH 23/47] fix: bounds of decreasing operations were exchanged

---
 nevergrad/parametrization/_datalayers.py | 25 ++++++++++++++++++++++++
 nevergrad/parametrization/data.py        |  2 +-
 2 files changed, 26 insertions(+), 1 deletion(-)

diff --git a/nevergrad/parametrization/_datalayers.py b/nevergrad/parametrization/_datalayers.py
index 3f60a7a..e453857 100644
--- a/nevergrad/parametrization/_datalayers.py
+++ b/nevergrad/parametrization/_datalayers.py
@@ -177,6 +177,22 @@ class ForwardableOperation(Operation):
     def backward(self, value: tp.Any) -> tp.Any:
         raise NotImplementedError
 
+    def forward_bounds(
+        self, lower: tp.Optional[np.ndarray], upper: tp.Optional[np.ndarray]
+    ) -> tp.Tuple[tp.Optional[np.ndarray], tp.Optional[np.ndarray]]:
+        """Bounds after the operation (a decreasing operation exchanges the lower and upper bounds)"""
+        images = tuple(None if b is None else self.forward(b) for b in (lower, upper))
+        decreasing = self._decreasing()
+        if not np.any(decreasing):
+            return images  # type: ignore
+        if all(b is not None for b in images):
+            return np.minimum(*images), np.maximum(*images)  # type: ignore
+        return images[::-1] if np.all(decreasing) else (None, None)  # type: ignore
+
+    def _decreasing(self) -> tp.Union[bool, np.ndarray]:
+        """Whether the operation is decreasing (possibly for some elements only)"""
+        return False
+
 
 class Exponent(ForwardableOperation):
     """Applies an array as exponent of a float"""
@@ -194,6 +210,9 @@ class Exponent(ForwardableOperation):
     def backward(self, value: tp.Any) -> tp.Any:
         return np.log(value) / np.log(self._base)
 
+    def _decreasing(self) -> tp.Union[bool, np.ndarray]:
+        return self._base < 1
+
 
 class Power(ForwardableOperation):
     """Applies a float as exponent of a Data parameter"""
@@ -208,6 +227,9 @@ class Power(ForwardableOperation):
     def backward(self, value: tp.Any) -> tp.Any:
         return value ** (1.0 / self._power)
 
+    def _decreasing(self) -> tp.Union[bool, np.ndarray]:
+        return self._power < 0
+
 
 class Add(ForwardableOperation):
     """Applies an array as exponent of a floar"""
@@ -237,6 +259,9 @@ class Multiply(ForwardableOperation):
     def backward(self, value: tp.Any) -> tp.Any:
         return value / self._mult
 
+    def _decreasing(self) -> tp.Union[bool, np.ndarray]:
+        return np.asarray(self._mult) < 0
+
 
 class Bound(BoundLayer):
     def __init__(
diff --git a/nevergrad/parametrization/data.py b/nevergrad/parametrization/data.py
index 901d9ff..1b7c912 100644
--- a/nevergrad/parametrization/data.py
+++ b/nevergrad/parametrization/data.py
@@ -131,7 +131,7 @@ class Data(core.Parameter):
         forwardable = _datalayers.ForwardableOperation.filter_from(self)
         forwardable = [x for x in forwardable if x._layer_index > bound_layers[-1]._layer_index]
         for f in forwardable:
-            bounds = tuple(None if b is None else f.forward(b) for b in bounds)  # type: ignore
+            bounds = f.forward_bounds(*bounds)
         return bounds
 
     @property
-- 
2.43.0


From b5526a881af5c9f20a539b6000d79b9f590297d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:14:06 +0000
Subject: [PATCH 24/47] fix: arctan and tanh bounds must not exchange the
 bounds because of float precision

---
 nevergrad/parametrization/transforms.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/nevergrad/parametrization/transforms.py b/nevergrad/parametrization/transforms.py
index 388d8c0..4bf2c91 100644
--- a/nevergrad/parametrization/transforms.py
+++ b/nevergrad/parametrization/transforms.py
@@ -177,7 +177,7 @@ class TanhBound(BoundTransform):
                 f"Only data between {self.a_min} and {self.a_max} "
                 "can be transformed back (bounds lead to infinity)."
             )
-        return np.arctanh((y - self._b) / self._a)  # type: ignore
+        return np.arctanh(np.clip((y - self._b) / self._a, -1, 1))  # type: ignore
 
 
 class Clipping(BoundTransform):
@@ -249,7 +249,8 @@ class ArctanBound(BoundTransform):
         self._check_shape(y)
         if (y > self.a_max).any() or (y < self.a_min).any():
             raise ValueError(f"Only data between {self.a_min} and {self.a_max} can be transformed back.")
-        return np.tan((y - self._b) / self._a)  # type: ignore
+        # float precision must not lead to the other side of the discontinuity
+        return np.tan(np.clip((y - self._b) / self._a, -np.pi / 2, np.pi / 2))  # type: ignore
 
 
 class CumulativeDensity(BoundTransform):
-- 
2.43.0


From 87ce8c44c66dddca9eb60d6e5b66ca3cca751d9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:20:10 +0000
Subject: [PATCH 25/47] fix: DE must not discard another member when a member
 of the population is told again

---
 nevergrad/optimization/differentialevolution.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/nevergrad/optimization/differentialevolution.py b/nevergrad/optimization/differentialevolution.py
index 7c391ed..bba5256 100644
--- a/nevergrad/optimization/differentialevolution.py
+++ b/nevergrad/optimization/differentialevolution.py
@@ -279,6 +279,10 @@ class _DE(base.Optimizer):
             self.population[uid].heritage.update(candidate.heritage)
 
     def _internal_tell_not_asked(self, candidate: p.Parameter, loss: tp.FloatLoss) -> None:
+        if candidate.uid in self.population:  # told again: it must not take the place of another member
+            if loss <= base._loss(self.population[candidate.uid]):
+                self.population[candidate.uid] = candidate
+            return
         discardable: tp.Optional[str] = None
         if len(self.population) >= self.llambda:
 
-- 
2.43.0


From 4ba8cfb1d904dbbb9b7f01b5c7dbfa4acfea14b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:20:10 +0000
Subject: [PATCH 26/47] fix: evolution strategies must be able to ask after
 suggestions only

---
 nevergrad/optimization/es.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/nevergrad/optimization/es.py b/nevergrad/optimization/es.py
index c245c15..c5cc17f 100644
--- a/nevergrad/optimization/es.py
+++ b/nevergrad/optimization/es.py
@@ -44,7 +44,8 @@ class _EvolutionStrategy(base.Optimizer):
         self._no_hypervolume = self._config.offsprings is None
 
     def _internal_ask_candidate(self) -> p.Parameter:
-        if self.num_ask < self._config.popsize:
+        # queues can be empty after popsize asks if some of these were suggestions
+        if self.num_ask < self._config.popsize or not (self._uid_queue.told or self._uid_queue.asked):
             param = self.parametrization.sample()
             assert param.uid == param.heritage["lineage"]  # this is an assumption used below
             self._uid_queue.asked.add(param.uid)
-- 
2.43.0


From 03e907f6075891844ab1f5bb2b92b9b85e03430d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:23:13 +0000
Subject: [PATCH 27/47] fix: optimizers must draw from the random state of the
 parametrization

---
 .../optimization/differentialevolution.py     | 10 +--
 nevergrad/optimization/metamodel.py           | 26 ++++--
 nevergrad/optimization/optimizerlib.py        | 86 +++++++++++--------
 nevergrad/optimization/recastlib.py           | 16 ++--
 4 files changed, 85 insertions(+), 53 deletions(-)

diff --git a/nevergrad/optimization/differentialevolution.py b/nevergrad/optimization/differentialevolution.py
index bba5256..4682c13 100644
--- a/nevergrad/optimization/differentialevolution.py
+++ b/nevergrad/optimization/differentialevolution.py
@@ -87,10 +87,10 @@ class Crossover:
             return
         local_donor = donor.reshape(shape)
         local_individual = individual.reshape(shape)
-        x1 = np.array([np.random.randint(shape[i]) for i in range(len(shape))])
-        x2 = np.array([np.random.randint(shape[i]) for i in range(len(shape))])
-        x3 = np.array([np.random.randint(shape[i]) for i in range(len(shape))])
-        x4 = np.array([np.random.randint(shape[i]) for i in range(len(shape))])
+        x1 = np.array([self.random_state.randint(shape[i]) for i in range(len(shape))])
+        x2 = np.array([self.random_state.randint(shape[i]) for i in range(len(shape))])
+        x3 = np.array([self.random_state.randint(shape[i]) for i in range(len(shape))])
+        x4 = np.array([self.random_state.randint(shape[i]) for i in range(len(shape))])
         it = np.nditer(local_donor, flags=["multi_index"])
         for _ in it:
             d1 = np.linalg.norm(np.array(it.multi_index) - x1)
@@ -161,7 +161,7 @@ class _DE(base.Optimizer):
         sample_size = int((self.dimension * (self.dimension - 1)) / 2 + 2 * self.dimension + 1)
         if self._config.high_speed and len(self.archive) >= sample_size:
             try:
-                meta_data = metamodel.learn_on_k_best(self.archive, sample_size)
+                meta_data = metamodel.learn_on_k_best(self.archive, sample_size, random_state=self._rng)
                 return self.parametrization.spawn_child().set_standardized_data(meta_data)
             except metamodel.MetaModelFailure:  # The optimum is at infinity. Shit happens.
                 pass  # MetaModel failures are something which happens, no worries.
diff --git a/nevergrad/optimization/metamodel.py b/nevergrad/optimization/metamodel.py
index 7cbdd2e..6c6128c 100644
--- a/nevergrad/optimization/metamodel.py
+++ b/nevergrad/optimization/metamodel.py
@@ -6,6 +6,7 @@
 import numpy as np
 import nevergrad.common.typing as tp
 import time
+from nevergrad.parametrization import parameter as p
 from . import utils
 from .base import registry
 from . import callbacks
@@ -22,6 +23,7 @@ def learn_on_k_best(
     degree: int = 2,
     shape: tp.Any = None,
     para: tp.Any = None,
+    random_state: tp.Optional[np.random.RandomState] = None,
 ) -> tp.ArrayLike:
     """Approximate optimum learnt from the k best.
 
@@ -29,13 +31,15 @@ def learn_on_k_best(
     ----------
     archive: utils.Archive[utils.Value]
     """
+    if random_state is None:
+        random_state = np.random.RandomState(np.random.randint(2**32, dtype=np.uint32))
     # print("learn_on_k_best", k, algorithm, flush=True)
     items = list(archive.items_as_arrays())
     dimension = len(items[0][0])
     if algorithm == "image":
         k = len(archive) // 6
     if algorithm == "voxelize":
-        k = int(np.random.randint(len(archive) // 6))
+        k = int(random_state.randint(len(archive) // 6))
         if k < 2:
             k = 2
     # Select the k best.
@@ -73,8 +77,10 @@ def learn_on_k_best(
                 outputs += [[values]]
         from sklearn.neural_network import MLPRegressor
 
-        nw = np.random.choice([16, 64, 256])
-        model = MLPRegressor(hidden_layer_sizes=(nw, nw), solver="adam", max_fun=15000, max_iter=200)
+        nw = random_state.choice([16, 64, 256])
+        model = MLPRegressor(
+            hidden_layer_sizes=(nw, nw), solver="adam", max_fun=15000, max_iter=200, random_state=random_state
+        )
         # print("learning on ", len(inputs), " and ", len(outputs))
         # print("dim input = ", len(inputs[0]), inputs[np.random.randint(len(inputs))])
         inputs = np.array(inputs)  # type: ignore
@@ -117,7 +123,7 @@ def learn_on_k_best(
     if algorithm == "neural":
         from sklearn.neural_network import MLPRegressor
 
-        model = MLPRegressor(hidden_layer_sizes=(16, 16), solver="lbfgs")
+        model = MLPRegressor(hidden_layer_sizes=(16, 16), solver="lbfgs", random_state=random_state)
     elif algorithm in ["image"]:
         from sklearn.svm import SVR
         import scipy.ndimage as ndimage
@@ -146,7 +152,7 @@ def learn_on_k_best(
     elif algorithm == "rf":
         from sklearn.ensemble import RandomForestRegressor
 
-        model = RandomForestRegressor()
+        model = RandomForestRegressor(random_state=random_state)
     else:
         assert algorithm == "quad", f"Metamodelling algorithm {algorithm} not recognized."
         # We need SKLearn.
@@ -179,10 +185,12 @@ def learn_on_k_best(
         for cls in (
             (Powell, DE) if algorithm != "image" else (DiscreteLenglerOnePlusOne,)
         ):  # Powell excellent here, DE as a backup for thread safety.
-            optimizer = cls(
-                parametrization=para if (para is not None and algorithm == "image") else dimension,
-                budget=45 * dimension + 30,
-            )
+            if para is not None and algorithm == "image":
+                sub_para = para
+            else:
+                sub_para = p.Array(shape=(dimension,))
+                sub_para.random_state = random_state
+            optimizer = cls(parametrization=sub_para, budget=45 * dimension + 30)
             # limit to 20s at most
             optimizer.register_callback("ask", callbacks.EarlyStopping.timer(20))
             if "image" in algorithm:
diff --git a/nevergrad/optimization/optimizerlib.py b/nevergrad/optimization/optimizerlib.py
index 13e15c4..45e03df 100644
--- a/nevergrad/optimization/optimizerlib.py
+++ b/nevergrad/optimization/optimizerlib.py
@@ -75,11 +75,17 @@ def smooth_copy(array: p.Array, possible_radii: tp.Optional[tp.List[int]] = None
     except Exception as e:
         assert False, f"{e} in smooth_copy, {radii}, {np.prod(radii)}"
     # DE style operator.
-    invfreq = 4 if len(possible_radii) == 1 else max(4, np.random.randint(max(4, len(array.value.flatten()))))
+    invfreq = (
+        4
+        if len(possible_radii) == 1
+        else max(4, array.random_state.randint(max(4, len(array.value.flatten()))))
+    )
     indices = array.random_state.randint(invfreq, size=value.shape) == 0
     while np.sum(indices) == 0 and len(possible_radii) > 1:
         invfreq = (
-            4 if len(possible_radii) == 1 else max(4, np.random.randint(max(4, len(array.value.flatten()))))
+            4
+            if len(possible_radii) == 1
+            else max(4, array.random_state.randint(max(4, len(array.value.flatten()))))
         )
         indices = array.random_state.randint(invfreq, size=value.shape) == 0
     value[indices] = value2[indices]
@@ -280,7 +286,7 @@ class _OnePlusOne(base.Optimizer):
             and self._num_ask % max(self.num_workers + 1, self.antismooth) == 0
             and isinstance(self.parametrization, p.Array)
         ):
-            possible_radii = [3] if not self.super_radii else [3, 3 + np.random.randint(int(np.sqrt(np.sqrt(self.dimension))))]  # type: ignore
+            possible_radii = [3] if not self.super_radii else [3, 3 + self._rng.randint(int(np.sqrt(np.sqrt(self.dimension))))]  # type: ignore
             self.suggest(smooth_copy(pessimistic, possible_radii=possible_radii).value)  # type: ignore
         if self.num_objectives > 1 and self.use_pareto:  # multiobjective
             # revert to using a sample of the pareto front (not "pessimistic" though)
@@ -329,7 +335,7 @@ class _OnePlusOne(base.Optimizer):
                 mutation_rate = max(0.1 / self.dimension, self._global_mr)
                 assert mutation_rate > 0.0
                 individual_mutation_rate = 1.0 / (
-                    1.0 + (((1.0 - mutation_rate) / mutation_rate) * np.exp(0.22 * np.random.randn()))
+                    1.0 + (((1.0 - mutation_rate) / mutation_rate) * np.exp(0.22 * self._rng.randn()))
                 )
                 # print(f"pd={pessimistic_data}_imr={individual_mutation_rate}, d={self.dimension}, arity={self.arity_for_discrete_mutation}")
                 data = mutator.portfolio_discrete_mutation(
@@ -829,7 +835,7 @@ class _CMA(base.Optimizer):
         sample_size = int(d * d / 2 + d / 2 + 3)
         if self._config.high_speed and n >= sample_size:
             try:
-                data = learn_on_k_best(self.archive, sample_size, self.algorithm)
+                data = learn_on_k_best(self.archive, sample_size, self.algorithm, random_state=self._rng)
                 return data  # type: ignore
             except MetaModelFailure:  # Failures in the metamodeling can happen.
                 pass
@@ -1638,7 +1644,7 @@ class _Rescaled(base.Optimizer):
     def rescale_candidate(self, candidate: p.Parameter, inverse: bool = False) -> p.Parameter:
         data = candidate.get_standardized_data(reference=self.parametrization)
         if self.shift is not None:
-            data = data + self.shift * np.random.randn(self.dimension)
+            data = data + self.shift * self._rng.randn(self.dimension)
         scale = self.scale if not inverse else 1.0 / self.scale
         return self.parametrization.spawn_child().set_standardized_data(scale * data)
 
@@ -2175,7 +2181,13 @@ class _MetaModel(base.Optimizer):
         if len(self.archive) >= sample_size and not self._num_ask % freq:
             try:
                 data = learn_on_k_best(
-                    self.archive, sample_size, self.algorithm, self.degree, shape, self.parametrization
+                    self.archive,
+                    sample_size,
+                    self.algorithm,
+                    self.degree,
+                    shape,
+                    self.parametrization,
+                    random_state=self._rng,
                 )
 
                 candidate = self.parametrization.spawn_child().set_standardized_data(data)
@@ -2370,8 +2382,8 @@ RFMetaModelTwoPointsDE = ParametrizedMetaModel(algorithm="rf", multivariate_opti
 )
 
 
-def rescaled(n: int, o: tp.Any):
-    return Rescaled(base_optimizer=o, scale=1.0 / np.exp(np.log(n) * np.random.rand()))  # type: ignore
+def rescaled(n: int, o: tp.Any, rng: np.random.RandomState):
+    return Rescaled(base_optimizer=o, scale=1.0 / np.exp(np.log(n) * rng.rand()))  # type: ignore
 
 
 @registry.register
@@ -2384,7 +2396,8 @@ class MultiBFGSPlus(Portfolio):
         super().__init__(parametrization, budget=budget, num_workers=num_workers)
         optims: tp.List[base.Optimizer] = []
         optims += [
-            rescaled(num_workers, BFGS)(self.parametrization, num_workers=1) for _ in range(num_workers)
+            rescaled(num_workers, BFGS, self._rng)(self.parametrization, num_workers=1)
+            for _ in range(num_workers)
         ]
         for opt in optims[2:]:  # make sure initializations differ
             opt.initial_guess = self._rng.normal(0, 1, self.dimension)  # type: ignore
@@ -2405,7 +2418,8 @@ class LogMultiBFGSPlus(Portfolio):
             num_workers = int(max(num_workers, 1 + np.log(budget)))
         optims: tp.List[base.Optimizer] = []
         optims += [
-            rescaled(num_workers, BFGS)(self.parametrization, num_workers=1) for _ in range(num_workers)
+            rescaled(num_workers, BFGS, self._rng)(self.parametrization, num_workers=1)
+            for _ in range(num_workers)
         ]
         for opt in optims[2:]:  # make sure initializations differ
             opt.initial_guess = self._rng.normal(0, 1, self.dimension)  # type: ignore
@@ -2426,7 +2440,8 @@ class SqrtMultiBFGSPlus(Portfolio):
             num_workers = int(max(num_workers, 1 + np.sqrt(budget)))
         optims: tp.List[base.Optimizer] = []
         optims += [
-            rescaled(num_workers, BFGS)(self.parametrization, num_workers=1) for _ in range(num_workers)
+            rescaled(num_workers, BFGS, self._rng)(self.parametrization, num_workers=1)
+            for _ in range(num_workers)
         ]
         for opt in optims[2:]:  # make sure initializations differ
             opt.initial_guess = self._rng.normal(0, 1, self.dimension)  # type: ignore
@@ -2443,7 +2458,8 @@ class MultiCobylaPlus(Portfolio):
         super().__init__(parametrization, budget=budget, num_workers=num_workers)
         optims: tp.List[base.Optimizer] = []
         optims += [
-            rescaled(num_workers, Cobyla)(self.parametrization, num_workers=1) for _ in range(num_workers)
+            rescaled(num_workers, Cobyla, self._rng)(self.parametrization, num_workers=1)
+            for _ in range(num_workers)
         ]
         for opt in optims[2:]:  # make sure initializations differ
             opt.initial_guess = self._rng.normal(0, 1, self.dimension)  # type: ignore
@@ -2462,7 +2478,8 @@ class MultiSQPPlus(Portfolio):
         super().__init__(parametrization, budget=budget, num_workers=num_workers)
         optims: tp.List[base.Optimizer] = []
         optims += [
-            rescaled(num_workers, SQP)(self.parametrization, num_workers=1) for _ in range(num_workers)
+            rescaled(num_workers, SQP, self._rng)(self.parametrization, num_workers=1)
+            for _ in range(num_workers)
         ]
         for opt in optims[2:]:  # make sure initializations differ
             opt.initial_guess = self._rng.normal(0, 1, self.dimension)  # type: ignore
@@ -2484,7 +2501,7 @@ class BFGSCMAPlus(Portfolio):
             MetaCMA(self.parametrization, budget=budget, num_workers=cma_workers)
         ]
         optims += [
-            rescaled(num_workers, BFGS)(self.parametrization, num_workers=1)
+            rescaled(num_workers, BFGS, self._rng)(self.parametrization, num_workers=1)
             for _ in range(num_workers - cma_workers)
         ]
         for opt in optims[2:]:  # make sure initializations differ
@@ -2509,7 +2526,7 @@ class LogBFGSCMAPlus(Portfolio):
             MetaCMA(self.parametrization, budget=budget, num_workers=cma_workers)
         ]
         optims += [
-            rescaled(num_workers, BFGS)(self.parametrization, num_workers=1)
+            rescaled(num_workers, BFGS, self._rng)(self.parametrization, num_workers=1)
             for _ in range(num_workers - cma_workers)
         ]
         for opt in optims[2:]:  # make sure initializations differ
@@ -2534,7 +2551,7 @@ class SqrtBFGSCMAPlus(Portfolio):
             MetaCMA(self.parametrization, budget=budget, num_workers=cma_workers)
         ]
         optims += [
-            rescaled(num_workers, BFGS)(self.parametrization, num_workers=1)
+            rescaled(num_workers, BFGS, self._rng)(self.parametrization, num_workers=1)
             for _ in range(num_workers - cma_workers)
         ]
         for opt in optims[2:]:  # make sure initializations differ
@@ -2557,7 +2574,7 @@ class SQPCMAPlus(Portfolio):
             MetaCMA(self.parametrization, budget=budget, num_workers=cma_workers)
         ]
         optims += [
-            rescaled(num_workers, SQP)(self.parametrization, num_workers=1)
+            rescaled(num_workers, SQP, self._rng)(self.parametrization, num_workers=1)
             for _ in range(num_workers - cma_workers)
         ]
         for opt in optims[2:]:  # make sure initializations differ
@@ -2582,7 +2599,7 @@ class LogSQPCMAPlus(Portfolio):
             MetaCMA(self.parametrization, budget=budget, num_workers=cma_workers)
         ]
         optims += [
-            rescaled(num_workers, SQP)(self.parametrization, num_workers=1)
+            rescaled(num_workers, SQP, self._rng)(self.parametrization, num_workers=1)
             for _ in range(num_workers - cma_workers)
         ]
         for opt in optims[2:]:  # make sure initializations differ
@@ -2607,7 +2624,7 @@ class SqrtSQPCMAPlus(Portfolio):
             MetaCMA(self.parametrization, budget=budget, num_workers=cma_workers)
         ]
         optims += [
-            rescaled(num_workers, SQP)(self.parametrization, num_workers=1)
+            rescaled(num_workers, SQP, self._rng)(self.parametrization, num_workers=1)
             for _ in range(num_workers - cma_workers)
         ]
         for opt in optims[2:]:  # make sure initializations differ
@@ -2908,7 +2925,7 @@ class F3SQPCMA(Portfolio):
             MetaCMA(self.parametrization, budget=budget, num_workers=cma_workers)
         ]
         optims += [
-            Rescaled(base_optimizer=SQP, scale=max(0.01, np.exp(-1.0 / np.random.rand())))(
+            Rescaled(base_optimizer=SQP, scale=max(0.01, np.exp(-1.0 / self._rng.rand())))(
                 self.parametrization, num_workers=1
             )
             for _ in range(num_workers - cma_workers)
@@ -5807,7 +5824,7 @@ class NgIoh14(NgIoh11):
                 optimizers += [
                     Rescaled(
                         base_optimizer=NgIoh11._select_optimizer_cls(self),
-                        scale=max(0.01, np.exp(-1.0 / np.random.rand())),
+                        scale=max(0.01, np.exp(-1.0 / self._rng.rand())),
                     )
                 ]
                 if len(optimizers) < num:
@@ -5823,7 +5840,7 @@ class NgIoh14(NgIoh11):
                     optimizers += [
                         Rescaled(
                             base_optimizer=NgIoh11._select_optimizer_cls(self),
-                            scale=max(0.01, np.exp(-1.0 / np.random.rand())),
+                            scale=max(0.01, np.exp(-1.0 / self._rng.rand())),
                         )
                     ]
                 return ConfPortfolio(optimizers=optimizers, warmup_ratio=0.70, no_crossing=True)
@@ -5930,7 +5947,7 @@ class NgIoh13(NgIoh11):
                 optimizers += [
                     Rescaled(
                         base_optimizer=NgIoh11._select_optimizer_cls(self),
-                        scale=max(0.01, np.exp(-1.0 / np.random.rand())),
+                        scale=max(0.01, np.exp(-1.0 / self._rng.rand())),
                     )
                 ]
                 if len(optimizers) < num:
@@ -5946,7 +5963,7 @@ class NgIoh13(NgIoh11):
                     optimizers += [
                         Rescaled(
                             base_optimizer=NgIoh11._select_optimizer_cls(self),
-                            scale=max(0.01, np.exp(-1.0 / np.random.rand())),
+                            scale=max(0.01, np.exp(-1.0 / self._rng.rand())),
                         )
                     ]
                 return ConfPortfolio(optimizers=optimizers, warmup_ratio=1.00, no_crossing=True)
@@ -6054,7 +6071,7 @@ class NgIoh15(NgIoh11):
                     optimizers += [
                         Rescaled(
                             base_optimizer=NgIoh11._select_optimizer_cls(self),
-                            scale=max(0.01, np.exp(-1.0 / np.random.rand())),
+                            scale=max(0.01, np.exp(-1.0 / self._rng.rand())),
                         )
                     ]
                     # optimizers += [NgIoh11]
@@ -6162,7 +6179,7 @@ class NgIoh12(NgIoh11):
                     optimizers += [
                         Rescaled(
                             base_optimizer=NgIoh11._select_optimizer_cls(self),
-                            scale=max(0.01, np.exp(-1.0 / np.random.rand())),
+                            scale=max(0.01, np.exp(-1.0 / self._rng.rand())),
                         )
                     ]
                     # optimizers += [NgIoh11]
@@ -6273,7 +6290,7 @@ class NgIoh16(NgIoh11):
                         Rescaled(
                             base_optimizer=Carola14,
                             # base_optimizer=NgIoh11._select_optimizer_cls(self, sub_budget),
-                            scale=max(0.01, np.exp(-1.0 / np.random.rand())),
+                            scale=max(0.01, np.exp(-1.0 / self._rng.rand())),
                         )
                     ]
                 # print("NgIoh16 chooses ", optimizers)
@@ -6385,7 +6402,7 @@ class NgIoh17(NgIoh11):
                         Rescaled(
                             # base_optimizer=Carola2,
                             base_optimizer=NgIoh11._select_optimizer_cls(self, sub_budget),
-                            scale=max(0.01, np.exp(-1.0 / np.random.rand())),
+                            scale=max(0.01, np.exp(-1.0 / self._rng.rand())),
                         )
                     ]
                     # optimizers += [NgIoh11]
@@ -7034,7 +7051,7 @@ class NgIoh18(NgIoh11):
                             Rescaled(
                                 # base_optimizer=Carola2,
                                 base_optimizer=NgIoh11._select_optimizer_cls(self, sub_budget),
-                                scale=np.random.rand() * 2.0,
+                                scale=self._rng.rand() * 2.0,
                             )
                         ]
                         if k % 3 == 2
@@ -7043,7 +7060,7 @@ class NgIoh18(NgIoh11):
                                 Rescaled(
                                     # base_optimizer=Carola2,
                                     base_optimizer=NgIoh11._select_optimizer_cls(self, sub_budget),
-                                    shift=np.random.randn(),
+                                    shift=self._rng.randn(),
                                 )
                             ]
                             if k % 3 == 0
@@ -7051,8 +7068,8 @@ class NgIoh18(NgIoh11):
                                 Rescaled(
                                     # base_optimizer=Carola2,
                                     base_optimizer=NgIoh11._select_optimizer_cls(self, sub_budget),
-                                    scale=np.random.rand() * 2.0,
-                                    shift=np.random.randn(),
+                                    scale=self._rng.rand() * 2.0,
+                                    shift=self._rng.randn(),
                                 )
                             ]
                         )
@@ -7729,7 +7746,8 @@ CMARS = Chaining([RandomSearch, CMA], ["tenth"]).set_name("CMARS", register=True
 NgIohRS = Chaining([oneshot.RandomSearch, CSEC11], ["tenth"]).set_name("NgIohRS", register=True)
 PolyLN = ConfPortfolio(
     optimizers=[
-        Rescaled(base_optimizer=SmallLognormalDiscreteOnePlusOne, scale=np.random.rand()) for i in range(20)
+        Rescaled(base_optimizer=SmallLognormalDiscreteOnePlusOne, scale=scale)
+        for scale in np.random.RandomState(12).rand(20)
     ],
     warmup_ratio=0.5,
 ).set_name("PolyLN", register=True)
diff --git a/nevergrad/optimization/recastlib.py b/nevergrad/optimization/recastlib.py
index efedefa..7834967 100644
--- a/nevergrad/optimization/recastlib.py
+++ b/nevergrad/optimization/recastlib.py
@@ -439,7 +439,12 @@ class _NonObjectMinimizeBase(recaster.SequentialRecastOptimizer):
                 )
                 num_calls = 0
                 while budget - num_calls > 0:
-                    options = {"maxfevals": budget - num_calls, "verbose": -9}
+                    options = {
+                        "maxfevals": budget - num_calls,
+                        "verbose": -9,
+                        "randn": weakself._rng.randn,
+                        "seed": np.nan,  # no seeding of the global random state
+                    }
                     if weakself._normalizer is not None and weakself._normalizer.fully_bounded:
                         # Tell CMA to work in [0, 1].
                         options["bounds"] = [0.0, 1.0]
@@ -452,9 +457,10 @@ class _NonObjectMinimizeBase(recaster.SequentialRecastOptimizer):
                     )
                     x0 = (
                         0.5
-                        + np.random.uniform() * np.random.uniform(low=-0.5, high=0.5, size=weakself.dimension)
+                        + weakself._rng.uniform()
+                        * weakself._rng.uniform(low=-0.5, high=0.5, size=weakself.dimension)
                         if weakself._normalizer is not None and weakself._normalizer.fully_bounded
-                        else np.random.randn(weakself.dimension)
+                        else weakself._rng.randn(weakself.dimension)
                     )
                     if res[1] < best_res:
                         best_res = res[1]
@@ -620,12 +626,12 @@ class _PymooMinimizeBase(recaster.SequentialRecastOptimizer):
         if weakself.algorithm == "CMAES":
             from pymoo.algorithms.soo.nonconvex.cmaes import CMAES
 
-            algorithm = CMAES(x0=np.random.random(problem.n_var), maxfevals=weakself.budget)
+            algorithm = CMAES(x0=weakself._rng.random_sample(problem.n_var), maxfevals=weakself.budget)
         elif weakself.algorithm == "BIPOP":
             from pymoo.algorithms.soo.nonconvex.cmaes import CMAES
 
             algorithm = CMAES(
-                x0=np.random.random(problem.n_var),
+                x0=weakself._rng.random_sample(problem.n_var),
                 sigma=0.5,
                 restarts=2,
                 maxfevals=weakself.budget,
-- 
2.43.0


From d5f37e37923e2e6045b69ce9bbadfcd96aa58f3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:24:38 +0000
Subject: [PATCH 28/47] fix: recommendations of CMA must not draw random
 numbers

---
 nevergrad/optimization/optimizerlib.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/nevergrad/optimization/optimizerlib.py b/nevergrad/optimization/optimizerlib.py
index 45e03df..0ae94df 100644
--- a/nevergrad/optimization/optimizerlib.py
+++ b/nevergrad/optimization/optimizerlib.py
@@ -757,12 +757,12 @@ class _CMA(base.Optimizer):
 
     @property
     def es(self) -> tp.Any:  # typing not possible since cmaes not imported :(
-        scale_multiplier = 1.0
         if self.dimension == 1:
             self._config.fcmaes = True
-        if p.helpers.Normalizer(self.parametrization).fully_bounded:
-            scale_multiplier = 0.3 if self.dimension < 18 else 0.15
         if self._es is None or (not self._config.fcmaes and self._es.stop()):
+            scale_multiplier = 1.0
+            if p.helpers.Normalizer(self.parametrization).fully_bounded:
+                scale_multiplier = 0.3 if self.dimension < 18 else 0.15
             if not self._config.fcmaes:
                 import cma  # import inline in order to avoid matplotlib initialization warning
 
-- 
2.43.0


From 30c2a66882568b7c19c6aa364d7600e3fae31db2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:24:59 +0000
Subject: [PATCH 29/47] fix: CMA with metamodel must not fail to recommend when
 points are repeated

---
 nevergrad/optimization/optimizerlib.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/nevergrad/optimization/optimizerlib.py b/nevergrad/optimization/optimizerlib.py
index 0ae94df..433db9b 100644
--- a/nevergrad/optimization/optimizerlib.py
+++ b/nevergrad/optimization/optimizerlib.py
@@ -831,9 +831,8 @@ class _CMA(base.Optimizer):
             reference=self.parametrization
         )
         d = self.dimension
-        n = self.num_ask
         sample_size = int(d * d / 2 + d / 2 + 3)
-        if self._config.high_speed and n >= sample_size:
+        if self._config.high_speed and len(self.archive) >= sample_size:
             try:
                 data = learn_on_k_best(self.archive, sample_size, self.algorithm, random_state=self._rng)
                 return data  # type: ignore
-- 
2.43.0


From e7a6bbae6eb72f2258db68f3361528af3dbd1446 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:42:21 +0000
Subject: [PATCH 30/47] fix: a Pareto front must not be modified after it was
 provided

---
 nevergrad/optimization/multiobjective/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nevergrad/optimization/multiobjective/core.py b/nevergrad/optimization/multiobjective/core.py
index 5e19c6b..9639784 100644
--- a/nevergrad/optimization/multiobjective/core.py
+++ b/nevergrad/optimization/multiobjective/core.py
@@ -239,7 +239,7 @@ class ParetoFront:
         if self._pareto_needs_filtering:
             self._filter_pareto_front()
         if size is None or size >= len(self._pareto):  # No limit: we return the full set.
-            return self._pareto
+            return list(self._pareto)  # not the list which is updated by the next tells
         # draw indices since parametrizations can be iterable, and without replacement to avoid duplicates
         num_tentatives = 1 if subset == "random" else subset_tentatives
         indices = [self._rng.choice(len(self._pareto), size, replace=False) for _ in range(num_tentatives)]
-- 
2.43.0


From 72250c68ecd2540be0dea195cfe0b62db36f8e16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:26:01 +0000
Subject: [PATCH 31/47] fix: seeded experiments failed since numpy integers are
 not supported as seeds

---
 nevergrad/benchmark/xpbase.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/nevergrad/benchmark/xpbase.py b/nevergrad/benchmark/xpbase.py
index 99d07e3..bd6bd3a 100644
--- a/nevergrad/benchmark/xpbase.py
+++ b/nevergrad/benchmark/xpbase.py
@@ -131,7 +131,8 @@ def create_seed_generator(seed: tp.Optional[int]) -> tp.Iterator[tp.Optional[int
     """
     generator = None if seed is None else np.random.RandomState(seed=seed)
     while True:
-        yield None if generator is None else generator.randint(2**32, dtype=np.uint32)  # type: ignore
+        # converted to int since the standard library does not support numpy integers as seeds
+        yield None if generator is None else int(generator.randint(2**32, dtype=np.uint32))
 
 
 class Experiment:
-- 
2.43.0


From 4661ae02ecb27510baffe53948551bbf71809de9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:26:01 +0000
Subject: [PATCH 32/47] fix: points asked over the budget of a chain come from
 its last optimizer

---
 nevergrad/optimization/optimizerlib.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/nevergrad/optimization/optimizerlib.py b/nevergrad/optimization/optimizerlib.py
index 433db9b..0398338 100644
--- a/nevergrad/optimization/optimizerlib.py
+++ b/nevergrad/optimization/optimizerlib.py
@@ -3421,10 +3421,9 @@ class _Chain(base.Optimizer):
         sum_budget = 0.0
         opt = self.optimizers[0]
         chosen_index = 0
-        for index, opt in enumerate(self.optimizers):
+        for chosen_index, opt in enumerate(self.optimizers):
             sum_budget += float("inf") if opt.budget is None else opt.budget
             if self.num_ask < sum_budget:
-                chosen_index = index
                 break
         # if we are over budget, then use the last one...
 
-- 
2.43.0


From 3ca57774b97b81396d144dcbacbaada54827adad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:26:01 +0000
Subject: [PATCH 33/47] fix: chains must support optimizers which refuse points
 they did not ask

---
 nevergrad/optimization/optimizerlib.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/nevergrad/optimization/optimizerlib.py b/nevergrad/optimization/optimizerlib.py
index 0398338..c1d376b 100644
--- a/nevergrad/optimization/optimizerlib.py
+++ b/nevergrad/optimization/optimizerlib.py
@@ -3434,6 +3434,7 @@ class _Chain(base.Optimizer):
     def _internal_tell_candidate(self, candidate: p.Parameter, loss: tp.FloatLoss) -> None:
         # Let us inform all concerned algorithms
         sum_budget = 0.0
+        accepted, refused = 0, 0
         for k, opt in enumerate(self.optimizers):
             is_last = k == len(self.optimizers) - 1
             sum_budget += float("inf") if opt.budget is None or is_last else opt.budget
@@ -3442,7 +3443,13 @@ class _Chain(base.Optimizer):
                 self.no_crossing
                 and ("optim_index" not in candidate._meta or k != candidate._meta["optim_index"])
             ):
-                opt.tell(candidate, loss)
+                try:
+                    opt.tell(candidate, loss)
+                    accepted += 1
+                except errors.TellNotAskedNotSupportedError:
+                    refused += 1
+        if refused and not accepted and candidate.uid not in self._asked:
+            raise errors.TellNotAskedNotSupportedError("No sub-optimizer accepted the tell-not-asked")
 
     def enable_pickling(self):
         for opt in self.optimizers:
-- 
2.43.0


From 45fdd6ff5a4e71baf5dacd7fe4b02b41ef869466 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:26:01 +0000
Subject: [PATCH 34/47] fix: portfolios must accept the points which they asked

---
 nevergrad/optimization/optimizerlib.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nevergrad/optimization/optimizerlib.py b/nevergrad/optimization/optimizerlib.py
index c1d376b..307f29b 100644
--- a/nevergrad/optimization/optimizerlib.py
+++ b/nevergrad/optimization/optimizerlib.py
@@ -2101,7 +2101,7 @@ class Portfolio(base.Optimizer):
                 accepted += 1
             except errors.TellNotAskedNotSupportedError:
                 pass
-        if not accepted:
+        if not accepted and candidate.uid not in self._asked:  # initial random points are not asked to optims
             raise errors.TellNotAskedNotSupportedError("No sub-optimizer accepted the tell-not-asked")
 
     def enable_pickling(self) -> None:
-- 
2.43.0


From 198fe47762e10d95b4447478a58addb56c62ea11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:26:01 +0000
Subject: [PATCH 35/47] fix: threads of the recast optimizers must not prevent
 the interpreter from exiting

---
 nevergrad/optimization/recaster.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nevergrad/optimization/recaster.py b/nevergrad/optimization/recaster.py
index e053a7d..0589d68 100644
--- a/nevergrad/optimization/recaster.py
+++ b/nevergrad/optimization/recaster.py
@@ -48,7 +48,7 @@ class _MessagingThread(threading.Thread):
 
     # pylint: disable=too-many-instance-attributes
     def __init__(self, caller: tp.Callable[..., tp.Any], *args: tp.Any, **kwargs: tp.Any) -> None:
-        super().__init__()
+        super().__init__(daemon=True)  # must not prevent the interpreter from exiting while waiting for a loss
         self.messages_ask: tp.Any = queue.Queue()
         self.messages_tell: tp.Any = queue.Queue()
         self.call_count = 0
-- 
2.43.0


From d27e1b1cb8dfa0bd0fa120138f1e7ed33e01150d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:26:01 +0000
Subject: [PATCH 36/47] fix: results of the mocked executor can be read several
 times

---
 nevergrad/benchmark/execution.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/nevergrad/benchmark/execution.py b/nevergrad/benchmark/execution.py
index 70a827a..53b7077 100644
--- a/nevergrad/benchmark/execution.py
+++ b/nevergrad/benchmark/execution.py
@@ -57,8 +57,9 @@ class MockedTimedJob:
         self.process()
         if not self.done():
             raise RuntimeError("Asking result which is not ready")
-        self._is_read = True
-        self._executor.notify_read(self)
+        if not self._is_read:  # the result can be read again (resumed or verbose optimizations)
+            self._is_read = True
+            self._executor.notify_read(self)
         return self._output
 
     def __repr__(self) -> str:
-- 
2.43.0


From e940cd215603197af4bd2e708e9665b5cdf4df30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:14:18 +0000
Subject: [PATCH 37/47] Revert "fix: results of the mocked executor can be read
 several times"

This reverts commit d27e1b1cb8dfa0bd0fa120138f1e7ed33e01150d.
---
 nevergrad/benchmark/execution.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/nevergrad/benchmark/execution.py b/nevergrad/benchmark/execution.py
index 53b7077..70a827a 100644
--- a/nevergrad/benchmark/execution.py
+++ b/nevergrad/benchmark/execution.py
@@ -57,9 +57,8 @@ class MockedTimedJob:
         self.process()
         if not self.done():
             raise RuntimeError("Asking result which is not ready")
-        if not self._is_read:  # the result can be read again (resumed or verbose optimizations)
-            self._is_read = True
-            self._executor.notify_read(self)
+        self._is_read = True
+        self._executor.notify_read(self)
         return self._output
 
     def __repr__(self) -> str:
-- 
2.43.0


From 199b0ea4bfd992da3c8592fdfe82e2d66990e40e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:14:18 +0000
Subject: [PATCH 38/47] Revert "fix: seeded experiments failed since numpy
 integers are not supported as seeds"

This reverts commit 72250c68ecd2540be0dea195cfe0b62db36f8e16.
---
 nevergrad/benchmark/xpbase.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/nevergrad/benchmark/xpbase.py b/nevergrad/benchmark/xpbase.py
index bd6bd3a..99d07e3 100644
--- a/nevergrad/benchmark/xpbase.py
+++ b/nevergrad/benchmark/xpbase.py
@@ -131,8 +131,7 @@ def create_seed_generator(seed: tp.Optional[int]) -> tp.Iterator[tp.Optional[int
     """
     generator = None if seed is None else np.random.RandomState(seed=seed)
     while True:
-        # converted to int since the standard library does not support numpy integers as seeds
-        yield None if generator is None else int(generator.randint(2**32, dtype=np.uint32))
+        yield None if generator is None else generator.randint(2**32, dtype=np.uint32)  # type: ignore
 
 
 class Experiment:
-- 
2.43.0


From bcc14c7327d63ff923df4dd9af3356485b6d29c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:07:41 +0000
Subject: [PATCH 39/47] fix: OptimizationPrinter and OptimizationLogger must
 respect their interval of tells

---
 nevergrad/optimization/callbacks.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/nevergrad/optimization/callbacks.py b/nevergrad/optimization/callbacks.py
index e20a4d7..c7c8793 100644
--- a/nevergrad/optimization/callbacks.py
+++ b/nevergrad/optimization/callbacks.py
@@ -37,11 +37,11 @@ class OptimizationPrinter:
         assert print_interval_seconds > 0
         self._print_interval_tells = int(print_interval_tells)
         self._print_interval_seconds = print_interval_seconds
-        self._next_tell = self._print_interval_tells
+        self._next_tell = 0  # first print at the first tell
         self._next_time = time.time() + print_interval_seconds
 
     def __call__(self, optimizer: base.Optimizer, *args: tp.Any, **kwargs: tp.Any) -> None:
-        if time.time() >= self._next_time or self._next_tell >= optimizer.num_tell:
+        if time.time() >= self._next_time or optimizer.num_tell >= self._next_tell:
             self._next_time = time.time() + self._print_interval_seconds
             self._next_tell = optimizer.num_tell + self._print_interval_tells
             x = optimizer.provide_recommendation()
@@ -78,11 +78,11 @@ class OptimizationLogger:
         self._log_level = log_level
         self._log_interval_tells = int(log_interval_tells)
         self._log_interval_seconds = log_interval_seconds
-        self._next_tell = self._log_interval_tells
+        self._next_tell = 0  # first log at the first tell
         self._next_time = time.time() + log_interval_seconds
 
     def __call__(self, optimizer: base.Optimizer, *args: tp.Any, **kwargs: tp.Any) -> None:
-        if time.time() >= self._next_time or self._next_tell >= optimizer.num_tell:
+        if time.time() >= self._next_time or optimizer.num_tell >= self._next_tell:
             self._next_time = time.time() + self._log_interval_seconds
             self._next_tell = optimizer.num_tell + self._log_interval_tells
             if optimizer.num_objectives == 1:
-- 
2.43.0


From 331ecd92b19119aad31ffffe83e082564e41d7db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:07:41 +0000
Subject: [PATCH 40/47] fix: ParametersLogger must use its order

---
 nevergrad/optimization/callbacks.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nevergrad/optimization/callbacks.py b/nevergrad/optimization/callbacks.py
index c7c8793..32f9400 100644
--- a/nevergrad/optimization/callbacks.py
+++ b/nevergrad/optimization/callbacks.py
@@ -159,7 +159,7 @@ class ParametersLogger:
             data["#meta-sigma"] = candidate._meta["sigma"]  # for TBPSA-like algorithms
         if candidate.generation > 1:
             data["#parents_uids"] = candidate.parents_uids
-        for name, param in helpers.flatten(candidate, with_containers=False, order=1):
+        for name, param in helpers.flatten(candidate, with_containers=False, order=self._order):
             val = param.value
             if isinstance(val, (np.float64, np.int_, np.bool_)):
                 val = val.item()
-- 
2.43.0


From a485995df1312aa47a35d8dbeb51a739c1ce5ca9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:07:41 +0000
Subject: [PATCH 41/47] fix: no_improvement_stopper must stop optimizers which
 recommend points they did not evaluate

---
 nevergrad/optimization/callbacks.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/nevergrad/optimization/callbacks.py b/nevergrad/optimization/callbacks.py
index 32f9400..bc66892 100644
--- a/nevergrad/optimization/callbacks.py
+++ b/nevergrad/optimization/callbacks.py
@@ -372,6 +372,9 @@ class _LossImprovementToleranceCriterion:
 
     def __call__(self, optimizer: base.Optimizer) -> bool:
         best_param = optimizer.provide_recommendation()
+        if best_param is not None and best_param.loss is None and best_param._losses is None:
+            # the recommendation may have not been evaluated (eg.: the mean of a distribution)
+            best_param = optimizer.current_bests["pessimistic"].parameter if optimizer.num_tell else None
         if best_param is None or (best_param.loss is None and best_param._losses is None):
             return False
         best_last_losses = best_param.losses
-- 
2.43.0


From 5aa2d720f3442f08f72d2c347dafff614856cbdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:18:58 +0000
Subject: [PATCH 42/47] fix: constraints registered on a copy of an experiment
 function were registered on the original as well

---
 nevergrad/functions/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nevergrad/functions/base.py b/nevergrad/functions/base.py
index 77878c3..bc1f2c9 100644
--- a/nevergrad/functions/base.py
+++ b/nevergrad/functions/base.py
@@ -196,7 +196,7 @@ class ExperimentFunction:
                 "ExperimentFunction.__new__ and copy to better understand what happens"
             )
         # propagate other useful information # TODO a bit hacky
-        output.parametrization._constraint_checkers = self.parametrization._constraint_checkers
+        output.parametrization._constraint_checkers = list(self.parametrization._constraint_checkers)
         output.multiobjective_upper_bounds = (
             self.multiobjective_upper_bounds
         )  # TODO not sure why this is needed
-- 
2.43.0


From 4a9cd9390230beb63a9f175b05e7b231e3a12b95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:18:58 +0000
Subject: [PATCH 43/47] fix: symmetries of bounded functions reflect each
 variable around the middle of its own bounds

---
 nevergrad/functions/base.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/nevergrad/functions/base.py b/nevergrad/functions/base.py
index bc1f2c9..d2262c3 100644
--- a/nevergrad/functions/base.py
+++ b/nevergrad/functions/base.py
@@ -336,7 +336,9 @@ class ArrayExperimentFunction(ExperimentFunction):
             for i in range(self.dimension):  # pylint: disable=consider-using-enumerate
                 if symmetry % 2 == 1:
                     if self.parametrization.bounds[0] is not None and self.parametrization.bounds[1] is not None:  # type: ignore
-                        middle = (self.parametrization.bounds[0][0] + self.parametrization.bounds[1][0]) / 2.0  # type: ignore
+                        # the bounds are either common to all the variables, or given for each of them
+                        lower, upper = (np.ravel(b)[i if np.size(b) > 1 else 0] for b in self.parametrization.bounds)  # type: ignore
+                        middle = (lower + upper) / 2.0
                     else:
                         middle = 0.0
                     self.threshold_coefficients[i] = 2.0 * middle  # Otherwise we keep 0.
-- 
2.43.0


From 93898304d66d7d8034e2314ede4a2247e4cf1230 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:18:58 +0000
Subject: [PATCH 44/47] fix: multiobjective upper bounds of FarOptimumFunction
 were reset to None

---
 nevergrad/functions/functionlib.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nevergrad/functions/functionlib.py b/nevergrad/functions/functionlib.py
index 8e3ee3d..717bccb 100644
--- a/nevergrad/functions/functionlib.py
+++ b/nevergrad/functions/functionlib.py
@@ -335,8 +335,8 @@ class FarOptimumFunction(ExperimentFunction):
         parametrization.set_mutation(sigma=sigma)
         if recombination == "crossover":
             parametrization = ng.ops.mutations.Crossover()(parametrization)
-        self.multiobjective_upper_bounds = np.array(2 * self._optimum) if multiobjective else None
         super().__init__(self._multifunc if multiobjective else self._monofunc, parametrization.set_name(""))  # type: ignore
+        self.multiobjective_upper_bounds = np.array(2 * self._optimum) if multiobjective else None
 
     def _multifunc(self, x: np.ndarray) -> np.ndarray:
         return np.abs(x - self._optimum)  # type: ignore
-- 
2.43.0


From 48df421fdb3044f3ccc177b1e20d74dd57693cbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:18:58 +0000
Subject: [PATCH 45/47] fix: arrays are written in the language of files with
 an uppercase extension

---
 nevergrad/parametrization/instantiate.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nevergrad/parametrization/instantiate.py b/nevergrad/parametrization/instantiate.py
index 8848cb0..af68c4b 100644
--- a/nevergrad/parametrization/instantiate.py
+++ b/nevergrad/parametrization/instantiate.py
@@ -145,7 +145,7 @@ class FileTextFunction:
 
     def __call__(self, **kwargs: tp.Any) -> str:
         testing.assert_set_equal(kwargs, self.parameters, err_msg="Wrong input parameters.")
-        return Placeholder.sub(self._text, self.filepath.suffix, replacers=kwargs)
+        return Placeholder.sub(self._text, self.filepath.suffix.lower(), replacers=kwargs)
 
     def __repr__(self) -> str:
         names = sorted(self.parameters)
-- 
2.43.0


From c4cf8622870bf77045b11690d84e5a88a3c58e95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:18:58 +0000
Subject: [PATCH 46/47] fix: placeholders duplicated over several files were
 not detected

---
 nevergrad/parametrization/instantiate.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/nevergrad/parametrization/instantiate.py b/nevergrad/parametrization/instantiate.py
index af68c4b..174d5b7 100644
--- a/nevergrad/parametrization/instantiate.py
+++ b/nevergrad/parametrization/instantiate.py
@@ -190,6 +190,7 @@ class FolderInstantiator:
                         raise RuntimeError(
                             f"Found {fp} placeholders in another file (names must be unique): {fnames & names}"
                         )
+                    names |= fnames
                     self.file_functions.append(file_func)
         assert self.file_functions, "Found no file with placeholders"
         self.file_functions = sorted(self.file_functions, key=operator.attrgetter("filepath"))
-- 
2.43.0


From c2870b01a31268ad596fff12b19e8e555bd584ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:18:58 +0000
Subject: [PATCH 47/47] fix: CommandFunction was blocked when the error stream
 exceeds the size of the pipe

---
 nevergrad/parametrization/utils.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/nevergrad/parametrization/utils.py b/nevergrad/parametrization/utils.py
index b920d6b..d826a07 100644
--- a/nevergrad/parametrization/utils.py
+++ b/nevergrad/parametrization/utils.py
@@ -170,10 +170,11 @@ class CommandFunction:
         if self.verbose:
             print(f"The following command is sent: {full_command}")
         outlines: tp.List[str] = []
-        with subprocess.Popen(
+        # stderr goes through a file: with a pipe, the process would be blocked as soon as the pipe is full
+        with tempfile.TemporaryFile() as errfile, subprocess.Popen(
             full_command,
             stdout=subprocess.PIPE,
-            stderr=subprocess.PIPE,
+            stderr=errfile,
             shell=False,
             cwd=self.cwd,
             env=self.env,
@@ -190,9 +191,10 @@ class CommandFunction:
                 process.kill()
                 process.wait()
                 raise FailedJobError("Job got killed for an unknown reason.")
-            stderr = process.communicate()[1]  # we already got stdout
+            retcode = process.wait()  # we already got stdout
+            errfile.seek(0)
+            stderr = errfile.read()
             stdout = "\n".join(outlines)
-            retcode = process.poll()
             if stderr and (retcode or self.verbose):
                 print(stderr.decode(), file=sys.stderr)
             if retcode:
-- 
2.43.0


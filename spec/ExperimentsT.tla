----------------------------- MODULE ExperimentsT -----------------------------
(* fn    cfg: configuration, ev: observations (call, eval, time: x, val, whole; copy, pickle, deepcopy, seed)              *)
(* obj   ev: operation [op, o, v, w] + err, obs: for each instance [added, text, dim, name, flags, nc, ub], eq: equivalences  *)
(* core  [fun, x, val]; quad [base, one, two: values x10000 at 0, e_i, 2 e_i, n: number of useful variables, q: points,       *)
(* v, again, ev: values]; scale [k, t1, t2]; differ [t1, t2]; sym [x, mid, outs]; multi [vals, out]; hv [losses, ub, val]      *)
(* best [vals, got, exact]; cross [train, got, test, eval]; far [o, x, mono, multi, best, ub, isub]; same [a, b]; info [want, got] *)
EXTENDS Experiments
VARIABLES tid, l, bad, st
C == Traces[tid].cfg
Ev == Traces[tid].ev
PNames == <<"first", "second", "third">>
PDims == <<3, 2, 4>>
ObjClauses(nst, e) ==
  <<<<"copies_unless_ambiguous", e.op = "copy" => (e.err <=> Len(nst) = Len(st))>>,
    <<"same_number_of_instances", Len(e.obs) = Len(nst)>>,
    <<"descriptors", \A i \in DOMAIN nst : e.obs[i].added = nst[i].added /\ e.obs[i].text = nst[i].text>>,
    <<"parametrization", \A i \in DOMAIN nst : e.obs[i].name = PNames[nst[i].p + 1] /\ e.obs[i].dim = PDims[nst[i].p + 1]>>,
    <<"flags", \A i \in DOMAIN nst : Range(e.obs[i].flags) = nst[i].flags>>,
    <<"constraints", \A i \in DOMAIN nst : e.obs[i].nc = nst[i].nc>>,
    <<"upper_bounds", \A i \in DOMAIN nst : e.obs[i].ub = nst[i].ub>>,
    <<"frozen", \A i \in DOMAIN nst : e.obs[i].frozen>>,
    <<"distinct_parametrizations", e.distinct>>,
    <<"equivalence", \A i, j \in DOMAIN nst : e.eq[i][j] = SameCase(nst[i], nst[j])>>>>
U == 10000
Slack(x) == 4 * (1 + SumOf([i \in DOMAIN x |-> Abs(x[i])]))
QuadClauses(e) ==
  LET n == Len(e.one)
      useful == {i \in 1..n : Abs(e.one[i] - e.base) > 4 \/ Abs(e.two[i] - e.base) > 4}
      t == [i \in 1..n |-> IF i \in useful THEN e.base + U - e.one[i] ELSE 0]
      Predict(x) == e.base + SumOf([i \in 1..n |-> IF i \in useful THEN U * Sq(x[i]) - t[i] * x[i] ELSE 0]) IN
  <<<<"number_of_useful_variables", Cardinality(useful) = e.n>>,
    <<"translated_sphere", \A i \in useful : Abs(e.two[i] - (e.base + 4 * U - 2 * t[i])) <= 12>>,
    <<"translated_sphere_everywhere", \A k \in DOMAIN e.q : Abs(e.v[k] - Predict(e.q[k])) <= Slack(e.q[k])>>,
    <<"evaluation_is_the_function", \A k \in DOMAIN e.q : Abs(e.ev[k] - Predict(e.q[k])) <= Slack(e.q[k])>>,
    <<"value_at_the_optimum", Abs(4 * e.base - SumOf([i \in 1..n |-> Sq(t[i] \div 100)])) <= 4000 * (n + 1)>>>>
SymClauses(e) ==
  LET n == Len(e.xs[1]) IN
  <<<<"zero_is_the_function_itself", e.outs[1] = e.xs>>,
    <<"reflections_of_the_domain", \A s \in DOMAIN e.outs : \E m \in SUBSET (1..n) : \A k \in DOMAIN e.xs : e.outs[s][k] = Reflect(e.xs[k], e.mid, m)>>,
    <<"distinct_symmetries", \A s, r \in DOMAIN e.outs : s # r => e.outs[s] # e.outs[r]>>>>
Clauses(e) ==
  CASE e.k = "core" -> <<<<"core_function", e.whole /\ e.val = Core(e.fun, e.x)>>>>
    [] e.k = "quad" -> QuadClauses(e)
    [] e.k = "scale" -> <<<<"translation_factor", \A i \in DOMAIN e.t1 : Abs(e.f * e.t1[i] - e.t2[i]) <= 4 * (e.f + 1)>>, <<"some_translation", \E i \in DOMAIN e.t1 : Abs(e.t1[i]) > 40>>>>
    [] e.k = "differ" -> <<<<"instances_differ", e.t1 # e.t2>>>>
    [] e.k = "same" -> <<<<"same_function", e.a = e.b>>>>
    [] e.k = "sym" -> SymClauses(e)
    [] e.k = "multi" -> <<<<"losses_in_order", e.out = e.vals>>>>
    [] e.k = "hv" -> <<<<"evaluation_is_minus_the_hypervolume", LET v == Volume(e.losses, e.ub) IN IF v > 0 THEN e.whole /\ e.val = 0 - v ELSE e.val >= 0>>>>
    [] e.k = "best" -> <<<<"evaluation_is_the_best_one", IF e.exact THEN e.got = MinOf(e.vals) ELSE e.got \in Range(e.vals)>>>>
    [] e.k = "cross" -> <<<<"trained_on_the_others", e.got = e.train>>, <<"evaluated_on_the_left_out", e.eval = e.test>>>>
    [] e.k = "far" -> <<<<"distance_to_the_optimum", e.multi = [i \in 1..2 |-> Abs(e.x[i] - e.o[i])] /\ e.mono = e.multi[1] + e.multi[2]>>,
                        <<"evaluation_is_the_distance", e.best = e.mono>>, <<"upper_bounds", e.ub = IF e.ism THEN <<2 * e.o[1], 2 * e.o[2]>> ELSE <<>>>>>>
    [] e.k = "info" -> <<<<"description", e.got = e.want>>>>
    [] e.k = "error" -> <<<<"no_error", FALSE>>>>
TInit == /\ tid \in 1..Len(Traces) /\ l = 0 /\ bad = {}
         /\ st = IF Traces[tid].cfg.k = "obj" THEN <<Fresh>> ELSE IF Traces[tid].cfg.k = "fn" THEN <<UsefulSets(Traces[tid].cfg)>> ELSE <<>>
TNext ==
  \/ /\ l >= 0 /\ l < Len(Ev) /\ bad = {}
     /\ LET e == Ev[l + 1] IN
        CASE C.k = "obj" -> LET n == After(st, e) IN st' = n /\ bad' = Fails(ObjClauses(n, e))
          [] C.k = "fn" -> IF e.op = "error" THEN st' = st /\ bad' = {"no_error"}
                           ELSE LET n == Learn(C, st, e) IN st' = n /\ bad' = Fails(<<<<"one_function_of_the_useful_variables", \A i \in DOMAIN n : n[i] # {}>>>>)
          [] OTHER -> st' = st /\ bad' = Fails(Clauses(e))
     /\ l' = l + 1 /\ UNCHANGED tid
  \/ /\ l >= 0 /\ (l = Len(Ev) \/ bad # {})
     /\ Say([tid |-> tid, l |-> l, bad |-> bad])
     /\ l' = -1 /\ UNCHANGED <<tid, bad, st>>
=============================================================================

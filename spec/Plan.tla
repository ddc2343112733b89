-------------------------------- MODULE Plan --------------------------------
(* Benchmark plans: chunks of the experiments of a plan which are split,      *)
(* computed, interrupted (at any evaluation), checkpointed and resumed.       *)
(* cfg: [L (experiments of the plan), cap (0: none), reps, seed (0: none),    *)
(*  b (budget of each experiment), bad (evaluation which always fails, 0:     *)
(*  none)]. Experiments of all the repetitions are numbered from 0.           *)
EXTENDS TraceIO
Size(cfg) == IF cfg.cap > 0 /\ cfg.cap < cfg.L THEN cfg.cap ELSE cfg.L
Total(cfg) == Size(cfg) * cfg.reps
Place(cfg, k) == (k % Size(cfg)) + 1
(* number which identifies the experiment: the seed of its repetition and its place *)
Number(cfg, k) == (IF cfg.seed = 0 THEN 0 ELSE 100 * (cfg.seed + k \div Size(cfg))) + Place(cfg, k)
(* chunk: [mod, idx, done (finished experiments), v (evaluations of the current one), clean (no interruption)] *)
Whole == [mod |-> 1, idx |-> 0, done |-> 0, v |-> 0, clean |-> TRUE]
Count(cfg, ch) == Total(cfg) \div ch.mod + (IF ch.idx < Total(cfg) % ch.mod THEN 1 ELSE 0)
Own(cfg, ch) == [j \in 1..Count(cfg, ch) |-> ch.idx + (j - 1) * ch.mod]
Parts(ch, n) == [j \in 1..n |-> [Whole EXCEPT !.mod = ch.mod * n, !.idx = ch.idx + (j - 1) * ch.mod]]
Bad(cfg, k) == LET x == cfg.bad[Place(cfg, k)] IN x > 0 /\ x <= cfg.b[Place(cfg, k)]
Need(cfg, k) == IF Bad(cfg, k) THEN cfg.bad[Place(cfg, k)] ELSE cfg.b[Place(cfg, k)]
(* computation: s-th evaluation is interrupted (0: none), p-th finished experiment fails to be processed (0: none).
   Returns the chunk, the evaluations (experiment and whether it was completed) and the outcome *)
RECURSIVE Run(_, _, _, _, _)
Run(cfg, ch, s, p, log) ==
  IF ch.done = Count(cfg, ch) THEN [ch |-> ch, log |-> log, out |-> "done"]
  ELSE LET k == Own(cfg, ch)[ch.done + 1]
           need == Need(cfg, k) - ch.v
           Tries(n, ok) == [j \in 1..n |-> <<k, IF j < n THEN TRUE ELSE ok>>] IN
       IF s > 0 /\ s <= need THEN [ch |-> [ch EXCEPT !.v = @ + s - 1, !.clean = FALSE], log |-> log \o Tries(s, FALSE), out |-> "interrupted"]
       ELSE LET l2 == log \o Tries(need, ~Bad(cfg, k))  s2 == IF s > 0 THEN s - need ELSE 0 IN
            IF p = 1 THEN [ch |-> [ch EXCEPT !.v = IF Bad(cfg, k) THEN Need(cfg, k) - 1 ELSE Need(cfg, k), !.clean = FALSE], log |-> l2, out |-> "failed"]
            ELSE Run(cfg, [ch EXCEPT !.done = @ + 1, !.v = 0, !.clean = TRUE], s2, IF p > 0 THEN p - 1 ELSE 0, l2)
Start(cfg) == [ch |-> <<Whole>>]
After(cfg, st, e) ==
  CASE e.k = "split" -> [st EXCEPT !.ch = @ \o Parts(st.ch[e.c], e.n)]
    [] e.k = "compute" -> [st EXCEPT !.ch[e.c] = Run(cfg, st.ch[e.c], e.s, e.p, <<>>).ch]
    [] OTHER -> st
=============================================================================

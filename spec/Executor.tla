------------------------------ MODULE Executor ------------------------------
(* Executor with simulated time: a discrete event simulation.                 *)
(* cfg: [batch]. Jobs are numbered by order of submission: [t (time at        *)
(* submission), d (delay), f (number of evaluations which still fail), ev     *)
(* (evaluated), read].                                                        *)
EXTENDS TraceIO
Start == [time |-> 0, jobs |-> <<>>, calls |-> 0]
Pos(x) == IF x < 0 THEN 0 ELSE x
Release(j) == j.t + Pos(j.d)
(* the next result to be available, in steady mode *)
Unread(st) == {i \in DOMAIN st.jobs : ~st.jobs[i].read}
Before(st, i, k) == Release(st.jobs[i]) < Release(st.jobs[k]) \/ (Release(st.jobs[i]) = Release(st.jobs[k]) /\ i <= k)
First(st) == IF Unread(st) = {} THEN 0 ELSE CHOOSE i \in Unread(st) : \A k \in Unread(st) : Before(st, i, k)
(* evaluation of what was submitted, in order; it stops at the first failure *)
Waiting(st) == {i \in DOMAIN st.jobs : ~st.jobs[i].ev}
Failing(st) == LET S == {i \in Waiting(st) : st.jobs[i].f > 0} IN IF S = {} THEN 0 ELSE SetMin(S)
Evaluate(st) ==
  LET x == Failing(st) IN
  [st EXCEPT !.jobs = [i \in DOMAIN @ |-> IF x = 0 \/ i < x THEN [@[i] EXCEPT !.ev = TRUE] ELSE IF i = x THEN [@[i] EXCEPT !.f = @ - 1] ELSE @[i]]]
One(st, i) == IF st.jobs[i].ev THEN st ELSE IF st.jobs[i].f > 0 THEN [st EXCEPT !.jobs[i].f = @ - 1] ELSE [st EXCEPT !.jobs[i].ev = TRUE]
OneFails(st, i) == ~st.jobs[i].ev /\ st.jobs[i].f > 0
IsDone(cfg, st, i) == cfg.batch \/ st.jobs[i].read \/ First(st) = i
(* expected answer of an operation *)
Answer(cfg, st, e) ==
  CASE e.k = "submit" -> "ok"
    [] e.k = "done" -> IF Failing(st) > 0 THEN "fails" ELSE IF IsDone(cfg, st, e.i) THEN "yes" ELSE "no"
    [] e.k = "result" -> IF OneFails(st, e.i) \/ Failing(One(st, e.i)) > 0 THEN "fails" ELSE IF IsDone(cfg, st, e.i) THEN "ok" ELSE "refused"
After(cfg, st, e) ==
  CASE e.k = "submit" -> [st EXCEPT !.jobs = Append(@, [t |-> st.time, d |-> e.d, f |-> e.f, ev |-> FALSE, read |-> FALSE])]
    [] e.k = "done" -> Evaluate(st)
    [] e.k = "result" ->
         IF OneFails(st, e.i) THEN One(st, e.i)
         ELSE LET s1 == Evaluate(One(st, e.i)) IN
              IF Answer(cfg, st, e) # "ok" THEN s1
              ELSE [s1 EXCEPT !.jobs[e.i].read = TRUE, !.time = IF Release(st.jobs[e.i]) > @ THEN Release(st.jobs[e.i]) ELSE @]
=============================================================================

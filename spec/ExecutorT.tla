----------------------------- MODULE ExecutorT -----------------------------
(* submit [d, f], done [i, res, time, calls], result [i, res, v, time, calls] *)
(* calls: number of evaluations of each job so far; v: number of the job      *)
EXTENDS Executor
VARIABLES tid, l, bad, st
C == Traces[tid].cfg
Ev == Traces[tid].ev
Clauses(e, s) ==
  LET a == Answer(C, s, e)  n == After(C, s, e) IN
  <<<<IF e.k = "result" /\ s.jobs[e.i].read THEN "results_can_be_read_again" ELSE "the_answer_is_the_one_of_the_simulation", e.res = a>>,
    <<"simulated_time", e.time = n.time>>,
    <<"jobs_are_evaluated_once", \A i \in DOMAIN n.jobs : e.calls[i] = e.fails[i] - n.jobs[i].f + (IF n.jobs[i].ev THEN 1 ELSE 0)>>,
    <<"result_of_the_job", (e.k = "result" /\ e.res = "ok") => e.v = e.i>>>>
TInit == /\ tid \in 1..Len(Traces) /\ l = 0 /\ bad = {} /\ st = Start
TNext ==
  \/ /\ l >= 0 /\ l < Len(Ev) /\ bad = {}
     /\ bad' = Fails(Clauses(Ev[l + 1], st))
     /\ st' = IF bad' = {} THEN After(C, st, Ev[l + 1]) ELSE st
     /\ l' = l + 1 /\ UNCHANGED tid
  \/ /\ l >= 0 /\ (l = Len(Ev) \/ bad # {})
     /\ Say([tid |-> tid, l |-> l, bad |-> bad])
     /\ l' = -1 /\ UNCHANGED <<tid, bad, st>>
=============================================================================

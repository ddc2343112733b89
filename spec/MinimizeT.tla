------------------------------ MODULE MinimizeT ------------------------------
(* Traces of minimize() on the real code, against the contract of Minimize.  *)
(* events: call / ask(id) / askerr / submit(id, args) / submiterr(id) /       *)
(*   run(id) / done(id, loss) / tell(id, loss) / tellerr(id) / stop /        *)
(*   raise(expected) / return(recom, best)                                  *)
(* cfg: budget, workers, batch                                                *)
EXTENDS TraceIO
VARIABLES tid, l, st, bad
Cfg == Traces[tid].cfg
Ev == Traces[tid].ev
St0 == [phase |-> "out", asked |-> {}, pend |-> {}, sub |-> {}, done |-> <<>>, told |-> {}, lost |-> {},
        batch |-> FALSE, stopped |-> FALSE, nask |-> 0,
        timeout |-> FALSE, ntell |-> 0]
Out(s) == s.sub \ s.told

After(s, e) ==
  CASE e.k = "call" -> [s EXCEPT !.phase = "in", !.stopped = FALSE, !.timeout = e.timeout]
    [] e.k = "pre" -> [s EXCEPT !.nask = @ + e.nask, !.ntell = @ + e.ntell]
    [] e.k = "ask" -> [s EXCEPT !.asked = @ \cup {e.id}, !.pend = {e.id}, !.nask = @ + 1]
    [] e.k = "stop" -> [s EXCEPT !.stopped = TRUE]
    [] e.k = "submit" -> [s EXCEPT !.sub = @ \cup {e.id}, !.pend = @ \ {e.id},
                                   !.batch = IF Out(s) = {} THEN TRUE ELSE @]
    [] e.k = "submiterr" -> [s EXCEPT !.lost = @ \cup {e.id}, !.pend = @ \ {e.id}]
    [] e.k = "done" -> [s EXCEPT !.done = With(@, e.id, e.loss)]
    [] e.k = "tell" -> [s EXCEPT !.told = @ \cup {e.id}, !.ntell = @ + 1, !.batch = FALSE]
    [] e.k \in {"raise", "return"} -> [s EXCEPT !.phase = "out"]
    [] OTHER -> s

Clauses(s, e) ==
  CASE e.k = "call" -> << <<"not_reentrant", s.phase = "out">> >>
    [] e.k = "ask" -> <<
         <<"candidate_is_fresh", e.id \notin s.asked>>,
         <<"no_ask_after_early_stopping", ~s.stopped>>,
         <<"asked_within_budget", s.nask < Cfg.budget>>,
         <<"asked_candidate_was_submitted", s.pend = {}>> >>
    [] e.k = "submit" -> <<
         <<"submitted_candidate_was_just_asked", e.id \in s.pend>>,
         <<"submitted_once", e.id \notin s.sub>>,
         <<"submitted_with_own_arguments", e.ok>>,
         <<"at_most_num_workers_jobs", Cardinality(Out(s)) < Cfg.workers>>,
         <<"batch_is_complete_before_next", Cfg.batch => (Out(s) = {} \/ s.batch)>> >>
    [] e.k = "done" -> << <<"evaluated_once", e.id \in s.sub /\ e.id \notin DOMAIN s.done>> >>
    [] e.k = "tell" -> <<
         <<"told_after_completion", e.id \in DOMAIN s.done>>,
         <<"told_own_result", e.id \in DOMAIN s.done => s.done[e.id] = e.loss>>,
         <<"told_own_constraint_violation", e.cvok>>,
         <<"told_once", e.id \notin s.told>> >>
    [] e.k = "raise" -> << <<"only_injected_errors_are_raised", e.expected>> >>
    [] e.k = "return" -> <<
         <<"all_results_are_told", s.timeout \/ Out(s) = {}>>,
         <<"full_budget_is_used", s.timeout \/ s.stopped \/ s.nask >= Cfg.budget>>,
         <<"no_asked_candidate_is_forgotten", s.pend = {}>>,
         <<"counters", e.nask = s.nask /\ e.ntell = s.ntell>>,
         <<"recommends_the_best_result", ("best" \in DOMAIN e /\ s.told # {}) =>
              /\ e.best \in s.told /\ \A i \in s.told : s.done[e.best] <= s.done[i]>> >>
    [] OTHER -> <<>>

TInit == tid \in 1..Len(Traces) /\ l = 0 /\ st = St0 /\ bad = {}
TNext ==
  \/ /\ l >= 0 /\ l < Len(Ev) /\ bad = {}
     /\ LET e == Ev[l + 1]  b == Fails(Clauses(st, e)) IN
          /\ bad' = b
          /\ st' = IF b = {} THEN After(st, e) ELSE st
     /\ l' = l + 1 /\ UNCHANGED tid
  \/ /\ l >= 0 /\ (l = Len(Ev) \/ bad # {})
     /\ Say([tid |-> tid, l |-> l, bad |-> bad])
     /\ l' = -1 /\ UNCHANGED <<tid, st, bad>>
=============================================================================

---------------------------- MODULE ConstraintsT ----------------------------
EXTENDS Constraints
VARIABLES tid, l, st, bad
Cfg == Traces[tid].cfg
Ev == Traces[tid].ev
Aft(s, e) == After(s, e, Cfg.budget, Cfg.tabu)

AskClauses(s, e) == <<
  <<"ask_failed", e.err = "">>,
  <<"one_ask", e.nask = s.nask + 1>>,
  <<"satisfied_or_warned", e.err # "" \/ e.sat \/ e.warn \/ s.warned>>,
  <<"easy_constraints_are_satisfied", Cfg.hard \/ e.err # "" \/ e.sat>>,
  <<"not_in_the_tabu_list", (Cfg.tabu > 0 /\ Has(e, "key") /\ e.err = "") => TabuOk(s.wins[1], e.key)>> >>
(* the penalty of a violation is proportional to the (positive) loss in the first half of the budget, the
   penalty of a cheap constraint is its amplitude *)
Strict(e) == IF ~e.sat /\ Cfg.budget THEN ~Cfg.nested ELSE e.loss > 0
(* rec: number of recorded evaluations, best: loss of the best record, inner: loss which the algorithm is told (0 or 1 or more times) *)
TellClauses(s, e) ==
  LET n == Aft(s, e)  p == Penalized(Cfg.budget, e) IN <<
  <<"tell_failed", e.err = "">>,
  <<"one_tell", e.ntell = s.ntell + 1>>,
  <<"penalized_is_not_recorded", p => e.nrec = s.nrec>>,
  <<"feasible_is_recorded", ~p => e.nrec = s.nrec + 1>>,
  <<"best_is_feasible", e.best = n.best>>,
  <<"penalized_loss_is_not_lower", p => \A i \in DOMAIN e.inner : e.inner[i] >= 1000 * e.loss>>,
  <<"penalized_loss_is_higher", (p /\ Strict(e)) => \A i \in DOMAIN e.inner : e.inner[i] > 1000 * e.loss>>,
  <<"feasible_loss_is_unchanged", ~p => \A i \in DOMAIN e.inner : e.inner[i] = 1000 * e.loss>> >>
TryClauses(s, e) == << <<"tabu_window", e.res = TabuOk(s.wins[e.ref], e.key)>> >>
(* two tells from the same state, which only differ by the violation *)
CmpClauses(e) == << <<"penalty_grows_with_the_violation", e.viol1 < e.viol2 => e.inner1 < e.inner2>> >>
RecClauses(s, e) == << <<"recommendation_is_feasible", (s.nrec > 0 /\ Cfg.budget) => e.sat>> >>
Bad(s, e) == Fails(CASE e.k = "ask" -> AskClauses(s, e)
                     [] e.k = "tell" -> TellClauses(s, e)
                     [] e.k = "try" -> TryClauses(s, e)
                     [] e.k = "copy" -> <<>>
                     [] e.k = "cmp" -> CmpClauses(e)
                     [] e.k = "recom" -> RecClauses(s, e)
                     [] OTHER -> << <<"unknown_event", FALSE>> >>)
TInit == tid \in 1..Len(Traces) /\ l = 0 /\ st = StInit /\ bad = {}
TNext ==
  \/ /\ l >= 0 /\ l < Len(Ev) /\ bad = {}
     /\ LET e == Ev[l + 1]  b == Bad(st, e) IN
          /\ bad' = b
          /\ st' = IF b = {} THEN Aft(st, e) ELSE st
     /\ l' = l + 1 /\ UNCHANGED tid
  \/ /\ l >= 0 /\ (l = Len(Ev) \/ bad # {})
     /\ Say([tid |-> tid, l |-> l, bad |-> bad])
     /\ l' = -1 /\ UNCHANGED <<tid, st, bad>>
=============================================================================

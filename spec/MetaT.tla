-------------------------------- MODULE MetaT --------------------------------
EXTENDS Meta
VARIABLES tid, l, bad, st
C == Traces[tid].cfg
Ev == Traces[tid].ev
GotSet(e) == {[m |-> e.got[j].m, c |-> e.got[j].c, d |-> e.got[j].d] : j \in DOMAIN e.got}
InitClauses(e) ==
  <<<<"chain_budgets", C.kind = "chain" => (\A i \in 1..(C.n - 1) : e.mb[i] = ChainBudget(C, i)) /\ (C.B = 0 \/ e.mb[C.n] = Max2(4, C.B - Cum(C, C.n - 1)))>>,
    <<"enough_workers", C.kind = "portfolio" => Sum(e.mw) >= C.W /\ \A i \in 1..C.n : C.seq[i] => e.mw[i] = 1>>,
    <<"members_have_all_the_workers", C.kind # "portfolio" => \A i \in 1..C.n : e.mw[i] = C.W>>,
    <<"enough_budget", C.kind = "portfolio" /\ C.B > 0 => Sum(e.mb) >= (IF C.warm < 0 THEN C.B ELSE (C.warm * C.B) \div 10)>>,
    <<"members_have_the_budget", C.kind \notin {"portfolio", "chain"} => \A i \in 1..C.n : e.mb[i] = C.B>>>>
(* the metamodel provides a point by itself when it has enough points, not too often *)
Model(e, s) == /\ C.kind = "metamodel" /\ e.m = <<>>
               /\ LET d == C.dims[1] IN s.nt >= (d * (d - 1)) \div 2 + 2 * d + 1
               /\ s.last = 0 \/ s.na - s.last >= 12
AskClauses(e, s) ==
  IF e.err # "" THEN << <<"ask_answers", FALSE>> >>
  ELSE IF s.sug > 0 THEN << <<"suggestion_first", e.sug /\ e.m = <<>> >> >>
  ELSE <<<<"the_expected_member_is_asked", Model(e, s) \/ e.m = Asked(C, s)>>,
         <<"the_answer_is_the_one_of_the_member", Model(e, s) \/ (e.m # <<>> /\ e.out = Answer(C, e))>>,
         <<"the_member_has_a_free_worker", C.kind = "portfolio" /\ e.m # <<>> /\ Sel(C, s) = 0 /\ (\E m \in 1..C.n : Free(C, s, m)) => Free(C, s, e.m[1])>>>>
TellClauses(e, s) ==
  <<<<"refused_only_if_no_member_accepts", (e.err = "refused") = AllRefuse(C, s, e.c)>>,
    <<"tell_answers", e.err \in {"", "refused"}>>,
    <<"the_concerned_members_are_told_once", {e.got[j].m : j \in DOMAIN e.got} = Concerned(C, s, e.c) /\ Len(e.got) = Cardinality(Concerned(C, s, e.c))>>,
    <<"members_are_told_their_point", GotSet(e) = Expected(C, s, e.c, e.d)>>,
    <<"members_are_told_the_loss", \A j \in DOMAIN e.got : e.got[j].x = e.x>>>>
Clauses(e, s) == CASE e.k = "init" -> InitClauses(e) [] e.k = "ask" -> AskClauses(e, s) [] e.k = "tell" -> TellClauses(e, s) [] e.k = "sug" -> <<>>
TInit == /\ tid \in 1..Len(Traces) /\ l = 0 /\ bad = {} /\ st = Start(Traces[tid].cfg)
TNext ==
  \/ /\ l >= 0 /\ l < Len(Ev) /\ bad = {}
     /\ bad' = Fails(Clauses(Ev[l + 1], st))
     /\ st' = IF bad' = {} THEN After(C, st, Ev[l + 1]) ELSE st
     /\ l' = l + 1 /\ UNCHANGED tid
  \/ /\ l >= 0 /\ (l = Len(Ev) \/ bad # {})
     /\ Say([tid |-> tid, l |-> l, bad |-> bad])
     /\ l' = -1 /\ UNCHANGED <<tid, bad, st>>
=============================================================================

---------------------------- MODULE PopulationT ----------------------------
EXTENDS Population
VARIABLES tid, l, bad, st
Cfg == Traces[tid].cfg
Ev == Traces[tid].ev
Clauses(e, s) == IF e.k \in {"ask", "sug"} THEN <<
    <<"parent_is_the_next_member_of_the_population", e.par = s.cand[N(s)].par>>,
    <<"generation", e.par > 0 => e.gen = 1>>,
    <<"no_error", e.err = "">> >>
  ELSE << <<"no_error", e.err = "">> >>
TInit == /\ tid \in 1..Len(Traces) /\ l = 0 /\ bad = {} /\ st = Start(Cfg.alg, Cfg.lam, Cfg.off)
TNext ==
  \/ /\ l >= 0 /\ l < Len(Ev) /\ bad = {}
     /\ LET s == After(st, Ev[l + 1]) IN st' = s /\ bad' = Fails(Clauses(Ev[l + 1], s))
     /\ l' = l + 1 /\ UNCHANGED tid
  \/ /\ l >= 0 /\ (l = Len(Ev) \/ bad # {})
     /\ Say([tid |-> tid, l |-> l, bad |-> bad])
     /\ l' = -1 /\ UNCHANGED <<tid, bad, st>>
=============================================================================

------------------------------ MODULE ReplayT ------------------------------
EXTENDS Replay
VARIABLES tid, l, bad, st
Cfg == Traces[tid].cfg
Ev == Traces[tid].ev
Clauses(e, s) == << <<"same_answer_for_the_same_history", e.k = "in" => e.out = Expected(s, e.r, e.i, e.out)>>,
                    <<"no_error", e.err = "">> >>
TInit == /\ tid \in 1..Len(Traces) /\ l = 0 /\ bad = {} /\ st = Start(Cfg.replicas)
TNext ==
  \/ /\ l >= 0 /\ l < Len(Ev) /\ bad = {}
     /\ bad' = Fails(Clauses(Ev[l + 1], st))
     /\ st' = After(st, Ev[l + 1])
     /\ l' = l + 1 /\ UNCHANGED tid
  \/ /\ l >= 0 /\ (l = Len(Ev) \/ bad # {})
     /\ Say([tid |-> tid, l |-> l, bad |-> bad])
     /\ l' = -1 /\ UNCHANGED <<tid, bad, st>>
=============================================================================

----------------------------- MODULE RankingT -----------------------------
(* every event is one ranking: e.pop (loss vectors), e.k, e.sel: [i, rank, front, crowd] *)
EXTENDS Ranking
VARIABLES tid, l, bad
Ev == Traces[tid].ev
Sel(e) == [i \in {e.sel[x].i : x \in DOMAIN e.sel} |-> e.sel[CHOOSE x \in DOMAIN e.sel : e.sel[x].i = i]]
Bad(e) == Fails(Clauses(e.pop, e.k, Sel(e)))
TInit == tid \in 1..Len(Traces) /\ l = 0 /\ bad = {}
TNext ==
  \/ /\ l >= 0 /\ l < Len(Ev) /\ bad = {} /\ bad' = Bad(Ev[l + 1]) /\ l' = l + 1 /\ UNCHANGED tid
  \/ /\ l >= 0 /\ (l = Len(Ev) \/ bad # {}) /\ Say([tid |-> tid, l |-> l, bad |-> bad]) /\ l' = -1 /\ UNCHANGED <<tid, bad>>
=============================================================================

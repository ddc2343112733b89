---------------------------- MODULE ConstraintsMC ----------------------------
EXTENDS Constraints
CONSTANTS MaxLen, MODE, TABU, KEYS, REFS, BUDGET, EMIT
VARIABLES st, hist, done
vars == <<st, hist, done>>
Init == st = StInit /\ hist = <<>> /\ done = FALSE
Do(e) == /\ st' = After(st, e, BUDGET, TABU) /\ hist' = Append(hist, e) /\ UNCHANGED done
Tells == {[k |-> "tell", sat |-> s, viol |-> v, loss |-> x] : s \in BOOLEAN, v \in {-1, 0, 2}, x \in {0, 1}}
Next == \/ /\ Len(hist) < MaxLen
           /\ IF MODE = "tabu" THEN Do([k |-> "copy"]) \/ \E key \in 1..KEYS, ref \in 1..REFS : Do([k |-> "try", key |-> key, ref |-> ref])
              ELSE Do([k |-> "ask"]) \/ \E e \in Tells : Do(e)
        \/ Len(hist) = MaxLen /\ ~done /\ (EMIT => Say(hist)) /\ done' = TRUE /\ UNCHANGED <<st, hist>>
Spec == Init /\ [][Next]_vars
(* only satisfying points are recorded, hence recommended *)
InvRecords == st.sat /\ st.nrec <= st.ntell
InvBest == LET T == {i \in DOMAIN hist : hist[i].k = "tell" /\ ~Penalized(BUDGET, hist[i])} IN
  /\ st.nrec = Cardinality(T)
  /\ st.best = (IF T = {} THEN BIG ELSE SetMin({hist[i].loss : i \in T}))
(* the window has no duplicate and its bounded length; a key which is in it was accepted at most TABU acceptances ago *)
InvWindow == \A r \in 1..2 : Len(st.wins[r]) <= TABU /\ Cardinality(Range(st.wins[r])) = Len(st.wins[r])
=============================================================================

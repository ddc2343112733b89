----------------------------- MODULE AskTellMC -----------------------------
(* Bounded exhaustive exploration of the protocol; with EMIT the complete  *)
(* histories are printed so as to be executed on the real optimizers.      *)
EXTENDS AskTell
CONSTANTS MaxLen, Values, Refused, Losses, EMIT, NOASKFAIL

VARIABLES st, hist, done
vars == <<st, hist, done>>

Init == st = StInit /\ hist = <<>> /\ done = FALSE

NewId == Cardinality(st.seen) + 1
Value(id) == IF id \in DOMAIN st.told THEN st.told[id] ELSE 0

Next1(s) == Usable(s)[Len(Usable(s))]
Ask == \E v \in (IF Usable(st.sugg) # <<>> THEN {Next1(st.sugg)} ELSE {0}) :
         LET e == [k |-> "ask", id |-> NewId, val |-> v, err |-> ""]
         IN /\ st' = [After(st, e) EXCEPT !.told = With(@, e.id, v)]
            /\ hist' = Append(hist, [k |-> "ask", id |-> e.id, val |-> v, loss |-> 0])
Suggest == \E v \in Values :
         /\ Len(st.sugg) < 3
         /\ st' = After(st, IF v \in Refused THEN [k |-> "suggest", val |-> v, refused |-> TRUE] ELSE [k |-> "suggest", val |-> v])
         /\ hist' = Append(hist, [k |-> "suggest", id |-> 0, val |-> v, loss |-> 0])
(* point of an asked (not suggested) candidate: one per candidate *)
Pt(id) == IF Value(id) = 0 THEN 100 + id ELSE Value(id)
Tell == \E id \in st.seen, x \in Losses :
         LET e == [k |-> "tell", id |-> id, pt |-> Pt(id), loss |-> x, err |-> "", rec |-> TRUE]
         IN /\ st' = After(st, e)
            /\ hist' = Append(hist, [k |-> "tell", id |-> id, val |-> 0, loss |-> x])
TellOther == \E v \in Values, x \in Losses :
         LET e == [k |-> "tell", id |-> NewId, pt |-> v, loss |-> x, err |-> "", rec |-> TRUE]
         IN /\ st' = [After(st, e) EXCEPT !.told = With(@, e.id, v)]
            /\ hist' = Append(hist, [k |-> "other", id |-> e.id, val |-> v, loss |-> x])

Finish == /\ Len(hist) = MaxLen /\ ~done
          /\ (EMIT => Say(hist))
          /\ done' = TRUE /\ UNCHANGED <<st, hist>>
Next == \/ /\ Len(hist) < MaxLen /\ UNCHANGED done
           /\ (Ask \/ Suggest \/ Tell \/ TellOther)
        \/ Finish

Spec == Init /\ [][Next]_vars

InvAccounting == Accounting(st)
InvRecords == RecordsConsistent(st)
InvMin == \A p \in DOMAIN st.arch : st.arch[p].n > 0
(* counters never decrease, a told candidate never becomes outstanding again *)
Monotone == [][/\ st'.nask >= st.nask /\ st'.ntell >= st.ntell /\ st'.nna >= st.nna
               /\ \A id \in st.seen \ st.asked : id \notin st'.asked]_vars
=============================================================================

--------------------------- MODULE PopulationMC ---------------------------
EXTENDS Population
CONSTANTS Alg, Lam, Off, MaxLen, MaxLoss, Retell, EMIT
VARIABLES st, hist
vars == <<st, hist>>
Losses == 0..MaxLoss
Init == st = Start(Alg, Lam, Off) /\ hist = <<>>
Events ==
  {[k |-> "ask"]} \cup (IF Cardinality({i \in DOMAIN hist : hist[i].k = "sug"}) < 1 THEN {[k |-> "sug"]} ELSE {}) \cup
  {[k |-> "tell", c |-> c, x |-> x] : c \in {c \in DOMAIN st.cand : Retell \/ st.cand[c].loss = INF}, x \in Losses} \cup
  (IF Cardinality({i \in DOMAIN hist : hist[i].k = "tna"}) < 2 THEN {[k |-> "tna", x |-> x] : x \in Losses} ELSE {})
Next == Len(hist) < MaxLen /\ \E e \in Events : /\ st' = After(st, e) /\ hist' = Append(hist, e)
                                                /\ (EMIT /\ Len(hist') = MaxLen => Say(hist'))
Spec == Init /\ [][Next]_vars
Keys == {st.pop[i].key : i \in DOMAIN st.pop}
Best(s) == IF s.pop = <<>> THEN INF ELSE SetMin({Loss(s, s.pop[i].c) : i \in DOMAIN s.pop})
Distinct(s) == \A i, j \in DOMAIN s : i # j => s[i] # s[j]
InvSize == Len(st.pop) <= st.lam \/ IsES(st)
(* each slot is queued exactly once, and nothing else is *)
InvQueue == /\ Distinct(st.told) /\ Distinct(st.asked) /\ Range(st.told) \cap Range(st.asked) = {}
            /\ (st.alg \in {"de", "pso", "es"} => Range(st.told) \cup Range(st.asked) = Keys)
            /\ Range(st.told) \cup Range(st.asked) \subseteq Keys
InvParents == \A c \in DOMAIN st.cand : st.cand[c].par < c
(* a member is only replaced by a candidate which is not worse, and the best is never lost *)
ActSlots == [][st.alg \in {"de", "es"} => \A i \in DOMAIN st.pop : LET k == st.pop[i].key IN
                 InPop(st', k) /\ Member(st', k) # st.pop[i].c => Loss(st', Member(st', k)) <= Loss(st', st.pop[i].c)]_vars
ActBest == [][st.alg \in {"de", "es", "es+"} /\ ~Retell => Best(st') <= Best(st)]_vars
(* candidates in the population have been told, apart from the first ones *)
InvTold == \A i \in DOMAIN st.pop : Loss(st, st.pop[i].c) < INF \/ st.cand[st.pop[i].c].par = 0
=============================================================================

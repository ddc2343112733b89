---------------------------- MODULE CallbacksMC ----------------------------
EXTENDS Callbacks
CONSTANTS W1, D1, I1, S1, MaxLen, Losses, Ticks, MaxOut, MaxReg, EMIT
VARIABLES st, hist, since, printed
(* constants cannot be negative: these are shifted by one *)
Window0 == W1 - 1
Duration == D1 - 1
Interval == I1 - 1
Seconds == S1 - 1
vars == <<st, hist, since, printed>>
Cfg == [window |-> Window0, duration |-> Duration, interval |-> Interval, seconds |-> Seconds]
Init == st = After(Cfg, Start, [k |-> "start"]) /\ hist = <<>> /\ since = 0 /\ printed = None
Do(e) == /\ st' = After(Cfg, st, e) /\ hist' = Append(hist, e)
         (* asks since the last improvement of the best loss which an ask could see *)
         /\ since' = IF e.k # "ask" \/ st.best = None THEN since ELSE IF st.ref = None \/ st.best < st.ref THEN 0 ELSE since + 1
         /\ printed' = IF e.k = "tell" /\ Prints(Cfg, st) THEN st.nt ELSE printed
Next == /\ Len(hist) < MaxLen /\ ~st.over
        /\ \/ /\ Cardinality(st.out) < MaxOut /\ Do([k |-> "ask"])
           \/ \E c \in st.out \cup {0}, x \in Losses : Do([k |-> "tell", c |-> c, loss |-> x])
           \/ \E d \in Ticks : Do([k |-> "clock", d |-> d])
           \/ /\ Len(st.asks) + Len(st.tells) < MaxReg
              /\ \E o \in {"ask", "tell"} : Do([k |-> "register", on |-> o, id |-> Len(st.asks) + Len(st.tells) + 1])
           \/ /\ MaxReg > 0 /\ Len(st.asks) + Len(st.tells) > 0 /\ Do([k |-> "remove"])
        /\ (EMIT /\ (Len(hist') = MaxLen \/ st'.over) => Say(hist'))
Spec == Init /\ [][Next]_vars
(* a run is stopped only if nothing improved during the window, and it is always stopped then *)
InvWindow == (Window0 # None /\ Duration = None) => (st.over <=> since > Window0) /\ (st.over \/ since <= Window0)
InvTimer == (Duration # None /\ Window0 = None) => (st.over => st.clock > st.begin + Duration)
(* the best loss of the reference never increases *)
InvRef == st.ref # None => st.ref >= st.best
(* something is printed at least every interval of tells *)
InvPrint == Interval # None => (st.nt > 0 => printed # None /\ st.nt - printed <= Interval)
InvCount == st.nt = st.bar /\ st.na = st.made
=============================================================================

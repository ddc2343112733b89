------------------------------- MODULE MetaMC -------------------------------
EXTENDS Meta
CONSTANTS Kind, Variant, MaxLen, EMIT
VARIABLES st, hist, got, nxt
vars == <<st, hist, got, nxt>>
Value(x) == [name |-> "", value |-> x]
Base == [kind |-> Kind, n |-> 2, W |-> 2, B |-> 6, spec |-> <<Value(2)>>, nocross |-> FALSE, warm |-> -1, mb |-> <<6, 6>>, mw |-> <<1, 1>>,
         oneshot |-> <<FALSE, FALSE>>, refuse |-> <<FALSE, FALSE>>, seq |-> <<FALSE, FALSE>>, dims |-> <<1, 1>>, num |-> 1, den |-> 1, prog |-> FALSE, equal |-> FALSE]
Three == [Base EXCEPT !.n = 3, !.mb = <<6, 6, 6>>, !.mw = <<1, 1, 1>>, !.dims = <<1, 1, 1>>, !.oneshot = <<FALSE, FALSE, FALSE>>,
         !.refuse = <<FALSE, FALSE, FALSE>>, !.seq = <<FALSE, FALSE, FALSE>>]
Cfg == CASE Kind = "chain" -> (CASE Variant = 1 -> Base
                              [] Variant = 2 -> [Base EXCEPT !.nocross = TRUE, !.B = 5]
                              [] Variant = 3 -> [Three EXCEPT !.spec = <<Value(1), [name |-> "third", value |-> 0]>>]
                              [] Variant = 4 -> [Base EXCEPT !.refuse = <<TRUE, TRUE>>])
         [] Kind = "portfolio" -> (CASE Variant = 1 -> [Base EXCEPT !.oneshot = <<TRUE, FALSE>>, !.mb = <<2, 2>>, !.B = 3]
                              [] Variant = 2 -> [Base EXCEPT !.warm = 3, !.W = 1]
                              [] Variant = 3 -> [Three EXCEPT !.W = 3, !.refuse = <<TRUE, FALSE, TRUE>>]
                              [] Variant = 4 -> [Base EXCEPT !.warm = 1, !.W = 4, !.mw = <<2, 2>>]
                              [] Variant = 5 -> [Three EXCEPT !.refuse = <<TRUE, TRUE, TRUE>>])
         [] Kind = "split" -> IF Variant = 1 THEN Base ELSE [Base EXCEPT !.prog = TRUE]
         [] OTHER -> [Base EXCEPT !.n = 1, !.mb = <<6>>, !.mw = <<2>>, !.oneshot = <<FALSE>>, !.refuse = <<FALSE>>, !.seq = <<FALSE>>, !.dims = <<2>>, !.num = IF Kind = "rescaled" THEN 2 ELSE 1]
Data(k) == [j \in 1..Sum(Cfg.dims) |-> k]
Init == st = Start(Cfg) /\ hist = <<>> /\ got = <<>> /\ nxt = 1
DoAsk == LET A == IF st.sug > 0 THEN <<>> ELSE Asked(Cfg, st)
             e == [k |-> "ask", sug |-> st.sug > 0, m |-> A, mc |-> [j \in DOMAIN A |-> nxt + j - 1], md |-> [j \in DOMAIN A |-> [x \in 1..Cfg.dims[A[j]] |-> nxt]], out |-> Data(nxt)] IN
  /\ st' = After(Cfg, st, e) /\ nxt' = nxt + Len(A) /\ hist' = Append(hist, [k |-> "ask"]) /\ got' = got
DoTell(c, x) ==
  LET e == [k |-> "tell", c |-> c, d |-> IF c = 0 THEN Data(99) ELSE st.c[c].out, x |-> x] IN
  /\ st' = After(Cfg, st, e)
  /\ got' = IF AllRefuse(Cfg, st, c) THEN got ELSE got \o SetToSeq({<<g.m, c>> : g \in Expected(Cfg, st, c, e.d)})
  /\ hist' = Append(hist, [k |-> "tell", c |-> c, x |-> x]) /\ nxt' = nxt
DoSug == /\ st.sug < 1 /\ st' = After(Cfg, st, [k |-> "sug"]) /\ hist' = Append(hist, [k |-> "sug"]) /\ UNCHANGED <<got, nxt>>
Next == /\ Len(hist) < MaxLen
        /\ \/ DoAsk \/ DoSug
           \/ \E c \in 0..Len(st.c), good \in BOOLEAN :
                (IF Cfg.warm >= 0 /\ c > 0 THEN ~st.c[c].told ELSE TRUE) /\ (IF good THEN Cfg.warm >= 0 ELSE TRUE) /\ DoTell(c, IF good THEN 100 - Len(hist) ELSE 200 + Len(hist))
        /\ (EMIT /\ Len(hist') = MaxLen => Say([cfg |-> Cfg, hist |-> hist']))
Spec == Init /\ [][Next]_vars
Times(m, c) == Cardinality({i \in DOMAIN got : got[i] = <<m, c>>})
(* a provider is told its point, unless it was thrown away by a selection *)
InvProviderTold == \A c \in DOMAIN st.c : st.c[c].told => \A m \in Prov(st, c) : (Times(m, c) >= 1 \/ (st.sel > 0 /\ st.sel # m))
InvNotPendingTold == st.sel > 0 \/ \A c \in DOMAIN st.c : st.c[c].told => \A j \in DOMAIN st.c[c].m : st.c[c].mc[j] \notin st.pend[st.c[c].m[j]]
(* the member which is kept provided the best point *)
InvSelected == st.sel > 0 => Kind = "portfolio" /\ Cfg.warm >= 0 /\ st.ma[st.sel] > 0
(* a chain asks its members in order, each for its budget *)
InvChain == Kind = "chain" => /\ \A c \in DOMAIN st.c : \A j \in DOMAIN st.c[c].m : \A d \in 1..c : \A i \in DOMAIN st.c[d].m : st.c[d].m[i] <= st.c[c].m[j]
                              /\ \A i \in 1..(Cfg.n - 1) : st.ma[i] <= ChainBudget(Cfg, i)
(* workers: a member gets more points than its workers only if no member is free *)
InvWorkers == (Kind = "portfolio" /\ st.sel = 0 /\ \E m \in 1..Cfg.n : Cardinality(st.pend[m]) > Cfg.mw[m]) => Sum([m \in 1..Cfg.n |-> Cardinality(st.pend[m])]) > Cfg.W - Cfg.n
InvTold == \A m \in 1..Cfg.n : st.mt[m] <= st.nt
=============================================================================

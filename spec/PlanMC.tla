------------------------------- MODULE PlanMC -------------------------------
EXTENDS Plan
CONSTANTS Variant, MaxLen, EMIT
VARIABLES st, hist, log
vars == <<st, hist, log>>
Cfg == CASE Variant = 1 -> [L |-> 3, cap |-> 0, reps |-> 1, seed |-> 12, b |-> <<2, 1, 3>>, bad |-> <<0, 0, 0>>]
         [] Variant = 2 -> [L |-> 3, cap |-> 2, reps |-> 2, seed |-> 0, b |-> <<2, 2, 9>>, bad |-> <<0, 2, 0>>]
         [] Variant = 3 -> [L |-> 1, cap |-> 0, reps |-> 3, seed |-> 5, b |-> <<2>>, bad |-> <<0>>]
Init == st = Start(Cfg) /\ hist = <<>> /\ log = <<<<>>>>
Do(e) == st' = After(Cfg, st, e) /\ hist' = Append(hist, e)
Next == /\ Len(hist) < MaxLen
        /\ \E c \in DOMAIN st.ch :
             \/ \E n \in 1..3 : Len(st.ch) <= 3 /\ Do([k |-> "split", c |-> c, n |-> n]) /\ log' = log \o [j \in 1..n |-> <<>>]
             \/ \E s \in 0..3, p \in 0..1 : (s = 0 \/ p = 0) /\ Do([k |-> "compute", c |-> c, s |-> s, p |-> p])
                                             /\ log' = [log EXCEPT ![c] = @ \o Run(Cfg, st.ch[c], s, p, <<>>).log]
             \/ Do([k |-> "pickle", c |-> c]) /\ UNCHANGED log
        /\ (EMIT /\ Len(hist') = MaxLen => Say([cfg |-> Cfg, hist |-> hist']))
Spec == Init /\ [][Next]_vars
(* the parts of a split are a partition of the whole *)
Ks(c) == Range(Own(Cfg, st.ch[c]))
Family(i) == LET n == hist[i].n  first == 2 + (LET S == {j \in 1..(i - 1) : hist[j].k = "split"} IN (LET RECURSIVE T(_)  T(X) == IF X = {} THEN 0 ELSE LET j == CHOOSE j \in X : TRUE IN hist[j].n + T(X \ {j}) IN T(S))) IN first..(first + n - 1)
InvPartition == \A i \in DOMAIN hist : hist[i].k = "split" =>
  /\ UNION {Ks(c) : c \in Family(i)} = Ks(hist[i].c)
  /\ \A c, d \in Family(i) : c # d => Ks(c) \cap Ks(d) = {}
InvAll == Ks(1) = 0..(Total(Cfg) - 1)
(* each finished experiment was evaluated exactly for its budget, whatever the interruptions *)
Done(c, k) == Cardinality({j \in DOMAIN log[c] : log[c][j] = <<k, TRUE>>})
InvBudget == \A c \in DOMAIN st.ch : \A j \in 1..st.ch[c].done : LET k == Own(Cfg, st.ch[c])[j] IN ~Bad(Cfg, k) => Done(c, k) = Need(Cfg, k)
InvOrder == \A c \in DOMAIN log : \A i, j \in DOMAIN log[c] : i < j => log[c][i][1] <= log[c][j][1]
InvMine == \A c \in DOMAIN log : \A i \in DOMAIN log[c] : log[c][i][1] \in Ks(c)
=============================================================================

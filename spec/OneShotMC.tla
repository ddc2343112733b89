---------------------------- MODULE OneShotMC ----------------------------
(* (a) Halton sequences: every window of consecutive indices is stratified,   *)
(* whatever the permutations (B2 = 1: a single coordinate);                   *)
(* (b) searches: order of the points within the budget.                       *)
EXTENDS OneShot
CONSTANTS B1, B2, K1, K2, MaxN, Budgets, MaxOps, EMIT
VARIABLES p1, p2, n, s1, s2
vars == <<p1, p2, n, s1, s2>>
Perms(b) == {f \in [0..b - 1 -> 0..b - 1] : f[0] = 0 /\ \A i, j \in 0..b - 1 : f[i] = f[j] => i = j}
(* stratum of the index m among b^k *)
Stratum(m, b, k, perm) == LET L == NDigits(m, b) IN
  IF L >= k THEN Radical(m, b, perm) \div Pow(b, L - k) ELSE Radical(m, b, perm) * Pow(b, k - L)
Init == p1 \in Perms(B1) /\ p2 \in Perms(B2) /\ n = 0 /\ s1 = <<>> /\ s2 = <<>>
Next == /\ n < MaxN /\ n' = n + 1 /\ UNCHANGED <<p1, p2>>
        /\ s1' = Append(s1, Stratum(n', B1, K1, p1))
        /\ s2' = Append(s2, IF B2 = 1 THEN 0 ELSE Stratum(n', B2, K2, p2))
Spec == Init /\ [][Next]_vars
(* any complete window has exactly one point in each elementary box; larger strata follow *)
W == Pow(B1, K1) * (IF B2 = 1 THEN 1 ELSE Pow(B2, K2))
InvStrata ==
  n >= W => \A a \in 0..Pow(B1, K1) - 1, c \in 0..(IF B2 = 1 THEN 0 ELSE Pow(B2, K2) - 1) :
    Cardinality({i \in n - W + 1..n : s1[i] = a /\ s2[i] = c}) = 1
(* the permutation can be read back from the points *)
InvShown == \A i \in 1..n : LET R == Shown(i, Radical(i, B1, p1), B1) IN \A x \in R : p1[x[1]] = x[2]
(* (b) *)
OInit == p1 \in [kind : {"Halton", "Hammersley", "LHS", "Random"}, n : Budgets, middle : BOOLEAN, opposition : {"none", "opposite", "quasi", "special"}]
         /\ (p1.n = 0 => p1.kind = "Halton")
         /\ p2 = Start /\ n = 0 /\ s1 = <<>> /\ s2 = <<>>
ONext == /\ n < MaxOps /\ n' = n + 1 /\ UNCHANGED <<p1, s2>>
         /\ s1' = Append(s1, Kind(p1, p2)) /\ p2' = After(p1, p2, Kind(p1, p2))
         /\ (EMIT /\ n' = MaxOps => Say([cfg |-> p1, kinds |-> s1']))
OSpec == OInit /\ [][ONext]_vars
Count(k) == Cardinality({i \in DOMAIN s1 : s1[i] = k})
(* the budget is enough for all the asks, and nothing is wasted *)
InvBudget == (p1.n > 0 /\ n <= p1.n) => Count("over") = 0
InvShare == /\ p1.n > 0 => Count("point") <= SeqBudget(p1)
            /\ Count("opposite") \in {Count("point"), Count("point") - 1} \/ p1.opposition = "none"
            /\ Count("middle") = (IF p1.middle /\ n > 0 THEN 1 ELSE 0)
InvUsed == (p1.n > 0 /\ n >= p1.n) => Count("point") = SeqBudget(p1)
=============================================================================

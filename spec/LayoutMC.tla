------------------------------ MODULE LayoutMC ------------------------------
(* all the parametrizations up to a depth (the identifiers of the leaves are given by the driver) *)
EXTENDS Layout
CONSTANTS Depth, Full, EMIT
VARIABLES tree, done
A(d, s) == [t |-> "arr", id |-> 0, d |-> d, s |-> s]
L0 == {A(1, 1), A(2, 2), [t |-> "cst"]}
(* T: allowed options beside one of S *)
Over(S, T) ==
  {[t |-> "tup", c |-> <<x>>] : x \in S} \cup {[t |-> "tup", c |-> <<x, y>>] : x \in S, y \in T} \cup
  {[t |-> "dict", keys |-> k, c |-> <<x, y>>] : x \in S, y \in T, k \in {<<1, 2>>, <<2, 1>>}} \cup
  {[t |-> "cho", id |-> 0, r |-> r, c |-> <<x, y>>] : x \in S, y \in T, r \in {1, 2}} \cup
  {[t |-> "tra", id |-> 0, r |-> r, c |-> <<x, y>>] : x \in S, y \in T, r \in {1, 2}} \cup
  {[t |-> "inst", a |-> <<x>>, keys |-> <<2, 1>>, c |-> <<y, A(1, 1)>>] : x \in S, y \in T}
L1 == L0 \cup Over(L0, L0)
Trees == IF Depth = 1 THEN Over(L0, L0) ELSE IF Full THEN Over(L1, L1) ELSE Over(L1, L0) \cup Over(L0, L1)
Init == tree \in Trees /\ done = FALSE
Next == ~done /\ done' = TRUE /\ (EMIT => Say(tree)) /\ UNCHANGED tree
Spec == Init /\ [][Next]_<<tree, done>>
Ly == Layout(tree)
RECURSIVE Total(_)
RECURSIVE Sum(_)
Sum(s) == IF s = <<>> THEN 0 ELSE Head(s) + Sum(Tail(s))
Total(n) == CASE n.t = "arr" -> n.d [] n.t = "cst" -> 0
              [] n.t \in {"tup", "dict"} -> Sum([i \in DOMAIN n.c |-> Total(n.c[i])])
              [] n.t = "inst" -> Sum([i \in DOMAIN n.a |-> Total(n.a[i])]) + Sum([i \in DOMAIN n.c |-> Total(n.c[i])])
              [] n.t = "cho" -> Sum([i \in DOMAIN n.c |-> Total(n.c[i])]) + n.r * Len(n.c)
              [] n.t = "tra" -> Sum([i \in DOMAIN n.c |-> Total(n.c[i])]) + n.r
(* the segments partition the data, setting then getting is the identity *)
InvDimension == Dim(Ly) = Total(tree)
InvPartition == LET data == [i \in 1..Dim(Ly) |-> i] IN Cat([i \in DOMAIN Ly |-> Segment(Ly, i, data)]) = data
InvRoundTrip == \A i \in DOMAIN Ly : LET data == [x \in 1..Dim(Ly) |-> x - 2]  ref == [j \in 1..Ly[i].d |-> 3 * j]  seg == Segment(Ly, i, data) IN
  GetLeaf(Ly[i], ref, SetLeaf(Ly[i], ref, seg)) = seg
=============================================================================

------------------------------- MODULE Layout -------------------------------
(***************************************************************************)
(* Standardized representation of a parametrization: concatenation of the   *)
(* data of its leaves, containers sorted by key (a choice has its options   *)
(* first, then its own data).                                               *)
(* node: [t |-> "arr", id, d, s] | [t |-> "cst"] | [t |-> "tup", c] |       *)
(*   [t |-> "dict", keys, c] | [t |-> "inst", a, keys, c] |                  *)
(*   [t |-> "cho" / "tra", id, r, c]                                         *)
(***************************************************************************)
EXTENDS TraceIO
RECURSIVE Cat(_)
Cat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Cat(Tail(ss))
(* positions of a sequence of distinct integers, sorted by value *)
Order(keys) ==
  LET P(S) == CHOOSE i \in S : \A j \in S : keys[i] <= keys[j]
      RECURSIVE Go(_)
      Go(S) == IF S = {} THEN <<>> ELSE <<P(S)>> \o Go(S \ {P(S)})
  IN Go(DOMAIN keys)
RECURSIVE Layout(_)
Many(c) == Cat([i \in DOMAIN c |-> Layout(c[i])])
Sorted(keys, c) == LET o == Order(keys) IN Cat([i \in DOMAIN c |-> Layout(c[o[i]])])
Layout(n) ==
  CASE n.t = "arr" -> << [id |-> n.id, d |-> n.d, s |-> n.s, k |-> "arr", n |-> 0] >>
    [] n.t = "cst" -> <<>>
    [] n.t = "tup" -> Many(n.c)
    [] n.t = "dict" -> Sorted(n.keys, n.c)
    [] n.t = "inst" -> Many(n.a) \o Sorted(n.keys, n.c)
    [] n.t = "cho" -> Many(n.c) \o << [id |-> n.id, d |-> Len(n.c) * n.r, s |-> 1, k |-> "soft", n |-> Len(n.c)] >>
    [] n.t = "tra" -> Many(n.c) \o << [id |-> n.id, d |-> n.r, s |-> 1, k |-> "tran", n |-> Len(n.c)] >>
RECURSIVE Offset(_, _)
Offset(ly, i) == IF i = 1 THEN 0 ELSE Offset(ly, i - 1) + ly[i - 1].d
Dim(ly) == IF ly = <<>> THEN 0 ELSE Offset(ly, Len(ly)) + ly[Len(ly)].d
Segment(ly, i, data) == SubSeq(data, Offset(ly, i) + 1, Offset(ly, i) + ly[i].d)
(* value of an affine leaf from its data, and back *)
SetLeaf(leaf, ref, seg) == [j \in 1..leaf.d |-> ref[j] + leaf.s * seg[j]]
GetLeaf(leaf, ref, val) == [j \in 1..leaf.d |-> (val[j] - ref[j]) \div leaf.s]
ArgMax(row) == CHOOSE i \in DOMAIN row : (\A j \in DOMAIN row : row[i] >= row[j]) /\ (\A m \in 1..(i - 1) : row[m] < row[i])
(* most likely options (0-based), for each repetition; wref: weights of the reference *)
SetSoft(leaf, wref, seg) == LET n == leaf.n IN
  [k \in 1..(leaf.d \div n) |-> ArgMax([j \in 1..n |-> wref[(k - 1) * n + j] + seg[(k - 1) * n + j]]) - 1]
(* value of a parametrization from the values of its leaves, flattened with delimiters *)
RECURSIVE Flat(_, _)
FlatAll(c, vals) == <<9001>> \o Cat([i \in DOMAIN c |-> Flat(c[i], vals)]) \o <<9002>>
FlatSorted(keys, c, vals) == LET o == Order(keys) IN FlatAll([i \in DOMAIN c |-> c[o[i]]], vals)
Flat(n, vals) ==
  CASE n.t = "arr" -> vals[n.id]
    [] n.t = "cst" -> <<7777>>
    [] n.t = "tup" -> FlatAll(n.c, vals)
    [] n.t = "dict" -> FlatSorted(n.keys, n.c, vals)
    [] n.t = "inst" -> <<9001>> \o FlatAll(n.a, vals) \o FlatSorted(n.keys, n.c, vals) \o <<9002>>
    [] n.t \in {"cho", "tra"} -> IF n.r = 1 THEN Flat(n.c[vals[n.id][1] + 1], vals)
                                 ELSE FlatAll([k \in 1..n.r |-> n.c[vals[n.id][k] + 1]], vals)
=============================================================================

----------------------------- MODULE Variation -----------------------------
(* Outcomes of the variation operators: mutations and crossovers of arrays   *)
(* (a relation between the array before and the array after), discrete       *)
(* mutations (a set of modified variables and the bins of their values),     *)
(* choices (sampled or moved index, value of the selected option).           *)
(* Arrays are flattened: positions 1..Size(sh), sh: sequence of lengths,     *)
(* axes: sequence of axes starting at 1.                                     *)
EXTENDS TraceIO, SequencesExt
RECURSIVE ProdFrom(_, _)
ProdFrom(sh, a) == IF a > Len(sh) THEN 1 ELSE sh[a] * ProdFrom(sh, a + 1)
Size(sh) == ProdFrom(sh, 1)
Coord(sh, i, a) == ((i - 1) \div ProdFrom(sh, a + 1)) % sh[a]
At(sh, c) == 1 + FoldLeft(LAMBDA x, a : x * sh[a] + c[a], 0, [a \in DOMAIN sh |-> a])
Id(n) == [i \in 1..n |-> i]
AxesOf(sh, axes) == IF axes = <<>> THEN DOMAIN sh ELSE Range(axes)
-----------------------------------------------------------------------------
(* translation: all the elements are shifted along the axes, cyclically *)
RollBy(sh, s) == [i \in 1..Size(sh) |-> At(sh, [a \in DOMAIN sh |-> (Coord(sh, i, a) + sh[a] - s[a]) % sh[a]])]
Shifts(sh, ax) == {s \in [DOMAIN sh -> 0..(SetMax(Range(sh)) - 1)] : \A a \in DOMAIN sh : s[a] < sh[a] /\ (a \notin ax => s[a] = 0)}
Rolls(sh, axes) == {RollBy(sh, s) : s \in Shifts(sh, AxesOf(sh, axes))}
(* jump: a chunk is moved to another place along one axis *)
JumpAxis(L, init, n, new) ==
  LET chunk == [i \in 1..n |-> init + i - 1]
      remain == [i \in 1..(L - n) |-> IF i - 1 < init THEN i - 1 ELSE i - 1 + n] IN
  SubSeq(remain, 1, new) \o chunk \o SubSeq(remain, new + 1, Len(remain))
Moved(sh, a, perm) == [i \in 1..Size(sh) |-> At(sh, [b \in DOMAIN sh |-> IF b = a THEN perm[Coord(sh, i, a) + 1] ELSE Coord(sh, i, b)])]
Jumps(sh, a, size) == {Moved(sh, a, JumpAxis(sh[a], j[1], j[2], j[3])) :
  j \in {x \in (0..(sh[a] - 1)) \X (1..size) \X (0..(sh[a] - 1)) : x[1] + x[2] <= sh[a] /\ x[3] <= sh[a] - x[2]}}
(* blocks: intervals of the same size on each of the axes *)
Block(sh, ax, start, n) == {i \in 1..Size(sh) : \A a \in ax : Coord(sh, i, a) >= start[a] /\ Coord(sh, i, a) < start[a] + n}
Blocks(sh, axes, sizes) == LET ax == AxesOf(sh, axes) IN
  {Block(sh, ax, x[1], x[2]) : x \in {y \in [DOMAIN sh -> 0..(SetMax(Range(sh)) - 1)] \X sizes : \A a \in ax : y[1][a] + y[2] <= sh[a]}}
(* default largest size of a crossover: about half of the elements, and never a whole axis *)
RECURSIVE Pow(_, _)
Pow(x, k) == IF k = 0 THEN 1 ELSE x * Pow(x, k - 1)
HalfSize(n, k) == SetMax({m \in 0..n : 2 * Pow(m, k) <= n + 1})
CrossMax(sh, axes, max) == LET ax == AxesOf(sh, axes)  m == IF max = 0 THEN HalfSize(Size(sh), Cardinality(ax)) ELSE max IN SetMin({m} \cup {sh[a] - 1 : a \in ax})
Mix(B, n) == [i \in 1..n |-> IF i \in B THEN n + i ELSE i]   \* n + i: element i of the other array
Crosses(sh, axes, max) == {Mix(B, Size(sh)) : B \in Blocks(sh, axes, 1..CrossMax(sh, axes, max))}
-----------------------------------------------------------------------------
(* discrete variables: a variable is modified if it moves to another bin; out: <<same value, bin>> *)
Changed(par, out) == {i \in DOMAIN par : ~out[i][1]}
OtherBins(par, out) == \A i \in Changed(par, out) : out[i][2] # par[i]
(* crossovers: each value comes from one of both parents *)
Masks(d, kind, len) ==
  LET all == SUBSET (1..d) IN
  CASE kind = "onepoint" /\ len > 4 -> {m \in all : \E x \in 1..(d - 1) : m = 1..x \/ m = (x + 1)..d}
    [] kind = "twopoint" /\ len > 6 -> {m \in all : \E x, y \in 1..(d - 1) : x < y /\ (m = (x + 1)..y \/ m = 1..x \cup (y + 1)..d)}
    [] OTHER -> all
(* choices of the option of largest weight, the first one *)
ArgMax(w) == SetMin({i \in DOMAIN w : \A j \in DOMAIN w : w[j] <= w[i]})
Clip(x, n) == IF x < 1 THEN 1 ELSE IF x > n THEN n ELSE x
(* transitions: probabilities (over twice the sum of the transitions) of moving from an index to another *)
SumOf(s) == FoldLeft(LAMBDA a, b : a + b, 0, s)
MoveWeight(n, t, i, j) == SumOf([m \in DOMAIN t |-> (IF Clip(i + m - 1, n) = j THEN t[m] ELSE 0) + (IF Clip(i - m + 1, n) = j THEN t[m] ELSE 0)])
(* counts over N draws are compatible with the weights (6 standard deviations) *)
Frequency(count, N, w, s) == IF w = 0 THEN count = 0 ELSE IF w = s THEN count = N
                             ELSE LET d == Abs(count * s - N * w) IN d <= 20000 /\ d * d <= 36 * N * w * (s - w)
=============================================================================

---------------------------- MODULE VariationMC ----------------------------
(* All the small arrays, axes and sizes: outcomes of the operators *)
EXTENDS Variation
CONSTANTS MaxLen, MaxSize, MaxDims, EMIT
VARIABLES case, done
vars == <<case, done>>
Shapes == {s \in UNION {[1..d -> 1..MaxLen] : d \in 1..MaxDims} : Size(s) <= MaxSize}
AxesSets(sh) == {x \in {<<>>, <<1>>, <<2>>, <<3>>, <<1, 2>>, <<1, 3>>, <<2, 3>>, <<1, 2, 3>>} : Range(x) \subseteq DOMAIN sh}
Wide(sh, axes) == \A a \in AxesOf(sh, axes) : sh[a] > 1
Case(op, s, x, k) == [op |-> op, sh |-> s, axes |-> x, size |-> k]
CasesOf(s) ==
  {Case("roll", s, x, 0) : x \in AxesSets(s)}
  \cup UNION {{Case("jump", s, <<a>>, k) : k \in 2..s[a]} : a \in DOMAIN s}
  \cup UNION {{Case("cross", s, x, k) : k \in 0..4} : x \in {y \in AxesSets(s) : Wide(s, y)}}
  \cup {Case("ravel", s, <<>>, k) : k \in IF Size(s) > 1 THEN 0..4 ELSE {}}
  \cup UNION {{Case("patch", s, x, k) : k \in {m \in 1..2 : \A a \in AxesOf(s, x) : m < s[a]}} : x \in {y \in AxesSets(s) : Wide(s, y)}}
Cases == UNION {CasesOf(s) : s \in Shapes}
Init == case \in Cases /\ done = FALSE
Next == ~done /\ done' = TRUE /\ (EMIT => Say(case)) /\ UNCHANGED case
Spec == Init /\ [][Next]_vars
N == Size(case.sh)
Perm(o) == Range(o) = 1..N
(* translations: permutations which keep the neighbours, a group with as many elements as shifts *)
InvRoll == case.op = "roll" => LET r == Rolls(case.sh, case.axes) IN
  /\ \A o \in r : Perm(o)
  /\ Id(N) \in r
  /\ Cardinality(r) = FoldLeft(LAMBDA x, a : x * (IF a \in AxesOf(case.sh, case.axes) THEN case.sh[a] ELSE 1), 1, [a \in DOMAIN case.sh |-> a])
  /\ \A o, q \in r : [i \in 1..N |-> o[q[i]]] \in r
InvJump == case.op = "jump" => LET r == Jumps(case.sh, case.axes[1], case.size) IN
  /\ \A o \in r : Perm(o)
  /\ Id(N) \in r
  /\ \A o \in r : \A i \in 1..N : \A b \in DOMAIN case.sh \ {case.axes[1]} : Coord(case.sh, o[i], b) = Coord(case.sh, i, b)
InvCross == case.op = "cross" => LET r == Crosses(case.sh, case.axes, case.size) IN
  /\ r # {}
  /\ \A o \in r : /\ \A i \in 1..N : o[i] \in {i, N + i}
                  /\ \E i \in 1..N : o[i] = i
                  /\ \E i \in 1..N : o[i] = N + i
InvPatch == case.op = "patch" => \A B \in Blocks(case.sh, case.axes, {case.size}) :
  Cardinality(B) = FoldLeft(LAMBDA x, a : x * (IF a \in AxesOf(case.sh, case.axes) THEN case.size ELSE case.sh[a]), 1, [a \in DOMAIN case.sh |-> a])
(* points of crossover: subsets of the uniform crossover, closed by exchange of the parents *)
InvMasks == \A y \in {<<5, "onepoint">>, <<6, "onepoint">>, <<7, "onepoint">>, <<7, "twopoint">>, <<8, "twopoint">>} :
  LET d == y[1]  m == Masks(d, y[2], d) IN \A x \in m : ((1..d) \ x) \in m /\ x # {} /\ x # 1..d
(* transitions: probabilities, and no option lost *)
InvMoves == \A n \in 1..4 : \A t \in {<<1, 1>>, <<0, 1>>, <<1, 2, 3>>, <<2, 0, 1>>} : \A i \in 1..n :
  /\ SumOf([j \in 1..n |-> MoveWeight(n, t, i, j)]) = 2 * SumOf(t)
  /\ \A j \in 1..n : (Abs(i - j) = 1 /\ t[2] > 0) => MoveWeight(n, t, i, j) > 0
=============================================================================

----------------------------- MODULE Experiments -----------------------------
(* Test functions: the core functions on integers, their blocks, symmetries, packs and copies *)
EXTENDS TraceIO, SequencesExt, FiniteSetsExt
SumOf(s) == FoldLeft(LAMBDA x, y : x + y, 0, s)
MaxOf(s) == FoldLeft(LAMBDA x, y : IF x > y THEN x ELSE y, s[1], s)
Sq(x) == x * x
MinOf(s) == FoldLeft(LAMBDA x, y : IF x < y THEN x ELSE y, s[1], s)
Sphere(x) == SumOf([i \in DOMAIN x |-> Sq(x[i])])
Million == 1000000
Shift(x, k) == [i \in DOMAIN x |-> x[i] - k]
(* weights 10 ** linspace(0, 6, d) *)
Weight(d, i) == CASE d = 1 -> 1 [] d = 2 -> <<1, Million>>[i] [] d = 3 -> <<1, 1000, Million>>[i] [] d = 4 -> <<1, 100, 10000, Million>>[i]
Optimum(n, a) == [i \in 1..n |-> (i - 1) % a]
OneMax(x, a) == Cardinality({i \in DOMAIN x : x[i] # Optimum(Len(x), a)[i]})
LeadingOnes(x, a) == LET w == {i \in DOMAIN x : x[i] # Optimum(Len(x), a)[i]} IN IF w = {} THEN 0 ELSE Len(x) - SetMin(w) + 1
Jump(x, a) == LET n == Len(x)  m == n \div 4  o == n - OneMax(x, a) IN IF o = n \/ o <= n - m THEN n - m - o ELSE o
Core(f, x) ==
  LET d == Len(x) IN
  CASE f \in {"sphere", "DelayedSphere", "rastrigin"} -> Sphere(x)
    [] f = "sphere1" -> Sphere(Shift(x, 1)) [] f = "sphere2" -> Sphere(Shift(x, 2)) [] f = "sphere4" -> Sphere(Shift(x, 4))
    [] f = "cigar" -> Sq(x[1]) + Million * Sphere(Tail(x))
    [] f = "discus" -> Million * Sq(x[1]) + Sphere(Tail(x))
    [] f = "altcigar" -> Sq(x[d]) + Million * Sphere(Front(x))
    [] f = "ellipsoid" -> SumOf([i \in 1..d |-> Weight(d, i) * Sq(x[i])])
    [] f = "altellipsoid" -> SumOf([i \in 1..d |-> Weight(d, d + 1 - i) * Sq(x[i])])
    [] f = "doublelinearslope" -> Abs(SumOf(x))
    [] f = "slope" -> SumOf(x)
    [] f = "rosenbrock" -> SumOf([i \in 1..(d - 1) |-> 100 * Sq(Sq(x[i]) - x[i + 1]) + Sq(x[i] - 1)])
    [] f = "schwefel_1_2" -> SumOf([i \in 1..d |-> Sq(SumOf(SubSeq(x, 1, i)))])
    [] f = "onemax2" -> OneMax(x, 2) [] f = "onemax3" -> OneMax(x, 3) [] f = "onemax5" -> OneMax(x, 5)
    [] f = "leadingones2" -> LeadingOnes(x, 2) [] f = "leadingones3" -> LeadingOnes(x, 3) [] f = "leadingones5" -> LeadingOnes(x, 5)
    [] f = "jump2" -> Jump(x, 2) [] f = "jump3" -> Jump(x, 3) [] f = "jump5" -> Jump(x, 5)
(* an artificial function is one of these, for a set I of useful variables: aggregation of disjoint sorted blocks;   *)
(* c: configuration [fun, bd (variables by block), nb (blocks), dim, agg, noise, dis]; the mean is multiplied by nb   *)
UsefulSets(c) == kSubset(c.bd * c.nb, 1..c.dim)
Block(c, I, x, b) == LET s == SetToSortSeq(I, <) IN [i \in 1..c.bd |-> x[s[(b - 1) * c.bd + i]]]
Value(c, I, x) == LET v == [b \in 1..c.nb |-> Core(c.fun, Block(c, I, x, b))] IN IF c.agg = "max" THEN MaxOf(v) ELSE SumOf(v)
(* noise is added to the calls, except (dissymmetric noise) when the first useful variable is positive *)
Noisy(c, I, x) == c.noise /\ ~(c.dis /\ x[SetMin(I)] > 0)
Time(c, I, x) == SumOf([b \in 1..c.nb |-> LET y == Block(c, I, x, b)[1] IN IF y = 0 THEN 0 ELSE 1000 \div Abs(y)])
(* is the observation e possible with the useful variables I *)
Possible(c, I, e) ==
  CASE e.op = "eval" -> e.whole /\ e.val = Value(c, I, e.x)
    [] e.op = "call" -> IF Noisy(c, I, e.x) THEN ~(e.whole /\ e.val = Value(c, I, e.x)) ELSE e.whole /\ e.val = Value(c, I, e.x)
    [] e.op = "time" -> IF c.fun = "DelayedSphere" THEN Abs(e.val - Time(c, I, e.x)) <= c.nb ELSE e.val = Million
(* b: knowledge about the useful variables of each instance *)
Learn(c, b, e) ==
  CASE e.op = "copy" -> Append(b, UsefulSets(c))
    [] e.op \in {"pickle", "deepcopy"} -> Append(b, b[e.o])
    [] e.op = "seed" -> b
    [] OTHER -> [b EXCEPT ![e.o] = {I \in b[e.o] : Possible(c, I, e)}]
(* reflections: mask -> image of a point; twice the middle of the bounds of each variable in mid *)
Reflect(x, mid, mask) == [i \in DOMAIN x |-> IF i \in mask THEN mid[i] - x[i] ELSE x[i]]
(* volume of the points of the grid dominated by one of the losses, below the bounds *)
Volume(losses, ub) == Cardinality({c \in (0..(ub[1] - 1)) \X (0..(ub[2] - 1)) : \E p \in Range(losses) : p[1] <= c[1] /\ p[2] <= c[2]})
-----------------------------------------------------------------------------
(* instances of an experiment function: [added: descriptors added (0: none), text: value of a descriptor of the class (0: the one of the class), *)
(*   p: replaced parametrization (0: none), flags, nc: number of constraints, ub: upper bounds (0: none)]                                     *)
Fresh == [added |-> <<0, 0>>, text |-> 0, p |-> 0, flags |-> {}, nc |-> 0, ub |-> 0]
SameCase(o, q) == o.added = q.added /\ o.text = q.text /\ o.p = q.p
CanCopy(o) == o.text = 0
After(st, e) ==
  CASE e.op = "copy" -> IF CanCopy(st[e.o]) THEN Append(st, st[e.o]) ELSE st
    [] e.op = "describe" -> [st EXCEPT ![e.o].added[e.v] = e.w]
    [] e.op = "override" -> [st EXCEPT ![e.o].text = e.v]
    [] e.op = "flag" -> [st EXCEPT ![e.o].flags = IF e.v \in @ THEN @ \ {e.v} ELSE @ \cup {e.v}]
    [] e.op = "replace" -> [st EXCEPT ![e.o].p = e.v, ![e.o].flags = {}, ![e.o].nc = 0]
    [] e.op = "constrain" -> [st EXCEPT ![e.o].nc = @ + 1]
    [] e.op = "bounds" -> [st EXCEPT ![e.o].ub = e.v]
=============================================================================

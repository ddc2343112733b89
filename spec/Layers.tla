------------------------------ MODULE Layers ------------------------------
(* Stack of operations of one array parameter, element by element. Values   *)
(* are integers, 64 units for 1.0. The root value is the only state: the    *)
(* value is read through the stack (bounds write the bounded value back),   *)
(* and set through the inverses, from the outermost operation inwards.      *)
EXTENDS TraceIO
U == 64
INF == 1000000000
NONE == -999999999  \* no bound

(* layers: add v | mul n d | mod v | clip lo hi | bounce lo hi *)
IsBound(y) == y.op \in {"clip", "bounce", "mod"}
Lo(y) == IF y.op = "mod" THEN 0 ELSE y.lo
Hi(y) == IF y.op = "mod" THEN y.v ELSE y.hi
Inside(y, x) == (Lo(y) = NONE \/ x >= Lo(y)) /\ (Hi(y) = NONE \/ x <= Hi(y))
ClipTo(y, x) == IF Lo(y) # NONE /\ x < Lo(y) THEN Lo(y) ELSE IF Hi(y) # NONE /\ x > Hi(y) THEN Hi(y) ELSE x
Div(a, b) == IF a % b = 0 THEN a \div b ELSE Assert(FALSE, <<"not exact", a, b>>)
Ratio(x, n, d) == IF n < 0 THEN -Div(-n * x, d) ELSE Div(n * x, d)
Fwd(y, x) == IF y.op = "add" THEN x + y.v ELSE Ratio(x, y.n, y.d)
Bwd(y, x) == IF y.op = "add" THEN x - y.v ELSE IF y.n < 0 THEN -Div(x * y.d, -y.n) ELSE Div(x * y.d, y.n)

RECURSIVE Read(_, _, _)
RECURSIVE Set(_, _, _, _)
(* value at level k, and the root after the reading *)
Read(st, k, root) ==
  IF k = 0 THEN [v |-> root, r |-> root]
  ELSE LET y == st[k]  in == Read(st, k - 1, root) IN
       CASE y.op \in {"add", "mul"} -> [v |-> Fwd(y, in.v), r |-> in.r]
         [] y.op = "mod" -> [v |-> in.v % y.v, r |-> in.r]
         [] OTHER -> IF Inside(y, in.v) THEN in
                     ELSE LET c == ClipTo(y, in.v)
                              w == IF y.op = "bounce" THEN ClipTo(y, 2 * c - in.v) ELSE c
                          IN [v |-> w, r |-> Set(st, k - 1, in.r, w).r]
Set(st, k, root, x) ==
  IF k = 0 THEN [ok |-> TRUE, r |-> x]
  ELSE LET y == st[k] IN
       CASE y.op \in {"add", "mul"} -> Set(st, k - 1, root, Bwd(y, x))
         [] y.op = "mod" -> IF ~Inside(y, x) THEN [ok |-> FALSE, r |-> root]
                            ELSE LET in == Read(st, k - 1, root) IN Set(st, k - 1, in.r, in.v - (in.v % y.v) + x)
         [] OTHER -> IF Inside(y, x) THEN Set(st, k - 1, root, x) ELSE [ok |-> FALSE, r |-> root]

(* integers: rounded to the closest one (half to even), then to the integers within the bounds *)
Floor(x) == x \div U
Round(x) == LET f == Floor(x)  m == x % U IN
            IF 2 * m < U THEN f ELSE IF 2 * m > U THEN f + 1 ELSE IF f % 2 = 0 THEN f ELSE f + 1
Ceil(x) == -((-x) \div U)
(* bounds of the last bounding operation, through the operations after it *)
LastBound(st) == LET B == {i \in DOMAIN st : IsBound(st[i])} IN IF B = {} THEN 0 ELSE SetMax(B)
RECURSIVE Through(_, _, _, _)
Through(st, k, lo, hi) ==
  IF k > Len(st) THEN <<lo, hi>>
  ELSE LET y == st[k]  m(x) == IF x = NONE THEN NONE ELSE Fwd(y, x) IN
       IF y.op = "mul" /\ y.n < 0 THEN Through(st, k + 1, m(hi), m(lo)) ELSE Through(st, k + 1, m(lo), m(hi))
Bounds(st) == LET b == LastBound(st) IN IF b = 0 THEN <<NONE, NONE>> ELSE Through(st, b + 1, Lo(st[b]), Hi(st[b]))
IntIn(b, x) == LET a == IF b[1] # NONE /\ x < Ceil(b[1]) THEN Ceil(b[1]) ELSE x
               IN IF b[2] # NONE /\ a > Floor(b[2]) THEN Floor(b[2]) ELSE a

(* parameter: [st, int, root], root: one value for each element *)
Value(p) == LET f == [i \in DOMAIN p.root |-> Read(p.st, Len(p.st), p.root[i])] IN
            [v |-> [i \in DOMAIN f |-> IF p.int THEN U * IntIn(Bounds(p.st), Round(f[i].v)) ELSE f[i].v],
             p |-> [p EXCEPT !.root = [i \in DOMAIN f |-> f[i].r]]]
Assign(p, v) == LET f == [i \in DOMAIN p.root |-> Set(p.st, Len(p.st), p.root[i], v[i])] IN
                [ok |-> \A i \in DOMAIN f : f[i].ok, p |-> [p EXCEPT !.root = [i \in DOMAIN f |-> f[i].r]]]
(* operations are added before the integer casting; bounds refuse a current value out of them, *)
(* and must be values that the previous operations accept                                      *)
Push(p, y) ==
  LET q == [p EXCEPT !.st = Append(@, y)] IN
  IF y.op \in {"clip", "bounce"}
  THEN LET cur == Value(p)
           a == Assign([cur.p EXCEPT !.st = Append(@, y)], cur.v)
           t(x) == Assign(a.p, [i \in DOMAIN p.root |-> x]).ok
       IN IF a.ok /\ (y.lo # NONE /\ y.hi # NONE => t(y.lo) /\ t(y.hi)) THEN [ok |-> TRUE, p |-> a.p] ELSE [ok |-> FALSE, p |-> p]
  ELSE [ok |-> TRUE, p |-> q]
SetData(p, d, ref) == Value([p EXCEPT !.root = [i \in DOMAIN d |-> ref[i] + d[i]]])

(* declarative part: the values that the parameter can take *)
RECURSIVE Domain(_, _, _, _)
Domain(st, k, lo, hi) ==
  IF k > Len(st) THEN <<lo, hi>>
  ELSE LET y == st[k] IN
       CASE y.op = "add" -> Domain(st, k + 1, IF lo = -INF THEN lo ELSE lo + y.v, IF hi = INF THEN hi ELSE hi + y.v)
         [] y.op = "mul" -> LET m(x) == IF Abs(x) = INF THEN (IF y.n < 0 THEN -x ELSE x) ELSE Ratio(x, y.n, y.d)
                            IN IF y.n < 0 THEN Domain(st, k + 1, m(hi), m(lo)) ELSE Domain(st, k + 1, m(lo), m(hi))
         [] y.op = "mod" -> Domain(st, k + 1, 0, y.v)
         [] OTHER -> Domain(st, k + 1, ClipTo(y, lo), ClipTo(y, hi))
InDomain(p, v) == LET d == Domain(p.st, 1, -INF, INF) IN \A i \in DOMAIN v : v[i] >= d[1] /\ v[i] <= d[2]
=============================================================================

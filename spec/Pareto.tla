------------------------------- MODULE Pareto -------------------------------
(***************************************************************************)
(* Multiobjective bookkeeping: a set of told loss vectors, upper bounds     *)
(* (given as a reference or estimated from the first tells), the Pareto    *)
(* front which is maintained, and the scalar losses which optimizers are   *)
(* provided with: the negative hypervolume when a point improves it.       *)
(* Loss vectors are tuples of integers; a point is [id, v].                 *)
(***************************************************************************)
EXTENDS TraceIO

BIG == 1000000000
Leq(a, b) == \A i \in DOMAIN a : a[i] <= b[i]
Dominates(a, b) == Leq(a, b) /\ a # b
StrictlyBelow(a, b) == \A i \in DOMAIN a : a[i] < b[i]

(* non-dominated points of a set of [id, v] *)
Front(S) == {p \in S : ~\E q \in S : Dominates(q.v, p.v)}

(* hypervolume with integer coordinates: number of unit cells between a point and the bounds *)
RECURSIVE Cells(_, _)
Cells(lo, hi) == IF lo = <<>> THEN {<<>>}
                 ELSE {<<x>> \o c : x \in Head(lo)..(Head(hi) - 1), c \in Cells(Tail(lo), Tail(hi))}
Low(V) == LET d == CHOOSE v \in V : TRUE IN [i \in DOMAIN d |-> SetMin({v[i] : v \in V})]
Volume(V, ub) ==
  LET W == {v \in V : StrictlyBelow(v, ub)} IN
  IF W = {} THEN 0
  ELSE Cardinality({c \in Cells(Low(W), ub) : \E v \in W : Leq(v, c)})

(* ---- state ------------------------------------------------------------- *)
(* told: all told points; raw: points kept for the front; ub: <<>> if unknown; auto: number of     *)
(* tells which still update the bounds; in: whether a point was told within the (final) bounds      *)
StInit(auto) == [told |-> {}, raw |-> {}, ub |-> <<>>, auto |-> auto, inb |-> FALSE, vol |-> 0]

MaxVec(a, b) == IF a = <<>> THEN b ELSE [i \in DOMAIN a |-> IF a[i] >= b[i] THEN a[i] ELSE b[i]]

Reference(st, v) == [st EXCEPT !.ub = v, !.auto = 0]

Within(st) == {p \in st.told : Leq(p.v, st.ub)}
(* volume of the points which were told so far *)
VolumeOf(st) == Volume({p.v : p \in Within(st)}, st.ub)

Tell(st, p) ==
  LET told == st.told \cup {p} IN
  IF st.auto > 0 THEN
    IF st.ub # <<>> /\ StrictlyBelow(st.ub, p.v)
    THEN [st EXCEPT !.auto = @ - 1, !.told = told]           \* uniformly worse than the others
    ELSE [st EXCEPT !.auto = @ - 1, !.told = told, !.raw = @ \cup {p}, !.ub = MaxVec(@, p.v)]
  ELSE IF ~Leq(p.v, st.ub) THEN
    [st EXCEPT !.told = told, !.raw = IF st.inb THEN @ ELSE @ \cup {p}]
  ELSE LET vol == Volume({q.v : q \in Within(st)} \cup {p.v}, st.ub)
           better == ~st.inb \/ vol > st.vol IN
    [st EXCEPT !.told = told, !.inb = TRUE, !.vol = vol,
               !.raw = IF better THEN @ \cup {p} ELSE @]

(* ---- what is guaranteed ------------------------------------------------ *)
NonDominated(F) == \A p, q \in F : ~Dominates(p.v, q.v)
(* every point which counts is represented in the front: those within the bounds as soon as the      *)
(* volume is positive or none is over the bounds, any told point before that                        *)
Positive(st) == {p \in st.told : StrictlyBelow(p.v, st.ub)}
Covered(F, S) == \A p \in S : \E q \in F : Leq(q.v, p.v)
MustCover(st) == IF st.auto > 0 \/ ~st.inb THEN st.told ELSE Positive(st)
=============================================================================

------------------------------- MODULE Param -------------------------------
(***************************************************************************)
(* Instances of a parametrization: copies, children, samples, values,       *)
(* freezing, heritage.  Each operation changes its target only.             *)
(* objs: sequence of instances [v: values of the leaves, fr: frozen,        *)
(*   gen: generation, sgen: generation of the first leaf, par: parent (0 if *)
(*   none), lin: first instance of the lineage, loss: has a loss, tag: mark *)
(*   passed to the children, rs: random state]                              *)
(***************************************************************************)
EXTENDS TraceIO
Fresh(v, n) == [v |-> v, fr |-> FALSE, gen |-> 0, sgen |-> 0, par |-> 0, lin |-> n, loss |-> FALSE, tag |-> 0, rs |-> 1]
(* operations which modify the value *)
Modifies(k) == k \in {"set", "setstd", "mutate", "recombine", "subset"}
Creates(k) == k \in {"copy", "spawn", "spawnv", "sample"}
Refused(o, e) == Modifies(e.k) /\ o[e.o].fr
All(n, x) == [i \in 1..n |-> x]
(* values which are defined by the operation; stoch: leaves whose value is drawn again in each new instance *)
Free == -1
NewVal(o, e, stoch) ==
  LET n == Len(stoch)  v == o[e.o].v IN
  CASE e.k \in {"copy", "spawn"} -> [i \in 1..n |-> IF stoch[i] THEN Free ELSE v[i]]
    [] e.k \in {"spawnv", "set"} -> All(n, e.v)
    [] e.k = "setstd" -> [i \in 1..n |-> IF stoch[i] THEN Free ELSE e.v]
    [] e.k = "subset" -> [v EXCEPT ![1] = e.v]
    [] e.k \in {"mutate", "recombine", "sample"} -> All(n, Free)
    [] OTHER -> v
Child(o, e, v) ==
  LET p == o[e.o]  me == Len(o) + 1 IN
  CASE e.k = "copy" -> [p EXCEPT !.v = v, !.fr = FALSE, !.loss = FALSE]
    [] e.k \in {"spawn", "spawnv"} -> [p EXCEPT !.v = v, !.fr = FALSE, !.loss = FALSE, !.gen = @ + 1, !.sgen = @ + 1, !.par = e.o]
    [] e.k = "sample" -> [p EXCEPT !.v = v, !.fr = FALSE, !.loss = FALSE, !.gen = 0, !.sgen = 0, !.par = 0, !.lin = me, !.tag = 0]
After(o, e, stoch) ==
  IF Refused(o, e) THEN o
  ELSE CASE Creates(e.k) -> Append(o, Child(o, e, NewVal(o, e, stoch)))
         [] Modifies(e.k) -> [o EXCEPT ![e.o].v = NewVal(o, e, stoch)]
         [] e.k = "freeze" -> [o EXCEPT ![e.o].fr = TRUE]
         [] e.k = "mark" -> [o EXCEPT ![e.o].loss = TRUE, ![e.o].tag = e.v]
         [] e.k = "seed" -> [o EXCEPT ![e.o].rs = e.v]
         [] OTHER -> o
=============================================================================

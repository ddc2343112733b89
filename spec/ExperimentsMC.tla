---------------------------- MODULE ExperimentsMC ----------------------------
(* Histories of copies and modifications of instances; knowledge about artificial functions *)
EXTENDS Experiments
CONSTANTS Depth, Mode, EMIT
VARIABLES st, hist, truth, know
vars == <<st, hist, truth, know>>
E(op, o, v, w) == [op |-> op, o |-> o, v |-> v, w |-> w]
Events == UNION {
  {E("copy", o, 0, 0) : o \in DOMAIN st},
  {E("describe", o, 1, w) : o \in DOMAIN st, w \in 1..2} \cup {E("describe", o, 2, 1) : o \in DOMAIN st},
  {E("override", o, v, 0) : o \in DOMAIN st, v \in {0, 1}},
  {E("flag", o, v, 0) : o \in DOMAIN st, v \in 1..2},
  {E("replace", o, v, 0) : o \in DOMAIN st, v \in 1..2},
  {E("constrain", o, 0, 0) : o \in DOMAIN st},
  {E("bounds", o, v, 0) : o \in DOMAIN st, v \in 1..2}}
(* knowledge: configurations with at most 4 variables, one hidden set of useful variables, points with values -1..2 *)
Confs == {[fun |-> f, bd |-> y[1], nb |-> y[2], dim |-> y[3], agg |-> a, noise |-> n, dis |-> n] : f \in {"sphere", "cigar", "rosenbrock"}, a \in {"max", "sum"}, n \in BOOLEAN,
          y \in {<<2, 1, 2>>, <<2, 1, 3>>, <<1, 2, 3>>, <<2, 2, 4>>}}
ConfsOk == {c \in Confs : c.fun # "rosenbrock" \/ c.bd = 2}
Points(n) == [1..n -> {0 - 1, 0, 2}]
Init ==
  /\ hist = <<>>
  /\ IF Mode = "objects" THEN st = <<Fresh>> /\ truth = <<>> /\ know = <<>>
     ELSE \E c \in ConfsOk : \E I \in UsefulSets(c) : st = c /\ truth = I /\ know = <<UsefulSets(c)>>
Objects == \E e \in Events :
  /\ e.op = "copy" => Len(st) < 3
  /\ st' = After(st, e)
  /\ hist' = Append(hist, e)
  /\ UNCHANGED <<truth, know>>
Query == \E x \in Points(st.dim), op \in {"eval", "call"} :
  LET noisy == op = "call" /\ Noisy(st, truth, x)
      e == [op |-> op, o |-> 1, x |-> x, whole |-> ~noisy, val |-> IF noisy THEN 0 ELSE Value(st, truth, x)] IN
  /\ know' = Learn(st, know, e)
  /\ hist' = Append(hist, 1)
  /\ UNCHANGED <<st, truth>>
Next == Len(hist) < Depth /\ (IF Mode = "objects" THEN Objects ELSE Query) /\ (EMIT /\ Len(hist') = Depth => Say(hist'))
Spec == Init /\ [][Next]_vars
(* a copy is in the same case, independent instances *)
Latest == hist[Len(hist)]
InvCopy == (Mode = "objects" /\ hist # <<>>) => (Latest.op = "copy" =>
  LET o == st[Latest.o] IN IF CanCopy(o) THEN st[Len(st)] = o /\ SameCase(st[Len(st)], o) ELSE TRUE)
PropIndependent == [][Mode = "objects" => \A o \in DOMAIN st : o # hist'[Len(hist')].o => st'[o] = st[o]]_vars
(* the truth is never excluded, knowledge never decreases *)
InvKnow == Mode = "know" => truth \in know[1] /\ (Len(hist) > 0 => know[1] # {})
PropLearn == [][Mode = "know" => know'[1] \subseteq know[1]]_vars
(* two sets of useful variables which cannot be told apart by noise-free values *)
InvBlocks == Mode = "know" => \A I \in know[1] : Cardinality(I) = st.bd * st.nb
(* reflections form a group of 2^n distinct functions, reflections of bounded domains stay in them *)
InvReflect == \A mid \in {<<0, 0, 0>>, <<1, 4, 10>>} : \A m, k \in SUBSET (1..3) : LET x == <<1, 3, 4>> IN
  /\ Reflect(Reflect(x, mid, m), mid, m) = x
  /\ Reflect(Reflect(x, mid, m), mid, k) = Reflect(x, mid, (m \cup k) \ (m \cap k))
  /\ m # k => Reflect(x, mid, m) # Reflect(x, mid, k)
=============================================================================

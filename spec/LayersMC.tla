----------------------------- MODULE LayersMC -----------------------------
(* all the stacks of operations up to Depth, then all the sequences of       *)
(* assignments and standardized data up to MaxOps                            *)
EXTENDS Layers
CONSTANTS Depth, MaxOps, Rich, EMIT
VARIABLES p, ref, hist, ops, phase
Y(o) == o @@ [v |-> 0, n |-> 1, d |-> 1, lo |-> NONE, hi |-> NONE]
LayerSet ==
  {Y([op |-> "add", v |-> 96]), Y([op |-> "mul", n |-> -1]), Y([op |-> "mul", n |-> 2]), Y([op |-> "mul", d |-> 2]),
   Y([op |-> "mod", v |-> 128]), Y([op |-> "clip", lo |-> -64, hi |-> 128]), Y([op |-> "bounce", lo |-> -160, hi |-> 192]),
   Y([op |-> "bounce", lo |-> -32, hi |-> 32])} \cup
  (IF Rich THEN {Y([op |-> "clip", hi |-> 96]), Y([op |-> "clip", lo |-> -96]), Y([op |-> "add", v |-> -32]), Y([op |-> "mul", n |-> -2])} ELSE {})
Values == IF Rich THEN {-192, -64, -32, 0, 32, 64, 96, 128, 256} ELSE {-96, 0, 32, 64, 128}
Datas == IF Rich THEN {-1024, -320, -96, -32, 32, 64, 96, 160, 448} ELSE {-320, -96, 32, 160, 448}
TypeInit == p = [st |-> <<>>, int |-> FALSE, root |-> <<0>>]
Init == TypeInit /\ ref = 0 /\ hist = <<>> /\ ops = 0 /\ phase = "build"
Build == /\ phase = "build" /\ Len(p.st) < Depth
         /\ \E y \in LayerSet : LET q == Push(p, y) IN
              /\ p' = q.p /\ hist' = Append(hist, [k |-> "push", y |-> y])
              /\ phase' = IF q.ok THEN "build" ELSE "end"
         /\ UNCHANGED <<ref, ops>>
Cast == /\ phase = "build" /\ ~p.int /\ p' = [p EXCEPT !.int = TRUE] /\ hist' = Append(hist, [k |-> "int"]) /\ UNCHANGED <<ref, ops, phase>>
Ready == /\ phase = "build" /\ p.st # <<>> /\ phase' = "ops" /\ LET x == Value(p) IN p' = x.p /\ ref' = x.p.root[1]
         /\ hist' = Append(hist, [k |-> "read"]) /\ UNCHANGED ops
Do == /\ phase = "ops" /\ ops < MaxOps /\ ops' = ops + 1
      /\ \/ \E v \in Values : LET a == Assign(p, <<v>>) IN
              /\ p' = IF a.ok THEN Value(a.p).p ELSE p
              /\ hist' = Append(hist, [k |-> "set", v |-> <<v>>]) /\ phase' = IF a.ok THEN "ops" ELSE "end"
         \/ \E d \in Datas : p' = SetData(p, <<d>>, <<ref>>).p /\ hist' = Append(hist, [k |-> "std", d |-> <<d>>]) /\ UNCHANGED phase
      /\ UNCHANGED ref
Emit == phase = "end" \/ (phase = "ops" /\ ops = MaxOps)
Next == (Build \/ Cast \/ Ready \/ Do) /\ (EMIT /\ Emit' => Say(hist'))
Spec == Init /\ [][Next]_<<p, ref, hist, ops, phase>>

(* the value is always in the domain, and reading it again does not change it *)
NestedHalf == \E i \in DOMAIN p.st : p.st[i].op = "clip" /\ (p.st[i].lo = NONE \/ p.st[i].hi = NONE) /\ \E j \in DOMAIN p.st : j # i /\ IsBound(p.st[j])
(* (there may be no integer within the bounds) *)
SomeInteger == LET d == Domain(p.st, 1, -INF, INF) IN Ceil(d[1]) <= Floor(d[2])
InvClosure == ~NestedHalf /\ (p.int => SomeInteger) => InDomain(p, Value(p).v)
InvStable == LET a == Value(p)  b == Value(a.p) IN b = a
(* without modulo, an accepted value is the value *)
Mods == \E i \in DOMAIN p.st : p.st[i].op = "mod"
InvRoundTrip == phase = "ops" /\ ~p.int /\ ~Mods => \A v \in Values : LET a == Assign(p, <<v>>) IN a.ok => Value(a.p).v = <<v>>
(* values of the domain can be set *)
InvSettable == phase = "ops" /\ ~NestedHalf /\ ~Mods => \A v \in Values : InDomain(p, <<v>>) <=> Assign(p, <<v>>).ok
(* integers are within one half of the real value, or at the border *)
InvInteger == p.int => \A i \in DOMAIN p.root : Value(p).v[i] % U = 0
=============================================================================

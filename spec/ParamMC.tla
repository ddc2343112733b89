------------------------------ MODULE ParamMC ------------------------------
EXTENDS Param
CONSTANTS MaxLen, MaxObjs, EMIT
VARIABLES objs, hist, done
vars == <<objs, hist, done>>
Det == <<FALSE>>
Init == objs = <<Fresh(<<0>>, 1)>> /\ hist = <<>> /\ done = FALSE
Do(e) == /\ objs' = After(objs, e, Det) /\ hist' = Append(hist, e) /\ UNCHANGED done
Op(i) ==
  \/ /\ Len(objs) < MaxObjs
     /\ \/ \E k \in {"copy", "spawn", "sample"} : Do([k |-> k, o |-> i])
        \/ Do([k |-> "spawnv", o |-> i, v |-> 1])
  \/ \E v \in {1, 2} : Do([k |-> "set", o |-> i, v |-> v])
  \/ Do([k |-> "subset", o |-> i, v |-> 2])
  \/ \E r \in DOMAIN objs : Do([k |-> "setstd", o |-> i, r |-> r, v |-> 2])
  \/ \E r \in DOMAIN objs \ {i} : Do([k |-> "recombine", o |-> i, r |-> r])
  \/ Do([k |-> "mutate", o |-> i])
  \/ Do([k |-> "freeze", o |-> i])
  \/ Do([k |-> "mark", o |-> i, v |-> Len(hist) + 1])
  \/ Do([k |-> "seed", o |-> i, v |-> Len(hist) + 2])
Next == \/ Len(hist) < MaxLen /\ \E i \in DOMAIN objs : Op(i)
        \/ Len(hist) = MaxLen /\ ~done /\ (EMIT => Say(hist)) /\ done' = TRUE /\ UNCHANGED <<objs, hist>>
Spec == Init /\ [][Next]_vars
InvGeneration == \A i \in DOMAIN objs : LET x == objs[i] IN
  /\ x.par < i
  /\ x.par # 0 => (x.gen > objs[x.par].gen /\ x.lin = objs[x.par].lin)
  /\ x.lin <= i /\ objs[x.lin].lin = x.lin /\ objs[x.lin].gen <= x.gen
(* a frozen instance never changes value; only one instance changes at a time *)
ActFrozen == [][\A i \in DOMAIN objs : objs[i].fr => objs'[i].v = objs[i].v /\ objs'[i].fr]_vars
ActFrame == [][Cardinality({i \in DOMAIN objs : objs'[i] # objs[i]}) <= 1]_vars
ActCreation == [][Len(objs') > Len(objs) => \A i \in DOMAIN objs : objs'[i] = objs[i]]_vars
=============================================================================

------------------------------ MODULE ReplayMC ------------------------------
(* A machine with an arbitrary deterministic behaviour (a hash of its inputs) *)
(* seen through two replicas, saves and loads: the tree of the sequences of   *)
(* inputs explains all the answers. Emits the schedules.                      *)
EXTENDS Replay
CONSTANTS MaxLen, Replicas, Noises, EMIT
VARIABLES st, real, files, hist, ok, pend
vars == <<st, real, files, hist, ok, pend>>
Inputs == {"ask", "told0", "told1", "told2", "sug", "rec"}
Code(i) == CASE i = "ask" -> 1 [] i = "told0" -> 2 [] i = "told1" -> 3 [] i = "told2" -> 4 [] i = "sug" -> 5 [] i = "rec" -> 6
Step(x, i) == (7 * x + Code(i)) % 1009
Out(x, i) == (x * 31 + Code(i)) % 13
Init == st = Start(Replicas) /\ real = [r \in 1..Replicas |-> 1] /\ files = <<>> /\ hist = <<>> /\ ok = TRUE /\ pend = [r \in 1..Replicas |-> 0]
In(r, i) ==
  LET out == Out(real[r], i) IN
  /\ (i \in {"told0", "told1", "told2"} => pend[r] > 0)
  /\ pend' = [pend EXCEPT ![r] = IF i = "ask" THEN @ + 1 ELSE IF i \in {"told0", "told1", "told2"} THEN @ - 1 ELSE @]
  /\ ok' = (ok /\ out = Expected(st, r, i, out))
  /\ st' = After(st, [k |-> "in", r |-> r, i |-> i, out |-> out])
  /\ real' = [real EXCEPT ![r] = Step(@, i)] /\ hist' = Append(hist, [k |-> "in", r |-> r, i |-> i]) /\ UNCHANGED files
SaveR(r) == /\ Len(files) < 2 /\ files' = Append(files, <<real[r], pend[r]>>) /\ st' = Save(st, r) /\ hist' = Append(hist, [k |-> "save", r |-> r]) /\ UNCHANGED <<real, ok, pend>>
LoadR(r, s) == /\ real' = [real EXCEPT ![r] = files[s][1]] /\ pend' = [pend EXCEPT ![r] = files[s][2]]
               /\ st' = Load(st, r, s) /\ hist' = Append(hist, [k |-> "load", r |-> r, s |-> s]) /\ UNCHANGED <<files, ok>>
None(r, w) == /\ hist' = Append(hist, [k |-> "none", r |-> r, w |-> w]) /\ UNCHANGED <<st, real, files, ok, pend>>
Next == /\ Len(hist) < MaxLen
        /\ \E r \in 1..Replicas : (\E i \in Inputs : In(r, i)) \/ SaveR(r) \/ (\E s \in DOMAIN files : LoadR(r, s)) \/ (\E w \in Noises : None(r, w))
        /\ (EMIT /\ Len(hist') = MaxLen => Say(hist'))
Spec == Init /\ [][Next]_vars
InvFunctional == ok
(* the same node is the same state of the machine *)
InvNodes == \A r, q \in 1..Replicas : st.node[r] = st.node[q] => real[r] = real[q]
=============================================================================

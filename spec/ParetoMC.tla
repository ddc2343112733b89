------------------------------ MODULE ParetoMC ------------------------------
EXTENDS Pareto
CONSTANTS N, D, MaxV, UB, AUTO, EMIT     \* UB: every upper bound (0: estimated from the first AUTO tells)
VARIABLES st, hist, done
vars == <<st, hist, done>>

RECURSIVE Vectors(_)
Vectors(d) == IF d = 0 THEN {<<>>} ELSE {<<x>> \o v : x \in 0..MaxV, v \in Vectors(d - 1)}
Init == /\ st = (IF UB = 0 THEN StInit(AUTO) ELSE Reference(StInit(0), [i \in 1..D |-> UB]))
        /\ hist = <<>> /\ done = FALSE
TellOne == /\ Len(hist) < N
           /\ \E v \in Vectors(D) :
                /\ st' = Tell(st, [id |-> Len(hist) + 1, v |-> v])
                /\ hist' = Append(hist, v)
           /\ UNCHANGED done
Finish == Len(hist) = N /\ ~done /\ (EMIT => Say(hist)) /\ done' = TRUE /\ UNCHANGED <<st, hist>>
Next == TellOne \/ Finish
Spec == Init /\ [][Next]_vars

InvFront == NonDominated(Front(st.raw))
InvCover == Covered(Front(st.raw), MustCover(st))
InvVolume == st.inb => st.vol = VolumeOf(st)
(* the front has the whole volume: it has the same hypervolume as all the told points *)
InvFrontVolume == st.inb => Volume({p.v : p \in {q \in Front(st.raw) : Leq(q.v, st.ub)}}, st.ub) = st.vol
VolumeGrows == [][st.inb => st'.vol >= st.vol]_vars
=============================================================================

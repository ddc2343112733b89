----------------------------- MODULE RankingMC -----------------------------
EXTENDS Ranking
CONSTANTS N, D, MaxV, EMIT
VARIABLES p, done
RECURSIVE Vectors(_)
Vectors(d) == IF d = 0 THEN {<<>>} ELSE {<<x>> \o v : x \in 0..MaxV, v \in Vectors(d - 1)}
Init == p = <<>> /\ done = FALSE
Add == /\ Len(p) < N /\ ~done /\ \E v \in Vectors(D) : p' = Append(p, v) /\ UNCHANGED done
Finish == Len(p) > 0 /\ ~done /\ (EMIT => Say(p)) /\ done' = TRUE /\ UNCHANGED p
Next == Add \/ Finish
Spec == Init /\ [][Next]_<<p, done>>
InvPartition == LET fr == Fronts(p) IN
  /\ UNION {fr[k] : k \in DOMAIN fr} = DOMAIN p
  /\ \A a, b \in DOMAIN fr : a # b => fr[a] \cap fr[b] = {}
InvDepth == LET fr == Fronts(p) IN \A i \in DOMAIN p : FrontOf(fr, i) = Depth(p, i)
(* each point out of the first front is dominated by a point of the previous one *)
InvChain == LET fr == Fronts(p) IN \A k \in DOMAIN fr : k > 1 =>
  \A j \in fr[k] : \E i \in fr[k - 1] : Dom(p, i, j)
=============================================================================

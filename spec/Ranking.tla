------------------------------ MODULE Ranking ------------------------------
(***************************************************************************)
(* Non-dominated ranking with crowding (NSGA-II): population p is a          *)
(* sequence of loss vectors; individuals are their indices.                 *)
(***************************************************************************)
EXTENDS TraceIO
BIG == 1000000000
Leq(a, b) == \A i \in DOMAIN a : a[i] <= b[i]
Dom(p, i, j) == Leq(p[i], p[j]) /\ p[i] # p[j]          \* i dominates j

(* fronts by peeling: front 0 is not dominated, front k+1 is not dominated once fronts 0..k are removed *)
RECURSIVE Peel(_, _)
Peel(p, S) == IF S = {} THEN <<>>
              ELSE LET F == {j \in S : ~\E i \in S : Dom(p, i, j)} IN <<F>> \o Peel(p, S \ F)
Fronts(p) == Peel(p, DOMAIN p)
FrontOf(fr, i) == CHOOSE k \in DOMAIN fr : i \in fr[k]

(* the same through the longest chain of dominating points: used as an invariant of the definition *)
RECURSIVE Depth(_, _)
Depth(p, j) == LET D == {i \in DOMAIN p : Dom(p, i, j)} IN
               IF D = {} THEN 1 ELSE 1 + SetMax({Depth(p, i) : i \in D})

(* crowding distance (times 1000) in a front without ties; BIG for the extreme points *)
TieFree(p, F) == \A i, j \in F : i # j => \A d \in DOMAIN p[i] : p[i][d] # p[j][d]
RECURSIVE Crowd(_, _, _, _)
Crowd(p, F, i, d) ==
  IF d = 0 THEN 0 ELSE
  LET lo == {j \in F : p[j][d] < p[i][d]}   hi == {j \in F : p[j][d] > p[i][d]} IN
  IF lo = {} \/ hi = {} THEN BIG ELSE
  LET rest == Crowd(p, F, i, d - 1)
      all == {p[j][d] : j \in F}
      gap == SetMin({p[j][d] : j \in hi}) - SetMax({p[j][d] : j \in lo})
  IN IF rest >= BIG THEN BIG ELSE rest + (1000 * gap) \div (SetMax(all) - SetMin(all))
CrowdOf(p, F, i) == Crowd(p, F, i, Len(p[i]))

(* sel: function from the selected individuals to [rank, front, crowd]; k: number to select (0: all) *)
Clauses(p, k, sel) ==
  LET fr == Fronts(p)
      n == Len(p)
      want == IF k = 0 \/ k >= n THEN n ELSE k
      S == DOMAIN sel
      lastf == SetMax({0} \cup {FrontOf(fr, i) : i \in S})
      D == IF n = 0 THEN 0 ELSE Len(p[1])
  IN <<
   <<"number_of_selected", Cardinality(S) = want>>,
   <<"front_index", \A i \in S : sel[i].front = FrontOf(fr, i) - 1>>,
   <<"better_fronts_first", \A i \in S : \A j \in DOMAIN p \ S : FrontOf(fr, i) <= FrontOf(fr, j)>>,
   <<"never_dominated_by_an_unselected", \A i \in S : \A j \in DOMAIN p \ S : ~Dom(p, j, i)>>,
   <<"ranks_follow_fronts", \A i, j \in S : FrontOf(fr, i) < FrontOf(fr, j) => sel[i].rank < sel[j].rank>>,
   <<"crowded_points_last_in_cut_front", \A i, j \in S :
        (FrontOf(fr, i) = FrontOf(fr, j) /\ sel[i].rank < sel[j].rank) => sel[i].crowd >= sel[j].crowd>>,
   <<"extreme_points_have_infinite_distance", \A f \in DOMAIN fr : (fr[f] \subseteq S) =>
        \A d \in 1..D : \A m \in {SetMin({p[i][d] : i \in fr[f]}), SetMax({p[i][d] : i \in fr[f]})} :
          \E i \in fr[f] : p[i][d] = m /\ sel[i].crowd >= BIG>>,
   <<"crowding_distance", \A f \in DOMAIN fr : TieFree(p, fr[f]) =>
        \A i \in fr[f] \cap S : (k = 0 \/ ~(fr[f] \subseteq S)) =>
          LET c == CrowdOf(p, fr[f], i) IN
          IF c >= BIG THEN sel[i].crowd >= BIG ELSE Abs(sel[i].crowd - c) <= D + 1>>,
   <<"least_crowded_of_the_cut_front", \A f \in DOMAIN fr : TieFree(p, fr[f]) =>
        \A i \in fr[f] \cap S : \A j \in fr[f] \ S : CrowdOf(p, fr[f], i) >= CrowdOf(p, fr[f], j) - D - 1>> >>
=============================================================================

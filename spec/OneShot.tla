----------------------------- MODULE OneShot -----------------------------
(* One shot sampling: stratified and low discrepancy sequences of [0,1]^d,    *)
(* and the searches which map them to the domain.                             *)
(* Coordinates are exact: a coordinate of a Halton sequence in base b for the *)
(* index n (from 1) is a fraction with denominator b^L, L the number of       *)
(* digits of n, whose digits are those of n reversed and permuted.            *)
EXTENDS TraceIO
RECURSIVE Pow(_, _)
Pow(b, k) == IF k = 0 THEN 1 ELSE b * Pow(b, k - 1)
Prime(n) == n > 1 /\ \A m \in 2..n : (m * m <= n) => n % m # 0
(* digits of n in base b, the least significant first *)
RECURSIVE Digits(_, _)
Digits(n, b) == IF n = 0 THEN <<>> ELSE <<n % b>> \o Digits(n \div b, b)
NDigits(n, b) == Len(Digits(n, b))
(* digits of a fraction num / b^L, the most significant first *)
FracDigits(num, b, L) == [i \in 1..L |-> (num \div Pow(b, L - i)) % b]
RECURSIVE Value(_, _)
Value(d, b) == IF d = <<>> THEN 0 ELSE Value(SubSeq(d, 1, Len(d) - 1), b) * b + d[Len(d)]
(* numerator of the radical inverse of n, with permuted digits *)
Radical(n, b, perm) == Value([i \in 1..NDigits(n, b) |-> perm[Digits(n, b)[i]]], b)
(* what a point tells about the permutation: set of <<digit, image>> *)
Shown(n, num, b) == LET D == Digits(n, b)  F == FracDigits(num, b, Len(D)) IN {<<D[i], F[i]>> : i \in DOMAIN D}
Injection(R) == \A x, y \in R : (x[1] = y[1]) <=> (x[2] = y[2])
(* The points of a search. cfg: [kind, n (budget, 0: none), middle, opposition]. The budget without the middle point is *)
(* shared between the points of the sequence and their opposites. *)
SeqBudget(cfg) == LET n == cfg.n - (IF cfg.middle THEN 1 ELSE 0) IN IF cfg.n = 0 THEN 0 ELSE IF cfg.opposition # "none" THEN (n + 1) \div 2 ELSE n
Bounded(cfg) == cfg.n > 0
(* state: asks so far, index in the sequence, whether the previous point has to be opposed *)
Start == [asks |-> 0, idx |-> 0, opp |-> FALSE]
Kind(cfg, st) == IF cfg.middle /\ st.asks = 0 THEN "middle"
                 ELSE IF st.opp THEN "opposite"
                 ELSE IF Bounded(cfg) /\ st.idx >= SeqBudget(cfg) THEN "over" ELSE "point"
After(cfg, st, k) ==
  CASE k = "middle" -> [st EXCEPT !.asks = @ + 1]
    [] k = "opposite" -> [st EXCEPT !.asks = @ + 1, !.opp = FALSE]
    [] k = "point" -> [st EXCEPT !.asks = @ + 1, !.idx = @ + 1, !.opp = (cfg.opposition # "none")]
    [] k = "over" -> st
    [] k = "reinit" -> Start
(* Geometry which follows *)
(* strata of width 1/m: exactly one of the points of a complete sequence or window each *)
OneEach(S, m) == \A k \in 0..m - 1 : Cardinality({i \in DOMAIN S : S[i] = k}) = 1
=============================================================================

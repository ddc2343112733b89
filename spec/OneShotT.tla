----------------------------- MODULE OneShotT -----------------------------
(* cfg: [kind, n, middle, opposition, scrambled, dim, bases (one per          *)
(* coordinate, of the Halton part), rescaled]                                 *)
(* point [num (per coordinate: numerators), exact, inside, tok]               *)
(*   Halton: num over base^L; first coordinate of Hammersley: num over 2N;    *)
(*   LHS: number of the stratum                                               *)
(* rescaled sequences: final [order (per coordinate: indices by increasing    *)
(*   value), low, high (boundaries reached)]                                  *)
(* middle [zero]; opposite [ratio (millionths), line]; over; reinit           *)
EXTENDS OneShot
VARIABLES tid, l, bad, st, perm, used, toks
C == Traces[tid].cfg
Ev == Traces[tid].ev
First(c) == IF c.kind = "Hammersley" THEN 1 ELSE 0
Shows(c, e, idx) == [d \in 1..Len(c.bases) |-> perm[d] \cup Shown(idx + 1, e.num[d + First(c)], c.bases[d])]
Ident(b) == [i \in 0..b - 1 |-> i]
Less(i, j, b) == Radical(i + 1, b, Ident(b)) * Pow(b, NDigits(j + 1, b)) < Radical(j + 1, b, Ident(b)) * Pow(b, NDigits(i + 1, b))
NewPerm(e) == IF e.k = "point" /\ ~C.rescaled /\ C.kind \in {"Halton", "Hammersley"} THEN Shows(C, e, st.idx) ELSE perm
Clauses(e) ==
  LET kind == IF e.k \in {"reinit", "final"} THEN e.k ELSE Kind(C, st)
      point == kind = "point" /\ e.k = "point" /\ ~C.rescaled
      halton == point /\ C.kind \in {"Halton", "Hammersley"}
      np == NewPerm(e) IN
  <<<<"order_of_the_points", e.k = kind>>,
    <<"bases_are_the_first_prime_numbers", l > 0 \/ (/\ \A i \in 1..Len(C.bases) : Prime(C.bases[i])
                                                    /\ \A i \in 1..Len(C.bases) : \A m \in (IF i = 1 THEN 2 ELSE C.bases[i - 1] + 1)..C.bases[i] - 1 : ~Prime(m))>>,
    <<"points_are_in_the_unit_cube", point => e.inside>>,
    <<"coordinates_are_radical_inverses", halton => e.exact /\ \A d \in 1..Len(C.bases) : Injection(np[d]) /\ \A x \in np[d] : (x[1] = 0) <=> (x[2] = 0)>>,
    <<"no_permutation_without_scrambling", (halton /\ ~C.scrambled) => \A d \in 1..Len(C.bases) : \A x \in np[d] : x[1] = x[2]>>,
    <<"first_coordinate_is_evenly_spaced", (point /\ C.kind = "Hammersley") => e.exact /\ e.num[1] = 2 * st.idx + 1>>,
    <<"one_point_per_stratum", (point /\ C.kind = "LHS") => \A d \in 1..C.dim : e.num[d] \in 0..SeqBudget(C) - 1 /\ e.num[d] \notin used[d]>>,
    <<"reinitialized_sequence_is_the_same", (point /\ C.kind # "Random" /\ st.idx + 1 <= Len(toks)) => e.tok = toks[st.idx + 1]>>,
    <<"rescaled_points_reach_the_boundaries", e.k = "final" => e.low /\ e.high>>,
    <<"rescaled_points_keep_their_order", e.k = "final" => \A d \in 1..Len(C.bases) : \A i \in 1..Len(e.order[d]) - 1 : Less(e.order[d][i], e.order[d][i + 1], C.bases[d])>>,
    <<"middle_point", (kind = "middle" /\ e.k = "middle") => e.zero>>,
    <<"opposite_of_the_previous_point", (kind = "opposite" /\ e.k = "opposite") =>
        /\ e.line
        /\ CASE C.opposition = "opposite" -> e.ratio = -1000000
             [] C.opposition = "quasi" -> e.ratio \in -1000000..0
             [] OTHER -> e.ratio \in -1000000..-6737>>>>
NoPerm == [d \in 1..Len(C.bases) |-> {}]
NoUsed == [d \in 1..C.dim |-> {}]
TInit == /\ tid \in 1..Len(Traces) /\ l = 0 /\ bad = {} /\ st = Start /\ perm = NoPerm /\ used = NoUsed /\ toks = <<>>
TNext ==
  \/ /\ l >= 0 /\ l < Len(Ev) /\ bad = {}
     /\ LET e == Ev[l + 1] IN
          /\ bad' = Fails(Clauses(e))
          /\ IF bad' = {}
             THEN /\ st' = IF e.k = "final" THEN st ELSE After(C, st, e.k)
                  /\ perm' = NewPerm(e)
                  /\ used' = IF e.k = "reinit" THEN NoUsed ELSE IF e.k = "point" /\ C.kind = "LHS" THEN [d \in 1..C.dim |-> used[d] \cup {e.num[d]}] ELSE used
                  /\ toks' = IF e.k = "point" /\ st.idx + 1 > Len(toks) THEN Append(toks, e.tok) ELSE toks
             ELSE UNCHANGED <<st, perm, used, toks>>
     /\ l' = l + 1 /\ UNCHANGED tid
  \/ /\ l >= 0 /\ (l = Len(Ev) \/ bad # {})
     /\ Say([tid |-> tid, l |-> l, bad |-> bad])
     /\ l' = -1 /\ UNCHANGED <<tid, bad, st, perm, used, toks>>
=============================================================================

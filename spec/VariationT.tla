---------------------------- MODULE VariationT -----------------------------
(* array  [op, sh, axes, size, outs: observed arrays as sequences of origins (patch: sets of modified positions)]          *)
(* disc   [op, bins, par: bins, outs: modified arrays as sequences of <<same, bin>>, rate: expected modified variables x100] *)
(* mix    [kind, par, don: values (ranks), outs: sequences of <<rank or 0, sign>>, psign, dsign]                           *)
(* pick   [ranks of the points of the archive, num, got: ranks]                                                            *)
(* choice [n, k, consts, before, after: values of the options, idx, val, w: weights, det, want]                            *)
(* freq   [n, count, draws, w, total]; moves [n, t, i, count, draws]; mean [ins, out]; opt [name, exact, par, child]       *)
EXTENDS Variation
VARIABLES tid, l, bad
C == Traces[tid].cfg
Ev == Traces[tid].ev
Outs(e) == Range(e.outs)
ArrayClauses(e) ==
  LET n == Size(e.sh) IN
  CASE e.op = "roll" -> LET r == Rolls(e.sh, e.axes) IN
         <<<<"translation_along_the_axes", Outs(e) \subseteq r>>, <<"all_translations", r \subseteq Outs(e)>>>>
    [] e.op = "jump" -> LET r == Jumps(e.sh, e.axes[1], e.size) IN
         <<<<"one_chunk_is_moved", Outs(e) \subseteq r>>, <<"something_moves", e.sh[e.axes[1]] > 2 => \E o \in Outs(e) : o # Id(n)>>>>
    [] e.op = "cross" -> LET r == Crosses(e.sh, e.axes, e.size) IN
         <<<<"a_block_of_the_other_array", Outs(e) \subseteq r>>, <<"not_always_the_same_block", Cardinality(Outs(e)) > 1 \/ \A a \in AxesOf(e.sh, e.axes) : e.sh[a] = 2>>>>
    [] e.op = "ravel" -> LET r == Crosses(<<n>>, <<>>, e.size) IN
         <<<<"an_interval_of_the_other_array", Outs(e) \subseteq r>>, <<"not_always_the_same_block", Cardinality(Outs(e)) > 1 \/ n = 2>>>>
    [] e.op = "patch" -> LET r == Blocks(e.sh, e.axes, {e.size}) IN
         <<<<"modifications_inside_of_a_block", \A o \in Outs(e) : Range(o) \in r>>,
           <<"not_always_the_same_block", Cardinality({Range(o) : o \in Outs(e)}) > 1 \/ \A a \in AxesOf(e.sh, e.axes) : e.sh[a] = e.size + 1>>>>
DiscClauses(e) ==
  LET d == Len(e.par)  total == SumOf([i \in DOMAIN e.outs |-> Cardinality(Changed(e.par, e.outs[i]))]) IN
  <<<<"at_least_one_variable_is_modified", \A o \in Outs(e) : Changed(e.par, o) # {}>>,
    <<"modified_variables_change_their_bin", \A o \in Outs(e) : OtherBins(e.par, o)>>,
    <<"exactly_one_variable", e.op = "rls" => \A o \in Outs(e) : Cardinality(Changed(e.par, o)) = 1>>,
    <<"all_the_variables_can_be_modified", \A i \in 1..d : \E o \in Outs(e) : i \in Changed(e.par, o)>>,
    <<"number_of_modified_variables", e.rate > 0 => Abs(100 * total - e.rate * Len(e.outs)) * 5 <= e.rate * Len(e.outs)>>>>
Mixed(e, o, don, mask) == \A i \in DOMAIN o : LET v == IF i \in mask THEN don[i] ELSE e.par[i] IN
  o[i][1] = v[1] \/ (o[i][1] = 0 /\ o[i][2] # v[2])
Lower(e) == {i \in DOMAIN e.par : e.don[i][1] < e.par[i][1]}
Rotated(e, k) == [i \in DOMAIN e.don |-> e.don[((i - 1 + k) % Len(e.don)) + 1]]
MixClauses(e) ==
  LET d == Len(e.par) IN
  <<<<"values_come_from_the_parents",
      \A o \in Outs(e) :
        CASE e.kind \in {"max", "min"} -> Mixed(e, o, e.don, Lower(e)) \/ Mixed(e, o, e.don, (1..d) \ Lower(e))
          [] e.kind = "rotation" -> \E k \in 1..(d - 1) : \A i \in 1..d : \E m \in {{}, {i}} : LET v == IF m = {} THEN e.par[i] ELSE Rotated(e, k)[i] IN o[i][1] = v[1] \/ (o[i][1] = 0 /\ o[i][2] # v[2])
          [] e.kind \in {"onepoint", "twopoint"} -> \E m \in Masks(d, e.kind, d) : Mixed(e, o, e.don, m)
          [] OTHER -> \A i \in 1..d : o[i][1] \in {0, e.par[i][1], e.don[i][1]} /\ (o[i][1] = 0 => o[i][2] # e.par[i][2] \/ o[i][2] # e.don[i][2])>>,
    <<"at_least_one_variable_is_modified", \A o \in Outs(e) : \E i \in 1..d : o[i][1] = 0>>,
    <<"both_parents_contribute", e.kind \notin {"max", "min"} => \A i \in 1..d : \E o, q \in Outs(e) : o[i][1] = e.par[i][1] /\ q[i][1] # o[i][1] /\ q[i][1] # 0>>>>
PickClauses(e) ==
  LET n == Len(e.ranks)  num == IF e.num = 0 THEN SetMin({k \in 1..(n + 1) : k * k >= n}) ELSE SetMin({e.num, n}) IN
  <<<<"one_of_the_best_of_the_tournament", \A g \in Range(e.got) : g \in Range(e.ranks) /\ Cardinality({i \in DOMAIN e.ranks : e.ranks[i] >= g}) >= num>>,
    <<"not_always_the_same_winner", num < n => Cardinality(Range(e.got)) > 1>>,
    <<"the_last_ones_of_the_possible_winners_can_win", Cardinality(Range(e.got)) >= (IF n - num + 1 > 3 THEN 2 ELSE 1)>>>>
ChoiceClauses(e) ==
  LET sel == Range(e.idx)  mod == {i \in 1..e.n : e.before[i] # e.after[i]} IN
  <<<<"indices_of_the_options", sel \subseteq 1..e.n /\ Len(e.idx) = e.reps>>,
    <<"value_of_the_selected_options", e.val = [r \in DOMAIN e.idx |-> e.after[e.idx[r]]]>>,
    <<"constant_options_are_constant", \A i \in mod : ~e.consts[i]>>,
    <<"only_selected_options_are_mutated", e.k = "mutate" => mod \subseteq sel>>,
    <<"selected_options_are_mutated", e.k = "mutate" => \A i \in sel : e.consts[i] \/ i \in mod>>,
    <<"assigned_options", e.k = "set" => e.val = e.want /\ mod = {}>>,
    <<"deterministic_choices_take_the_largest_weight", (e.det /\ e.k # "set" /\ e.w # <<>>) => \A r \in DOMAIN e.idx : e.idx[r] = ArgMax(e.w[r])>>>>
FreqClauses(e) == <<<<"draws_follow_the_weights", SumOf(e.count) = e.draws /\ \A i \in DOMAIN e.count : Frequency(e.count[i], e.draws, e.w[i], SumOf(e.w))>>>>
MovesClauses(e) == <<<<"transitions_follow_their_weights", SumOf(e.count) = e.draws /\ \A j \in DOMAIN e.count : Frequency(e.count[j], e.draws, MoveWeight(e.n, e.t, e.i, j), 2 * SumOf(e.t))>>>>
MeanClauses(e) == <<<<"recombination_is_the_average", \A i \in DOMAIN e.out : Abs(Len(e.ins) * e.out[i] - SumOf([k \in DOMAIN e.ins |-> e.ins[k][i]])) <= 2 * Len(e.ins)>>>>
BinsClauses(e) ==
  <<<<"bins_are_quantiles", \A i \in DOMAIN e.bins : e.bins[i] = ((i - 1) * e.n) \div Len(e.bins)>>,
    <<"bins_of_extreme_values", e.low = 0 /\ e.high = e.n - 1 /\ e.nan = 0>>,
    <<"representatives_are_in_their_bin", e.back = [i \in 1..e.n |-> i - 1] /\ e.noisy = [i \in 1..e.n |-> i - 1]>>>>
OptClauses(e) ==
  LET mod == {i \in DOMAIN e.par : e.par[i] # e.child[i]} IN
  <<<<"new_points_differ_from_their_parent", mod # {}>>, <<"exactly_one_variable", e.exact => Cardinality(mod) = 1>>>>
Clauses(e) ==
  CASE e.k = "array" -> ArrayClauses(e) [] e.k = "disc" -> DiscClauses(e) [] e.k = "mix" -> MixClauses(e) [] e.k = "pick" -> PickClauses(e)
    [] e.k \in {"mutate", "sample", "set", "data"} -> ChoiceClauses(e)
    [] e.k = "freq" -> FreqClauses(e) [] e.k = "moves" -> MovesClauses(e) [] e.k = "mean" -> MeanClauses(e) [] e.k = "bins" -> BinsClauses(e) [] e.k = "opt" -> OptClauses(e)
    [] e.k = "error" -> << <<"no_error", FALSE>> >>
TInit == /\ tid \in 1..Len(Traces) /\ l = 0 /\ bad = {}
TNext ==
  \/ /\ l >= 0 /\ l < Len(Ev) /\ bad = {}
     /\ bad' = Fails(Clauses(Ev[l + 1]))
     /\ l' = l + 1 /\ UNCHANGED tid
  \/ /\ l >= 0 /\ (l = Len(Ev) \/ bad # {})
     /\ Say([tid |-> tid, l |-> l, bad |-> bad])
     /\ l' = -1 /\ UNCHANGED <<tid, bad>>
=============================================================================

------------------------------ MODULE LayoutT ------------------------------
(* values of leaves: sequences indexed by the identifiers of the leaves      *)
EXTENDS Layout
VARIABLES tid, l, bad, ly, offs
Cfg == Traces[tid].cfg
Ev == Traces[tid].ev
Is(i, k) == ly[i].k = k
Seg(i, data) == SubSeq(data, offs[i] + 1, offs[i] + ly[i].d)
DimClauses(e) == <<
  <<"dimension_is_the_sum", e.dim = Dim(ly)>>,
  <<"dimension_of_the_data", e.size = Dim(ly)>>,
  <<"data_to_self_is_zero", \A i \in DOMAIN e.zero : e.zero[i] = 0>>,
  <<"listed_in_the_order_of_the_data", e.leaves = [i \in DOMAIN ly |-> <<ly[i].id, ly[i].d>>]>> >>
(* data set with a reference: each leaf depends on its own segment and on the reference only *)
SetClauses(e) == <<
  <<"affine_leaves", \A i \in DOMAIN ly : Is(i, "arr") => e.out[ly[i].id] = SetLeaf(ly[i], e.ref[ly[i].id], Seg(i, e.data))>>,
  <<"most_likely_choices", \A i \in DOMAIN ly : Is(i, "soft") => e.out[ly[i].id] = SetSoft(ly[i], e.wref[ly[i].id], Seg(i, e.data))>>,
  <<"choices_in_range", \A i \in DOMAIN ly : Is(i, "tran") => \A j \in DOMAIN e.out[ly[i].id] : e.out[ly[i].id][j] \in 0..(ly[i].n - 1)>>,
  <<"options_follow_the_data", \A i \in DOMAIN ly : Is(i, "tran") => \A j \in 1..ly[i].d :
       LET x == Seg(i, e.data)[j]  o == e.out[ly[i].id][j]  r == e.ref[ly[i].id][j]  n == ly[i].n IN
         (x >= 0 => o >= r) /\ (x <= 0 => o <= r) /\ (x >= 3 /\ n <= 4 => o = n - 1) /\ (x <= -3 /\ n <= 4 => o = 0)>>,
  <<"value_of_the_selected_options", e.value = Flat(Cfg.tree, e.out)>>,
  <<"null_data_is_the_reference", \A i \in DOMAIN ly : (\A j \in DOMAIN Seg(i, e.data) : Seg(i, e.data)[j] = 0) =>
                                     (Is(i, "tran") => e.out[ly[i].id] = e.ref[ly[i].id])>>,
  <<"reference_is_unchanged", e.ref2 = e.ref>>,
  <<"data_back", e.back = [j \in 1..Dim(ly) |-> IF \E i \in DOMAIN ly : Is(i, "tran") /\ j > offs[i] /\ j <= offs[i] + ly[i].d
                                                  THEN e.back[j] ELSE e.data[j]]>> >>
GetClauses(e) == <<
  <<"affine_data", \A i \in DOMAIN ly : Is(i, "arr") => Seg(i, e.data) = GetLeaf(ly[i], e.ref[ly[i].id], e.val[ly[i].id])>>,
  <<"value_is_unchanged", e.val2 = e.val /\ e.ref2 = e.ref>>,
  <<"value_of_the_leaves", e.value = Flat(Cfg.tree, e.val)>>,
  <<"round_trip", e.round = e.val>> >>
Bad(e) == Fails(CASE e.k = "dim" -> DimClauses(e) [] e.k = "set" -> SetClauses(e) [] e.k = "get" -> GetClauses(e)
                  [] OTHER -> << <<"unknown_event", FALSE>> >>)
TInit == /\ tid \in 1..Len(Traces) /\ l = 0 /\ bad = {}
         /\ ly = Layout(Cfg.tree) /\ offs = [i \in DOMAIN ly |-> Offset(ly, i)]
TNext ==
  \/ /\ l >= 0 /\ l < Len(Ev) /\ bad = {}
     /\ bad' = Bad(Ev[l + 1])
     /\ l' = l + 1 /\ UNCHANGED <<tid, ly, offs>>
  \/ /\ l >= 0 /\ (l = Len(Ev) \/ bad # {})
     /\ Say([tid |-> tid, l |-> l, bad |-> bad])
     /\ l' = -1 /\ UNCHANGED <<tid, bad, ly, offs>>
=============================================================================

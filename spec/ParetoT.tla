------------------------------ MODULE ParetoT ------------------------------
EXTENDS Pareto
VARIABLES tid, l, st, bad
Cfg == Traces[tid].cfg
Ev == Traces[tid].ev
Pt(e) == [id |-> e.id, v |-> e.v]
Points(s) == {[id |-> s[i].id, v |-> s[i].v] : i \in DOMAIN s}
Sub(F, e) == /\ Len(e.subset) = (IF e.size < Cardinality(F) THEN e.size ELSE Cardinality(F))
             /\ Cardinality({e.subset[i] : i \in DOMAIN e.subset}) = Len(e.subset)
             /\ {e.subset[i] : i \in DOMAIN e.subset} \subseteq {p.id : p \in F}

After(s, e) == IF e.k = "ref" THEN Reference(s, e.v) ELSE IF e.k = "tell" THEN Tell(s, Pt(e)) ELSE s

(* e.loss: scalar loss seen by the optimizer *)
TellClauses(s, e) ==
  LET n == After(s, e)
      improves == n.vol > s.vol \/ ~s.inb
  IN IF Cfg.nohv \/ s.auto > 0 THEN <<>>
     ELSE IF ~Leq(e.v, s.ub) THEN << <<"loss_over_the_bounds_is_positive", e.loss > 0>> >>
     ELSE << <<"improving_loss_is_the_negative_volume", improves => e.loss = -n.vol>>,
             <<"other_losses_are_not_better", ~improves => e.loss >= -n.vol>> >>

FrontClauses(s, e) ==
  LET F == Points(e.front) IN
  IF s.told = {} THEN << <<"front_without_tell_is_the_recommendation", Len(e.front) <= 1>> >>
  ELSE <<
   <<"front_has_told_points", F \subseteq s.told>>,
   <<"front_has_distinct_points", Cardinality({p.id : p \in F}) = Len(e.front)>>,
   <<"front_is_not_dominated", NonDominated(F)>>,
   <<"front_covers_the_told_points", Covered(F, MustCover(s))>>,
   <<"front_has_the_volume", (s.inb /\ ~Cfg.nohv) => Volume({p.v : p \in {q \in F : Leq(q.v, s.ub)}}, s.ub) = s.vol>>,
   <<"front_over_the_bounds_only_initially", (s.inb /\ ~Cfg.nohv) => \A p \in F : Leq(p.v, s.ub) \/ p \in s.raw>>,
   <<"subset", ~Has(e, "subset") \/ Sub(F, e)>> >>

Bad(s, e) == Fails(CASE e.k = "ref" -> <<>>
                     [] e.k = "tell" -> TellClauses(s, e)
                     [] e.k = "kept" -> << <<"front_provided_before_does_not_change", e.was = e.now>> >>
                     [] e.k = "front" -> FrontClauses(s, e)
                     [] OTHER -> << <<"unknown_event", FALSE>> >>)
TInit == tid \in 1..Len(Traces) /\ l = 0 /\ st = StInit(Cfg.auto) /\ bad = {}
TNext ==
  \/ /\ l >= 0 /\ l < Len(Ev) /\ bad = {}
     /\ LET e == Ev[l + 1]  b == Bad(st, e) IN
          /\ bad' = b
          /\ st' = IF b = {} THEN After(st, e) ELSE st
     /\ l' = l + 1 /\ UNCHANGED tid
  \/ /\ l >= 0 /\ (l = Len(Ev) \/ bad # {})
     /\ Say([tid |-> tid, l |-> l, bad |-> bad])
     /\ l' = -1 /\ UNCHANGED <<tid, st, bad>>
=============================================================================

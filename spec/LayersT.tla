------------------------------ MODULE LayersT ------------------------------
(* events: push/int/read/set/std with the observed value (64 units), then    *)
(* closure events, with bounds and values in millionths                      *)
EXTENDS Layers
VARIABLES tid, l, bad, p, ref
Cfg == Traces[tid].cfg
Ev == Traces[tid].ev
(* expected: [ok, v, p] *)
After(e) ==
  CASE e.k = "push" -> LET q == Push(p, e.y) IN [ok |-> q.ok, v |-> <<>>, p |-> q.p, see |-> FALSE]
    [] e.k = "int" -> [ok |-> TRUE, v |-> <<>>, p |-> [p EXCEPT !.int = TRUE], see |-> FALSE]
    [] e.k = "read" -> LET x == Value(p) IN [ok |-> TRUE, v |-> x.v, p |-> x.p, see |-> TRUE]
    [] e.k = "set" -> LET a == Assign(p, e.v) IN
         IF a.ok THEN LET x == Value(a.p) IN [ok |-> TRUE, v |-> x.v, p |-> x.p, see |-> TRUE] ELSE [ok |-> FALSE, v |-> <<>>, p |-> p, see |-> FALSE]
    [] e.k = "std" -> LET x == SetData(p, e.d, ref) IN [ok |-> TRUE, v |-> x.v, p |-> x.p, see |-> TRUE]
    [] OTHER -> [ok |-> TRUE, v |-> <<>>, p |-> p, see |-> FALSE]
In(x, lo, hi) == (lo = <<>> \/ x >= lo[1]) /\ (hi = <<>> \/ x <= hi[1])
Clauses(e, a) ==
  IF e.k = "in" THEN <<
    <<"value_within_the_bounds", \A i \in DOMAIN e.v : In(e.v[i], e.lo[i], e.hi[i])>>,
    <<"integers", e.int => \A i \in DOMAIN e.v : e.v[i] % 1000000 = 0>>,
    <<"constraint_is_the_bounds", e.con >= 0 => ((e.con = 1) <=> e.inside)>> >>
  ELSE IF e.k = "oneof" THEN << <<"value_is_one_of_the_choices", \A i \in DOMAIN e.v : e.v[i] \in 1..e.n>> >>
  ELSE IF e.k = "same" THEN << <<"set_value_is_the_value", e.eq>> >>
  ELSE <<
    <<"accepted_iff_within_the_bounds", e.ok = a.ok>>,
    <<"value_through_the_operations", a.ok /\ e.ok /\ a.see => e.val = a.v>>,
    <<"value_read_twice", a.ok /\ e.ok /\ a.see => e.val2 = e.val>>,
    <<"standardized_data", e.k # "read" /\ a.ok /\ e.ok /\ Has(e, "data") => e.data = [i \in DOMAIN ref |-> a.p.root[i] - ref[i]]>> >>
TInit == /\ tid \in 1..Len(Traces) /\ l = 0 /\ bad = {}
         /\ p = [st |-> <<>>, int |-> FALSE, root |-> Cfg.root] /\ ref = Cfg.root
TNext ==
  \/ /\ l >= 0 /\ l < Len(Ev) /\ bad = {}
     /\ LET a == After(Ev[l + 1]) IN
          /\ bad' = Fails(Clauses(Ev[l + 1], a))
          /\ p' = a.p /\ ref' = IF Ev[l + 1].k = "read" THEN a.p.root ELSE ref
     /\ l' = l + 1 /\ UNCHANGED tid
  \/ /\ l >= 0 /\ (l = Len(Ev) \/ bad # {})
     /\ Say([tid |-> tid, l |-> l, bad |-> bad])
     /\ l' = -1 /\ UNCHANGED <<tid, bad, p, ref>>
=============================================================================

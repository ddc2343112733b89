------------------------------ MODULE ParamT ------------------------------
(* event: operation, err: refused, obs: all instances after the operation    *)
(* [v, gen, sgen, par, lin, loss, tag, rs, srs (of a leaf), uid, h (hash)]    *)
EXTENDS Param
VARIABLES tid, l, objs, bad
Cfg == Traces[tid].cfg
Ev == Traces[tid].ev
Aft(o, e) == After(o, e, Cfg.stoch)
Allowed(x) == \* values which a leaf can take
  Cfg.finite => \A i \in DOMAIN x : x[i] \in 0..2
SameV(x, y) == \A i \in DOMAIN x : x[i] = Free \/ x[i] = y[i]
Same(x, y) == /\ SameV(x.v, y.v) /\ x.gen = y.gen /\ x.sgen = y.sgen /\ x.par = y.par /\ x.lin = y.lin
              /\ x.loss = y.loss /\ x.tag = y.tag /\ x.rs = y.rs
Clauses(o, e) ==
  LET n == Aft(o, e)  t == IF Creates(e.k) THEN Len(n) ELSE e.o IN
  IF Len(e.obs) # Len(n) THEN << <<"one_instance_per_creation", FALSE>> >> ELSE
  << <<"frozen_is_refused", Refused(o, e) => e.err>>,
     <<"no_other_failure", ~Refused(o, e) => ~e.err>>,
     <<"others_unchanged", \A i \in DOMAIN n \ {t} : Same(n[i], e.obs[i])>>,
     <<"frozen_value_unchanged", Refused(o, e) => SameV(o[e.o].v, e.obs[e.o].v)>>,
     <<"value", SameV(n[t].v, e.obs[t].v)>>,
     <<"value_in_the_domain", Allowed(e.obs[t].v)>>,
     <<"generation", n[t].gen = e.obs[t].gen /\ n[t].sgen = e.obs[t].sgen>>,
     <<"parent", n[t].par = e.obs[t].par>>,
     <<"lineage_and_heritage", n[t].lin = e.obs[t].lin /\ n[t].tag = e.obs[t].tag>>,
     <<"loss", n[t].loss = e.obs[t].loss>>,
     <<"random_state", n[t].rs = e.obs[t].rs /\ \A i \in DOMAIN n : e.obs[i].srs = e.obs[i].rs>>,
     <<"unique_uid", \A i \in DOMAIN n : e.obs[i].uid = i>>,
     <<"equal_hash_means_equal_value", \A i, j \in DOMAIN n : (e.obs[i].h # 0 /\ e.obs[i].h = e.obs[j].h) => e.obs[i].v = e.obs[j].v>>,
     <<"child_has_the_same_hash", (e.k \in {"copy", "spawn"} /\ ~(\E i \in DOMAIN Cfg.stoch : Cfg.stoch[i])) => e.obs[t].h = e.obs[e.o].h>> >>
(* the observed values replace the free ones *)
Update(o, e) == LET n == Aft(o, e) IN [i \in DOMAIN n |-> [n[i] EXCEPT !.v = e.obs[i].v]]
TInit == tid \in 1..Len(Traces) /\ l = 0 /\ objs = <<Fresh(Traces[tid].cfg.v0, 1)>> /\ bad = {}
TNext ==
  \/ /\ l >= 0 /\ l < Len(Ev) /\ bad = {}
     /\ LET e == Ev[l + 1]  b == Fails(Clauses(objs, e)) IN
          /\ bad' = b
          /\ objs' = IF b = {} THEN Update(objs, e) ELSE objs
     /\ l' = l + 1 /\ UNCHANGED tid
  \/ /\ l >= 0 /\ (l = Len(Ev) \/ bad # {})
     /\ Say([tid |-> tid, l |-> l, bad |-> bad])
     /\ l' = -1 /\ UNCHANGED <<tid, objs, bad>>
=============================================================================

------------------------------ MODULE AskTellT ------------------------------
(* Is each recorded trace of a real optimizer a behaviour of AskTell?       *)
EXTENDS AskTell
VARIABLES tid, l, st, bad
tvars == <<tid, l, st, bad>>

Cfg == Traces[tid].cfg
Ev == Traces[tid].ev
Group(g) == g \in Range(Cfg.groups)

Counters(n, e) == <<
  <<"num_ask", e.nask = n.nask>>,
  <<"num_tell", e.ntell = n.ntell>>,
  <<"num_tell_not_asked", e.nna = n.nna>> >>

(* optimizers without parallelization can refuse an ask while a candidate is outstanding *)
AskOk(s, e) == e.err = "" \/ (e.err = "TooManyAskError" /\ s.asked # {} /\ Has(Cfg, "refuse"))

AskClauses(s, e) ==
  LET n == After(s, e) IN
  (IF Group("acc") THEN Counters(n, e) \o <<
     <<"ask_failed", AskOk(s, e)>>,
     <<"candidate_is_fresh", e.err # "" \/ e.id \notin s.seen>>,
     <<"candidate_is_frozen", e.err # "" \/ e.frozen>> >> ELSE <<>>) \o
  (IF Group("sug") THEN <<
     <<"ask_failed", AskOk(s, e)>>,
     <<"counts_as_one_ask", e.nask = n.nask>>,
     <<"last_suggestion_first", (e.err = "" /\ Usable(s.sugg) # <<>>) => e.val = Usable(s.sugg)[Len(Usable(s.sugg))]>> >>
   ELSE <<>>)

SuggestClauses(s, e) ==
  IF Group("sug") \/ Group("acc") THEN Counters(s, e) ELSE <<>>

(* table: sequence of [pt, n, sum, min, est: <<optimistic, pessimistic, minimum, average>>] *)
(* bests: sequence over the 4 criteria of [pt, est]                                         *)
TableOk(n, e) ==
  /\ {e.table[i].pt : i \in DOMAIN e.table} = DOMAIN n.arch
  /\ Len(e.table) = Cardinality(DOMAIN n.arch)
RowOk(n, r) == LET a == n.arch[r.pt] IN
  /\ r.n = a.n
  /\ r.min = (IF a.min > BIG THEN BIG ELSE a.min)
  /\ a.big \/ r.sum = a.sum
EstOk(n, r) == LET a == n.arch[r.pt] IN
  a.big \/ /\ r.est[1] <= r.est[4] /\ r.est[4] <= r.est[2]
           /\ Abs(r.est[1] + r.est[2] - 2 * r.est[4]) <= 3
           /\ Abs(r.est[4] * a.n - 1000 * a.sum) <= a.n + 1
           /\ r.est[3] = 1000 * a.min

TellClauses(s, e) ==
  LET n == After(s, e) IN
  (IF Group("acc") THEN Counters(n, e) \o <<
     <<"tell_failed", e.err = "" \/ (e.id \notin s.asked /\ e.err = "TellNotAskedNotSupportedError")>>,
     <<"candidate_is_frozen", e.frozen>> >> ELSE <<>>) \o
  (IF Group("sug") THEN <<
     <<"suggestion_counts_as_not_asked", e.nna = n.nna>>,
     <<"tell_failed", e.err = "" \/ (e.id \notin s.asked /\ e.err = "TellNotAskedNotSupportedError")>> >>
   ELSE <<>>) \o
  (IF Group("arch") /\ Has(e, "table") THEN
     IF ~TableOk(n, e) THEN << <<"recorded_points", FALSE>> >>
     ELSE <<
       <<"accepted_tell_is_recorded", e.err = "" => e.rec>>,
       <<"scalar_loss", e.kept = e.loss>>,
       <<"count_and_mean_and_minimum", \A i \in DOMAIN e.table : RowOk(n, e.table[i])>>,
       <<"confidence_bounds", \A i \in DOMAIN e.table : EstOk(n, e.table[i])>>,
       <<"best_is_minimal", \A c \in 1..4 :
            e.bests[c].est <= SetMin({e.table[i].est[c] : i \in DOMAIN e.table})>>,
       <<"best_is_recorded", \A c \in 1..4 : \E i \in DOMAIN e.table :
            e.table[i].pt = e.bests[c].pt /\ e.table[i].est[c] = e.bests[c].est>>,
       <<"recommendation_is_a_best", Has(e, "recom") =>
            \E c \in 1..4 : e.bests[c].pt = e.recom>>,
       <<"recommendation_is_minimal", (Has(e, "recom") /\ e.rcrit > 0) =>
            \E i \in DOMAIN e.table : /\ e.table[i].pt = e.recom
              /\ e.table[i].est[e.rcrit] <= SetMin({e.table[j].est[e.rcrit] : j \in DOMAIN e.table})>> >>
   ELSE <<>>)

(* ---- pruning: a call with the rows before, the points after, and the bests afterwards ------- *)
(* rows: sequence of [pt, est: <<ranks of optimistic, pessimistic, average>>]                     *)
PruneKept(e) ==
  LET rows == e.rows
      Best(r, c) == Cardinality({i \in DOMAIN rows : rows[i].est[c] <= r.est[c]}) <= e.min
  IN IF Len(rows) < e.max THEN {rows[i].pt : i \in DOMAIN rows}
     ELSE {rows[i].pt : i \in {j \in DOMAIN rows : \E c \in 1..3 : Best(rows[j], c)}}
PruneClauses(e) == <<
  <<"pruning_only_above_the_maximum_length", Len(e.rows) < e.max => Range(e.after) = PruneKept(e)>>,
  <<"pruning_adds_nothing", Range(e.after) \subseteq {e.rows[i].pt : i \in DOMAIN e.rows}>>,
  <<"pruning_keeps_the_best", PruneKept(e) \subseteq Range(e.after)>>,
  <<"pruning_bounds_the_archive", Len(e.rows) < e.max \/ Len(e.after) <= 3 * e.min>>,
  <<"pruning_keeps_the_records", e.same>> >>
(* ests: estimations (4 criteria) of the remaining records, bests: of the current bests *)
AfterPruneClauses(e) == <<
  <<"best_is_minimal", \A c \in 1..4 : \A i \in DOMAIN e.ests : e.bests[c] <= e.ests[i][c]>>,
  <<"archive_is_bounded", Len(e.ests) <= e.max>> >>

Bad(s, e) == Fails(CASE e.k = "ask" -> AskClauses(s, e)
                     [] e.k = "suggest" -> SuggestClauses(s, e)
                     [] e.k = "tell" -> TellClauses(s, e)
                     [] e.k = "prune" -> PruneClauses(e)
                     [] e.k = "pruned_tell" -> AfterPruneClauses(e)
                     [] OTHER -> << <<"unknown_event", FALSE>> >>)

TInit == tid \in 1..Len(Traces) /\ l = 0 /\ st = StInit /\ bad = {}
TNext ==
  \/ /\ l >= 0 /\ l < Len(Ev) /\ bad = {}
     /\ LET e == Ev[l + 1]  b == Bad(st, e) IN
          /\ bad' = b
          /\ st' = IF b = {} THEN After(st, e) ELSE st
     /\ l' = l + 1 /\ UNCHANGED tid
  \/ /\ l >= 0 /\ (l = Len(Ev) \/ bad # {})
     /\ Say([tid |-> tid, l |-> l, bad |-> bad])
     /\ l' = -1 /\ UNCHANGED <<tid, st, bad>>
=============================================================================

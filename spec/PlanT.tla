-------------------------------- MODULE PlanT --------------------------------
(* new     [len, id]                                                          *)
(* iter    [c, ks, xs (numbers), seeds (hashed, -1: none), len]               *)
(* split   [c, n, lens, ids]                                                  *)
(* compute [c, s, p, out, log: <<number, completed>>, rows: [x, budget, loss, *)
(*          error, digest], best: losses of the finished experiments, ret,    *)
(*          sugg: evaluations of the suggested point in the experiments]      *)
(* pickle  [c]                                                                *)
(* launch  [xs] all the experiments of the plan by several workers            *)
EXTENDS Plan
VARIABLES tid, l, bad, st, seeds, res, ids, rows
C == Traces[tid].cfg
Ev == Traces[tid].ev
X(k) == Number(C, k)
Key(c) == <<st.ch[c].mod, st.ch[c].idx>>
IterClauses(e) ==
  LET ks == Own(C, st.ch[e.c]) IN
  <<<<"length_of_the_chunk", e.len = Len(ks)>>,
    <<"experiments_of_the_chunk", e.ks = ks>>,
    <<"experiments_of_the_plan", Len(e.xs) = Len(ks) /\ \A j \in DOMAIN e.xs : e.xs[j] = X(ks[j])>>,
    <<"same_seeds", \A j \in DOMAIN e.ks : e.ks[j] \in DOMAIN seeds => seeds[e.ks[j]] = e.seeds[j]>>,
    <<"seeded_iff_asked", \A j \in DOMAIN e.ks : (e.seeds[j] = -1) = (C.seed = 0)>>>>
SplitClauses(e) ==
  LET ps == Parts(st.ch[e.c], e.n) IN
  <<<<"as_many_parts", Len(e.lens) = e.n>>,
    <<"lengths_of_the_parts", \A j \in DOMAIN e.lens : e.lens[j] = Count(C, ps[j])>>,
    <<"names_of_the_parts", \A i, j \in DOMAIN e.ids : i # j => e.ids[i] # e.ids[j]>>,
    <<"names_do_not_collide", \A j \in DOMAIN e.ids : \A c \in DOMAIN ids : ids[c] = e.ids[j] => <<ps[j].mod, ps[j].idx>> = Key(c)>>>>
Finished(ch) == [j \in 1..ch.done |-> Own(C, ch)[j]]
(* random functions change, and suggestions are repeated, in resumed experiments (known finding): required by strict traces only *)
Same(e, j, k, special) == C.strict = 1 \/ special[Place(C, k)] = 0 \/ (j > st.ch[e.c].done /\ (j = st.ch[e.c].done + 1 => st.ch[e.c].clean))
ComputeClauses(e) ==
  LET ch == st.ch[e.c]
      r == Run(C, ch, e.s, e.p, <<>>)
      f == Finished(r.ch) IN
  <<<<"outcome", e.out = r.out>>,
    <<"evaluations", Len(e.log) = Len(r.log) /\ \A j \in DOMAIN e.log : e.log[j].x = X(r.log[j][1]) /\ e.log[j].ok = r.log[j][2]>>,
    <<"one_row_per_experiment", Len(e.rows) = Len(f) /\ \A j \in DOMAIN e.rows : e.rows[j].x = X(f[j])>>,
    <<"budget_of_the_experiments", \A j \in DOMAIN e.rows : j <= Len(f) =>
         LET b == C.b[Place(C, f[j])] IN IF Bad(C, f[j]) THEN e.rows[j].budget \in Need(C, f[j])..b ELSE e.rows[j].budget = b>>,
    <<"errors_are_reported", \A j \in DOMAIN e.rows : j <= Len(f) => e.rows[j].error = (IF Bad(C, f[j]) THEN "Failure" ELSE "")>>,
    <<"loss_of_the_recommendation", \A j \in DOMAIN e.rows : j <= Len(f) => (Bad(C, f[j]) \/ ~Same(e, j, f[j], C.wild) \/ e.rows[j].loss = e.best[j])>>,
    <<"suggested_once", \A j \in DOMAIN e.rows : j <= Len(f) => (Bad(C, f[j]) \/ ~Same(e, j, f[j], C.sugg) \/ e.sugg[j] = C.sugg[Place(C, f[j])])>>,
    <<"rows_are_kept", Len(e.rows) >= Len(rows[e.c]) /\ SubSeq(e.rows, 1, Len(rows[e.c])) = rows[e.c]>>,
    <<"everything_is_returned", r.out = "done" => e.ret = Len(f)>>,
    (* the seed decides: same result for the same experiment computed by any chunk *)
    <<"reproducible", \A j \in DOMAIN e.rows : (C.seed > 0 /\ j > ch.done /\ j <= Len(f) /\ (j = ch.done + 1 => ch.clean)) =>
         (f[j] \in DOMAIN res => res[f[j]] = e.rows[j].digest)>>>>
LaunchClauses(e) == << <<"all_the_experiments_once", {e.xs[j] : j \in DOMAIN e.xs} = {Number([C EXCEPT !.reps = 1], k) : k \in 0..(Size(C) - 1)} /\ Len(e.xs) = Size(C)>> >>
Clauses(e) == CASE e.k = "new" -> << <<"length_of_the_plan", e.len = Total(C)>> >>
                [] e.k = "iter" -> IterClauses(e) [] e.k = "split" -> SplitClauses(e) [] e.k = "compute" -> ComputeClauses(e)
                [] e.k = "launch" -> LaunchClauses(e) [] e.k = "pickle" -> << <<"checkpoint", e.err = "">> >>
Learn(e) ==
  /\ seeds' = IF e.k = "iter" THEN [k \in DOMAIN seeds \cup Range(e.ks) |-> IF k \in DOMAIN seeds THEN seeds[k] ELSE e.seeds[CHOOSE j \in DOMAIN e.ks : e.ks[j] = k]] ELSE seeds
  /\ ids' = CASE e.k = "new" -> <<e.id>> [] e.k = "split" -> ids \o e.ids [] OTHER -> ids
  /\ rows' = CASE e.k = "split" -> rows \o [j \in 1..e.n |-> <<>>] [] e.k = "compute" -> [rows EXCEPT ![e.c] = e.rows] [] OTHER -> rows
  /\ res' = IF e.k = "compute" /\ C.seed > 0
            THEN LET ch == st.ch[e.c]  f == Finished(Run(C, ch, e.s, e.p, <<>>).ch)
                     N == {j \in DOMAIN f : j > ch.done /\ (j = ch.done + 1 => ch.clean)} IN
                 [k \in DOMAIN res \cup {f[j] : j \in N} |-> IF k \in DOMAIN res THEN res[k] ELSE e.rows[CHOOSE j \in N : f[j] = k].digest]
            ELSE res
TInit == /\ tid \in 1..Len(Traces) /\ l = 0 /\ bad = {} /\ st = Start(Traces[tid].cfg)
         /\ seeds = <<>> /\ res = <<>> /\ ids = <<>> /\ rows = <<<<>>>>
TNext ==
  \/ /\ l >= 0 /\ l < Len(Ev) /\ bad = {}
     /\ bad' = Fails(Clauses(Ev[l + 1]))
     /\ IF bad' = {} THEN st' = After(C, st, Ev[l + 1]) /\ Learn(Ev[l + 1]) ELSE UNCHANGED <<st, seeds, res, ids, rows>>
     /\ l' = l + 1 /\ UNCHANGED tid
  \/ /\ l >= 0 /\ (l = Len(Ev) \/ bad # {})
     /\ Say([tid |-> tid, l |-> l, bad |-> bad])
     /\ l' = -1 /\ UNCHANGED <<tid, bad, st, seeds, res, ids, rows>>
=============================================================================

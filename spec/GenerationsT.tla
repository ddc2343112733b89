---------------------------- MODULE GenerationsT ----------------------------
(* ask  [u, x, parent, lineage, lib: points newly drawn from the library, logsigma (millionths, or empty), same (known point), opt] *)
(* tell [u, loss, x, refused, lib: points and losses told to the library], rec [x, center, size of the vector],                    *)
(* unsure: the library raised an error (its best point may or may not be updated); restart [lam]                                                                                                                     *)
EXTENDS Generations
VARIABLES tid, l, bad, st, lin
C == Traces[tid].cfg
Ev == Traces[tid].ev
Near(a, b, tol) == Abs(a - b) <= tol
Lineage(s, e) == IF Parent(s) = 0 THEN e.u ELSE lin[Parent(s)]
AskClauses(e, s) ==
  IF C.fam = "cma" THEN
    <<<<"points_of_the_library_are_asked_in_order", IF s.queue = <<>> THEN e.lib # <<>> /\ e.x = e.lib[1] ELSE e.lib = <<>> /\ e.x = s.queue[1]>>,
      <<"parents_are_the_best_of_the_last_generation", e.parent = Parent(s)>>>>
  ELSE IF C.fam = "pop" THEN
    <<<<"parents_are_the_best_of_the_last_generation", e.parent = Parent(s)>>,
      <<"lineage", e.lineage = Lineage(s, e)>>>>
  ELSE
    <<<<"the_first_point_is_the_center", (s.na = 0 /\ C.noise # "bandit") => e.x = 0>>,
      <<"known_points_are_evaluated_again_regularly", Reevaluates(C, s) => e.same>>,
      <<"new_points_otherwise", (~Reevaluates(C, s) /\ s.na > 0) => ~e.same>>,
      <<"optimism", (Reevaluates(C, s) /\ C.noise = "optimistic") => e.x = e.opt>>,
      <<"starts_from_the_best_point", (C.noise = "" /\ s.na > 0) => IF s.best = <<>> THEN e.parent = 0 ELSE e.parent \in s.best[1].us>>,
      <<"step_size", (C.noise = "" /\ s.na > 0 /\ e.logsigma # <<>>) => Near(e.logsigma[1], 693147 * s.up - 174353 * s.down, 20 + s.up + s.down)>>>>
TellClauses(e, s) ==
  IF C.fam = "cma" THEN
    LET g == Generation(C, s, e) IN
    <<<<"the_library_is_told_complete_generations_once", e.lib = (IF Complete(g) THEN [i \in DOMAIN g.wait |-> <<g.wait[i].x, g.wait[i].loss>>] ELSE <<>>)>>>>
  ELSE <<>>
RecClauses(e, s) ==
  IF C.fam = "pop" THEN
    <<<<"the_center_is_the_average_of_the_best_ones",
        IF s.chosen = <<>> THEN \A i \in DOMAIN e.center : e.center[i] = 0
        ELSE \A i \in DOMAIN e.center : Near(Len(s.chosen) * e.center[i], SumOf([j \in DOMAIN s.chosen |-> C.data[s.chosen[j].x][i]]), Len(s.chosen) + 1)>>>>
  ELSE IF C.fam = "cma" THEN
    <<<<"the_best_point_told_to_the_library_is_recommended",
        LET b == IF s.told # <<>> THEN Best(s.told, 1) ELSE s.best IN (b # <<>> /\ ~s.unsure) => e.x = b[1].x>>>>
  ELSE <<>>
Clauses(e, s) ==
  CASE e.k = "ask" -> AskClauses(e, s) [] e.k = "tell" -> TellClauses(e, s) [] e.k = "rec" -> RecClauses(e, s)
    [] e.k = "restart" -> << <<"population_size_of_the_library", e.lam = C.lam>> >>
    [] e.k = "error" -> << <<"no_error", FALSE>> >>
(* the comparison of the populations is not decided by exact ties (rounding) *)
Undecided(s, e) == C.adapt /\ e.k = "tell" /\ LET r == Append(s.rec, e.loss) IN Len(r) >= C.R * s.lam /\ Tie(r, s.lam)
TInit == /\ tid \in 1..Len(Traces) /\ l = 0 /\ bad = {} /\ st = Start(Traces[tid].cfg) /\ lin = <<>>
TNext ==
  \/ /\ l >= 0 /\ l < Len(Ev) /\ bad = {}
     /\ bad' = Fails(Clauses(Ev[l + 1], st))
     /\ LET e == Ev[l + 1] IN
        /\ st' = IF bad' = {} THEN After(C, st, e) ELSE st
        /\ lin' = IF e.k = "ask" /\ C.fam = "pop" /\ bad' = {} THEN [u \in DOMAIN lin \cup {e.u} |-> IF u = e.u THEN e.lineage ELSE lin[u]]
                  ELSE IF e.k = "tell" /\ C.fam = "pop" /\ e.u \notin DOMAIN lin THEN [u \in DOMAIN lin \cup {e.u} |-> IF u = e.u THEN e.lineage ELSE lin[u]] ELSE lin
        /\ l' = IF Undecided(st, e) THEN Len(Ev) ELSE l + 1
     /\ UNCHANGED tid
  \/ /\ l >= 0 /\ (l = Len(Ev) \/ bad # {})
     /\ Say([tid |-> tid, l |-> l, bad |-> bad])
     /\ l' = -1 /\ UNCHANGED <<tid, bad, st, lin>>
=============================================================================

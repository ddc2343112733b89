----------------------------- MODULE CallbacksT -----------------------------
(* register, remove, clock, start; ask [calls (<<id, na, nt>>), res]; tell [c, loss, calls (<<id, na, nt, loss, candidate>>),  *)
(* printed, bar, total, dump (<<na, nt>>), uid, gen, lin, par, val]; open [append]; load [rows];                               *)
(* flat [shape, max, rows (<<indices, values, expected values>>)]; pickle; suggest; recommend; end [na, nt, ret] *)
EXTENDS Callbacks
VARIABLES tid, l, bad, st
C == Traces[tid].cfg
Ev == Traces[tid].ev
Expected(s, e) == [i \in 1..Len(IF e.k = "ask" THEN s.asks ELSE s.tells) |->
                    IF e.k = "ask" THEN <<s.asks[i], s.na, s.nt>> ELSE <<s.tells[i], s.na, s.nt, e.loss, e.tok>>]
Clauses(e, s) ==
  <<<<"callbacks_are_called_once_in_order", (e.k \in {"ask", "tell"} /\ Has(e, "calls")) => e.calls = Expected(s, e)>>,
    <<"no_other_operation_calls_them", (e.k \notin {"ask", "tell"} /\ Has(e, "calls")) => e.calls = <<>>>>,
    <<"early_stopping", e.k = "ask" => e.res = (IF Stops(C, s) THEN "stop" ELSE "ok")>>,
    <<"printed_regularly", (e.k = "tell" /\ Has(e, "printed")) => e.printed = (IF Prints(C, s) THEN s.nt ELSE None)>>,
    <<"progress", (e.k = "tell" /\ Has(e, "bar")) => e.bar = s.bar + 1 /\ e.total = C.budget>>,
    <<"dump_holds_the_current_state", (e.k = "tell" /\ Has(e, "dump")) => e.dump = <<s.na, s.nt>>>>,
    <<"one_row_per_tell", e.k = "load" => e.rows = s.rows>>,
    <<"flattened_rows", e.k = "flat" => \A i \in DOMAIN e.rows : e.rows[i][1] = Flat(e.shape, e.max) /\ e.rows[i][2] = e.rows[i][3]>>,
    <<"counters", Has(e, "nt") => LET a == After(C, s, e) IN e.na = a.na /\ e.nt = a.nt>>,
    <<"stopped_run_waits_for_its_jobs", e.k = "end" => s.out = {} /\ e.ret /\ (s.over \/ s.na = C.budget)>>>>
TInit == /\ tid \in 1..Len(Traces) /\ l = 0 /\ bad = {} /\ st = Start
TNext ==
  \/ /\ l >= 0 /\ l < Len(Ev) /\ bad = {}
     /\ bad' = Fails(Clauses(Ev[l + 1], st))
     /\ st' = IF bad' = {} THEN After(C, st, Ev[l + 1]) ELSE st
     /\ l' = l + 1 /\ UNCHANGED tid
  \/ /\ l >= 0 /\ (l = Len(Ev) \/ bad # {})
     /\ Say([tid |-> tid, l |-> l, bad |-> bad])
     /\ l' = -1 /\ UNCHANGED <<tid, bad, st>>
=============================================================================

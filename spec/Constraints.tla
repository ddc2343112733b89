----------------------------- MODULE Constraints -----------------------------
(***************************************************************************)
(* Cheap constraints, constraint violations provided to tell, tabu list.    *)
(* A told point is penalized if its violation is positive, or if it does    *)
(* not satisfy the cheap constraints while a budget is known.  Penalized    *)
(* points never become records.                                            *)
(* state: nask, ntell, best: smallest recorded loss (BIG if none),          *)
(*        nrec: number of recorded evaluations, wins: tabu windows (keys) of *)
(*        the parametrization and of a copy of it,                          *)
(*        warned: the failure warning was sent (once per optimizer)         *)
(***************************************************************************)
EXTENDS TraceIO
BIG == 1000000000
StInit == [nask |-> 0, ntell |-> 0, best |-> BIG, nrec |-> 0, wins |-> <<<<>>, <<>>>>, sat |-> TRUE, warned |-> FALSE]
Penalized(budget, e) == e.viol > 0 \/ (budget /\ ~e.sat)
Min2(a, b) == IF a <= b THEN a ELSE b
(* ---- tabu: the keys of the last `len` accepted values are refused --------- *)
TabuOk(win, key) == key \notin Range(win)
TabuAdd(win, key, len) == IF Len(win) < len THEN Append(win, key)
                          ELSE Append(Tail(win), key)
After(s, e, budget, len) ==
  CASE e.k = "ask" -> [s EXCEPT !.nask = @ + 1, !.warned = @ \/ (Has(e, "warn") /\ e.warn),
                                !.wins[1] = IF len > 0 /\ Has(e, "key") THEN TabuAdd(@, e.key, len) ELSE @]
    [] e.k = "tell" ->
         IF Penalized(budget, e) THEN [s EXCEPT !.ntell = @ + 1]
         ELSE [s EXCEPT !.ntell = @ + 1, !.nrec = @ + 1, !.best = Min2(@, e.loss), !.sat = @ /\ (e.sat \/ ~budget)]
    [] e.k = "try" -> IF TabuOk(s.wins[e.ref], e.key) THEN [s EXCEPT !.wins[e.ref] = TabuAdd(@, e.key, len)] ELSE s
    [] e.k = "copy" -> [s EXCEPT !.wins[2] = <<>>]  (* a copy has its own, empty, tabu list *)
    [] OTHER -> s
=============================================================================

------------------------------ MODULE Callbacks ------------------------------
(* Callbacks of ask and tell: dispatch, early stopping, printing, logs, dumps *)
(* and progress. They are called in the order of their registration, before   *)
(* the ask or tell they observe is counted; one which raises stops there.     *)
(* cfg: [window (-1: no improvement stopper), duration (-1: no timer),        *)
(*   interval, seconds (-1: no printer), budget]                              *)
EXTENDS TraceIO
None == -1
Start == [asks |-> <<>>, tells |-> <<>>, na |-> 0, nt |-> 0, out |-> {}, made |-> 0,
          best |-> None, ref |-> None, cnt |-> 0, begin |-> None,
          next |-> 0, until |-> None, clock |-> 0, bar |-> 0, rows |-> <<>>, over |-> FALSE]
Min2(a, b) == IF a = None \/ b < a THEN b ELSE a
(* Stoppers: the answer depends on the losses told so far and on the asks *)
(* one with a window stops at an ask if more than `window` asks in a row found no better loss than the reference *)
Window(cfg, st) ==
  IF cfg.window = None \/ st.best = None THEN st
  ELSE IF st.ref = None THEN [st EXCEPT !.ref = st.best]
  ELSE IF st.ref <= st.best THEN [st EXCEPT !.cnt = @ + 1]
  ELSE [st EXCEPT !.cnt = 0, !.ref = st.best]
Timer(cfg, st) == IF cfg.duration = None \/ st.begin # None THEN st ELSE [st EXCEPT !.begin = st.clock]
Watch(cfg, st) == Timer(cfg, Window(cfg, st))
StopWindow(cfg, st) == cfg.window # None /\ Window(cfg, st).cnt > cfg.window /\ st.best # None
StopTimer(cfg, st) == cfg.duration # None /\ st.begin # None /\ st.clock > st.begin + cfg.duration
Stops(cfg, st) == StopWindow(cfg, st) \/ StopTimer(cfg, st)
(* Printer: first at the first tell, then at most `interval` tells or `seconds` later *)
Prints(cfg, st) == cfg.interval # None /\ (st.nt >= st.next \/ st.clock >= st.until)
Printed(cfg, st) == IF Prints(cfg, st) THEN [st EXCEPT !.next = st.nt + cfg.interval, !.until = st.clock + cfg.seconds] ELSE st
Row(st, e) == [na |-> st.na, nt |-> st.nt, loss |-> e.loss, uid |-> e.uid, gen |-> e.gen, lin |-> e.lin, par |-> e.par, val |-> e.val]
After(cfg, st, e) ==
  CASE e.k = "register" -> IF e.on = "ask" THEN [st EXCEPT !.asks = Append(@, e.id)] ELSE [st EXCEPT !.tells = Append(@, e.id)]
    [] e.k = "remove" -> [st EXCEPT !.asks = <<>>, !.tells = <<>>]
    [] e.k = "clock" -> [st EXCEPT !.clock = @ + e.d]
    [] e.k = "start" -> [st EXCEPT !.until = st.clock + cfg.seconds]
    [] e.k = "ask" -> IF Stops(cfg, st) THEN [Watch(cfg, st) EXCEPT !.over = TRUE]
                      ELSE [Watch(cfg, st) EXCEPT !.na = @ + 1, !.made = @ + 1, !.out = @ \cup {st.made + 1}]
    [] e.k = "tell" -> [Printed(cfg, st) EXCEPT !.nt = @ + 1, !.out = @ \ {e.c}, !.best = Min2(@, e.loss), !.bar = @ + 1,
                        !.rows = IF Has(e, "uid") THEN Append(@, Row(st, e)) ELSE @]
    [] e.k = "open" -> IF e.append THEN st ELSE [st EXCEPT !.rows = <<>>]
    [] OTHER -> st
(* indices of the elements of an array which are kept by the flattened logs *)
Flat(shape, max) == LET size == shape[1] * shape[2]  m == IF max < size THEN max ELSE size IN [k \in 1..m |-> <<(k - 1) \div shape[2], (k - 1) % shape[2]>>]
=============================================================================

------------------------------- MODULE Recast -------------------------------
(***************************************************************************)
(* Ask/tell interface over a library which calls the objective itself, in a *)
(* background thread ("worker"), through two FIFO queues.                   *)
(*   worker: for each batch of points: put the batch in the ask queue, then *)
(*           get the losses from the tell queue; finally put "end" (the      *)
(*           library returned) or "error" (it raised), then die.            *)
(*   main:   Ask = pop of the current batch, or refusal while points are     *)
(*           outstanding, or: get of a message, and wait for the death of    *)
(*           the thread if that was its last message.                       *)
(*           Tell = the losses are put when the batch is complete.          *)
(*           Drop = put a stop message.                                     *)
(* A sequential optimizer is the case of batches of size 1.                *)
(***************************************************************************)
EXTENDS TraceIO
CONSTANTS NB,        \* number of batches of the library
          BS,        \* batch size
          ENDING,    \* "end" or "error"
          MaxOps,    \* number of operations of the main thread
          JOIN,      \* whether the main thread waits for the death of the worker after its last message
          EMIT

Point(b, i) == 10 * b + i
Batch(b) == {Point(b, i) : i \in 1..BS}
STOP == <<>>
Rand == 0

VARIABLES main,      \* "idle", "get" (waiting for a message), "join"
          thread,    \* "none", "call" (about to ask a batch), "wait" (for losses), "last" (last message to put), "exit", "dead"
          qa, qt,    \* queues
          j,         \* current batch of the worker
          cur, out,  \* points of the batch to be asked / asked and not told
          told,      \* point -> loss
          got,       \* loss vectors received by the worker
          given,     \* points provided by ask, in order
          err,       \* the worker recorded an error
          dropped, ops, sched, done

vars == <<main, thread, qa, qt, j, cur, out, told, got, given, err, dropped, ops, sched, done>>
core == <<main, thread, qa, qt, j, cur, out, told, got, given, err, dropped>>

Init == /\ main = "idle" /\ thread = "none" /\ qa = <<>> /\ qt = <<>> /\ j = 0 /\ cur = {} /\ out = {}
        /\ told = <<>> /\ got = <<>> /\ given = <<>> /\ err = FALSE /\ dropped = FALSE
        /\ ops = <<>> /\ sched = <<>> /\ done = FALSE

Rec(who) == sched' = IF EMIT THEN Append(sched, who) ELSE sched
Op(o) == ops' = Append(ops, o)
Alive == thread \notin {"none", "dead"}

(* ---- main ------------------------------------------------------------- *)
CanOp == main = "idle" /\ ~dropped /\ Len(ops) < MaxOps /\ ~done
AskInBatch ==
  /\ CanOp /\ cur # {}
  /\ LET p == CHOOSE x \in cur : \A y \in cur : y <= x IN
       cur' = cur \ {p} /\ out' = out \cup {p} /\ given' = Append(given, p)
  /\ Op("ask") /\ UNCHANGED <<main, thread, qa, qt, j, told, got, err, dropped, sched, done>>
AskRefused ==
  /\ CanOp /\ cur = {} /\ out # {}
  /\ Op("refused") /\ UNCHANGED <<core, sched, done>>
AskStart ==
  /\ CanOp /\ cur = {} /\ out = {}
  /\ thread' = IF thread = "none" THEN "call" ELSE thread
  /\ main' = IF thread = "dead" THEN "idle" ELSE "get"
  /\ given' = IF thread = "dead" THEN Append(given, Rand) ELSE given
  /\ Op("ask") /\ UNCHANGED <<qa, qt, j, cur, out, told, got, err, dropped, sched, done>>
AskGet ==
  /\ main = "get" /\ qa # <<>>
  /\ LET m == Head(qa) IN
       IF m = 0 THEN /\ main' = IF JOIN THEN "join" ELSE "idle"
                     /\ given' = IF JOIN THEN given ELSE Append(given, Rand)
                     /\ UNCHANGED <<cur, out>>
       ELSE LET B == Batch(m)  p == CHOOSE x \in B : \A y \in B : y <= x IN
            /\ cur' = B \ {p} /\ out' = {p} /\ given' = Append(given, p) /\ main' = "idle"
  /\ qa' = Tail(qa) /\ Rec("m") /\ UNCHANGED <<thread, qt, j, told, got, err, dropped, ops, done>>
AskJoin ==
  /\ main = "join" /\ thread = "dead"
  /\ main' = "idle" /\ given' = Append(given, Rand)
  /\ UNCHANGED <<thread, qa, qt, j, cur, out, told, got, err, dropped, ops, sched, done>>
Loss(p) == p - 10 * (p \div 10) + 1
Tell ==
  /\ CanOp
  /\ \E p \in out :
       /\ out' = out \ {p}
       /\ told' = With(told, p, Loss(p))
       /\ qt' = IF out' = {} /\ cur = {} /\ Alive
                THEN Append(qt, [i \in 1..BS |-> told'[Point(p \div 10, i)]]) ELSE qt
       /\ sched' = IF EMIT /\ qt' # qt THEN Append(sched, "m") ELSE sched
  /\ Op("tell") /\ UNCHANGED <<main, thread, qa, j, cur, got, given, err, dropped, done>>
Drop ==
  /\ main = "idle" /\ ~dropped /\ ~done /\ Len(ops) > 0
  /\ dropped' = TRUE /\ qt' = (IF thread = "none" THEN qt ELSE Append(qt, STOP))
  /\ UNCHANGED <<main, thread, qa, j, cur, out, told, got, given, err, ops, sched, done>>

(* ---- worker ------------------------------------------------------------ *)
Call == /\ thread = "call"
        /\ IF j < NB THEN /\ qa' = Append(qa, j + 1) /\ j' = j + 1 /\ thread' = "wait" /\ Rec("w")
                     ELSE /\ thread' = "last" /\ UNCHANGED <<qa, j, sched>>
        /\ UNCHANGED <<main, qt, cur, out, told, got, given, err, dropped, ops, done>>
Receive == /\ thread = "wait" /\ qt # <<>>
           /\ LET m == Head(qt) IN
                IF m = STOP THEN thread' = "last" /\ UNCHANGED got
                ELSE got' = Append(got, m) /\ thread' = "call"
           /\ qt' = Tail(qt) /\ Rec("w")
           /\ UNCHANGED <<main, qa, j, cur, out, told, given, err, dropped, ops, done>>
Last == /\ thread = "last" /\ qa' = Append(qa, 0) /\ thread' = "exit" /\ err' = (ENDING = "error" /\ j = NB)
        /\ Rec("w") /\ UNCHANGED <<main, qt, j, cur, out, told, got, given, dropped, ops, done>>
Exit == /\ thread = "exit" /\ thread' = "dead" /\ Rec("w")
        /\ UNCHANGED <<main, qa, qt, j, cur, out, told, got, given, err, dropped, ops, done>>
Worker == Call \/ Receive \/ Last \/ Exit
Main == AskInBatch \/ AskRefused \/ AskStart \/ AskGet \/ AskJoin \/ Tell \/ Drop

Finish == /\ dropped /\ ~done /\ thread \in {"none", "dead"}
          /\ (EMIT => Say([ops |-> ops, sched |-> sched]))
          /\ done' = TRUE /\ UNCHANGED <<core, ops, sched>>
Next == Main \/ Worker \/ Finish
Spec == Init /\ [][Next]_vars /\ WF_vars(Worker) /\ WF_vars(AskGet) /\ WF_vars(AskJoin)

(* ---- properties --------------------------------------------------------- *)
InvOrder == LET pts == SelectSeq(given, LAMBDA p : p # Rand) IN
  /\ \A i, k \in DOMAIN pts : i < k => pts[i] # pts[k] /\ pts[i] \div 10 <= pts[k] \div 10
  /\ Range(pts) = out \cup DOMAIN told
InvLosses == \A b \in DOMAIN got : got[b] = [i \in 1..BS |-> told[Point(b, i)]]
InvOneBatch == Cardinality({p \div 10 : p \in cur \cup out}) <= 1
InvNoStray == Len(SelectSeq(qt, LAMBDA m : m # STOP)) <= 1
InvRandomAtEnd == \A i \in DOMAIN given : given[i] = Rand => \A k \in i..Len(given) : given[k] = Rand
AskReturns == [](main \in {"get", "join"} => <>(main = "idle"))
ThreadStops == [](dropped => <>(thread \in {"none", "dead"}))
=============================================================================

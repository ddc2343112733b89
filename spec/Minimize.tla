------------------------------ MODULE Minimize ------------------------------
(***************************************************************************)
(* The minimize() loop: asks candidates, submits them to an executor and   *)
(* tells the results, in steady or batch mode, with interruptions (an       *)
(* exception of the objective, of the executor, of an ask or a tell) after  *)
(* which minimize() can be called again.                                    *)
(*                                                                         *)
(* One action per critical section of the loop.  Candidates are numbered.   *)
(***************************************************************************)
EXTENDS TraceIO
CONSTANTS Budget, Workers, Batch, MaxFaults, MaxIdle, Stops, EMIT

VARIABLES pc, rem, k, running, finished, asked, told, done, lost, faults, idle, stopped, batchIds, hist
vars == <<pc, rem, k, running, finished, asked, told, done, lost, faults, idle, stopped, batchIds, hist>>
core == <<pc, rem, k, running, finished, asked, told, done, lost, faults, stopped>>

MaxOf(a, b) == IF a > b THEN a ELSE b
MinOf(a, b) == IF a < b THEN a ELSE b

Init == /\ pc = "call" /\ rem = 0 /\ k = 0 /\ running = <<>> /\ finished = <<>> /\ asked = 0
        /\ told = {} /\ done = {} /\ lost = {} /\ faults = 0 /\ idle = 0 /\ stopped = FALSE
        /\ batchIds = {} /\ hist = <<>>

H(x) == hist' = IF EMIT THEN Append(hist, x) ELSE hist

Call == /\ pc = "call" /\ pc' = "loop" /\ rem' = MaxOf(0, Budget - asked) /\ stopped' = FALSE
        /\ UNCHANGED <<k, running, finished, asked, told, done, lost, faults, idle, batchIds, hist>>
Loop == /\ pc = "loop"
        /\ pc' = IF rem # 0 \/ running # <<>> \/ finished # <<>> THEN "tell" ELSE "return"
        /\ UNCHANGED <<rem, k, running, finished, asked, told, done, lost, faults, idle, stopped, batchIds, hist>>
Tell == /\ pc = "tell" /\ finished # <<>>
        /\ told' = told \cup {Head(finished)} /\ finished' = Tail(finished)
        /\ UNCHANGED <<pc, rem, k, running, asked, done, lost, faults, idle, stopped, batchIds, hist>>
(* the objective or the tell failed: the candidate stays in the queue *)
TellFault == /\ pc = "tell" /\ finished # <<>> /\ faults < MaxFaults
             /\ pc' = "call" /\ faults' = faults + 1 /\ H([a |-> "tellfault", x |-> Head(finished)])
             /\ UNCHANGED <<rem, k, running, finished, asked, told, done, lost, idle, stopped, batchIds>>
Start == /\ pc = "tell" /\ finished = <<>>
         /\ IF ~Batch \/ running = <<>>
            THEN /\ k' = MaxOf(0, MinOf(rem, Workers - Len(running))) /\ pc' = "ask"
                 /\ batchIds' = Range(running)
            ELSE pc' = "split" /\ UNCHANGED <<k, batchIds>>
         /\ UNCHANGED <<rem, running, finished, asked, told, done, lost, faults, idle, stopped, hist>>
Ask == /\ pc = "ask" /\ k > 0
       /\ asked' = asked + 1 /\ running' = Append(running, asked + 1) /\ k' = k - 1
       /\ UNCHANGED <<pc, rem, finished, told, done, lost, faults, idle, stopped, batchIds, hist>>
AskFault == /\ pc = "ask" /\ k > 0 /\ faults < MaxFaults
            /\ pc' = "call" /\ faults' = faults + 1 /\ H([a |-> "askfault", x |-> asked + 1])
            /\ UNCHANGED <<rem, k, running, finished, asked, told, done, lost, idle, stopped, batchIds>>
(* the executor refused the job: the candidate was asked, it is never evaluated *)
SubmitFault == /\ pc = "ask" /\ k > 0 /\ faults < MaxFaults
               /\ pc' = "call" /\ faults' = faults + 1 /\ asked' = asked + 1 /\ lost' = lost \cup {asked + 1}
               /\ H([a |-> "submitfault", x |-> asked + 1])
               /\ UNCHANGED <<rem, k, running, finished, told, done, idle, stopped, batchIds>>
EarlyStop == /\ pc = "ask" /\ k > 0 /\ Stops
             /\ rem' = 0 /\ pc' = "split" /\ stopped' = TRUE /\ H([a |-> "stop", x |-> asked + 1])
             /\ UNCHANGED <<k, running, finished, asked, told, done, lost, faults, idle, batchIds>>
EndAsk == /\ pc = "ask" /\ k = 0 /\ pc' = "split"
          /\ UNCHANGED <<rem, k, running, finished, asked, told, done, lost, faults, idle, stopped, batchIds, hist>>
(* jobs D complete just before the running jobs are inspected *)
Split == /\ pc = "split"
         /\ \E D \in SUBSET (Range(running) \ done) :
              /\ (running # <<>> /\ D = {}) => idle < MaxIdle
              /\ idle' = IF D = {} /\ running # <<>> THEN idle + 1 ELSE 0
              /\ done' = done \cup D
              /\ running' = SelectSeq(running, LAMBDA x : x \notin done')
              /\ finished' = SelectSeq(running, LAMBDA x : x \in done')
              /\ H([a |-> "split", x |-> done', r |-> Range(running)])
         /\ rem' = IF rem > 0 THEN Budget - asked ELSE rem
         /\ pc' = "loop"
         /\ UNCHANGED <<k, asked, told, lost, faults, stopped, batchIds>>
Return == /\ pc = "return" /\ pc' = "end"
          /\ (EMIT => Say(hist))
          /\ UNCHANGED <<rem, k, running, finished, asked, told, done, lost, faults, idle, stopped, batchIds, hist>>

Next == Call \/ Loop \/ Tell \/ TellFault \/ Start \/ Ask \/ AskFault \/ SubmitFault \/ EarlyStop
        \/ EndAsk \/ Split \/ Return
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

(* ---- properties of the design ------------------------------------------ *)
Outstanding == Range(running) \cup Range(finished)
(* every asked candidate is exactly at one place, none is lost but when the executor refused it *)
InvNoLoss == /\ 1..asked = told \cup Outstanding \cup lost
             /\ told \cap Outstanding = {} /\ lost \cap (told \cup Outstanding) = {}
             /\ Range(running) \cap Range(finished) = {}
             /\ Len(running) = Cardinality(Range(running)) /\ Len(finished) = Cardinality(Range(finished))
InvWorkers == Len(running) + Len(finished) <= Workers
InvBudget == asked <= Budget
InvToldDone == told \subseteq done
InvReturned == pc \in {"return", "end"} => /\ Outstanding = {}
                                            /\ (~stopped => asked = Budget)
(* in batch mode nothing is started while a job of a previous batch is outstanding *)
InvBatch == (Batch /\ pc = "ask") => batchIds = {}
ToldOnce == [][told \subseteq told' /\ asked <= asked']_vars
Terminates == <>(pc = "end")
=============================================================================

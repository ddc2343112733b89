----------------------------- MODULE ExecutorMC -----------------------------
EXTENDS Executor
CONSTANTS Batch, MaxLen, MaxJobs, Delays, Faults, EMIT
VARIABLES st, hist, reads
vars == <<st, hist, reads>>
Cfg == [batch |-> Batch]
Init == st = Start /\ hist = <<>> /\ reads = <<>>
Do(e) == /\ st' = After(Cfg, st, e) /\ hist' = Append(hist, e)
         /\ reads' = IF e.k = "result" /\ Answer(Cfg, st, e) = "ok" /\ ~st.jobs[e.i].read THEN Append(reads, e.i) ELSE reads
Next == /\ Len(hist) < MaxLen
        /\ \/ /\ Len(st.jobs) < MaxJobs /\ \E d \in Delays, f \in Faults : Do([k |-> "submit", d |-> d, f |-> f])
           \/ \E i \in DOMAIN st.jobs, k \in {"done", "result"} : Do([k |-> k, i |-> i])
        /\ (EMIT /\ Len(hist') = MaxLen => Say(hist'))
Spec == Init /\ [][Next]_vars
(* in steady mode exactly one unread result is available *)
InvOne == ~Batch => (Unread(st) # {} => Cardinality({i \in Unread(st) : IsDone(Cfg, st, i)}) = 1)
(* nothing is read before its release; the time is the one of the last release which was read *)
InvTime == /\ \A i \in DOMAIN st.jobs : (st.jobs[i].read => st.time >= Release(st.jobs[i])) /\ st.jobs[i].t <= st.time
           /\ st.time = 0 \/ \E i \in DOMAIN st.jobs : st.jobs[i].read /\ Release(st.jobs[i]) = st.time
(* the results which are read were the earliest ones: the time passes release by release *)
InvOrder == ~Batch => \A a, b \in DOMAIN reads : (a < b /\ st.jobs[reads[b]].t <= st.jobs[reads[a]].t) => (reads[b] < reads[a] => ~Before(st, reads[b], reads[a]))
InvEv == \A i \in DOMAIN st.jobs : st.jobs[i].read => st.jobs[i].ev /\ st.jobs[i].f = 0
Monotone == [][st'.time >= st.time]_vars
=============================================================================

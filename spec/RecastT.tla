------------------------------ MODULE RecastT ------------------------------
(* Traces of recast optimizers over an instrumented library:                *)
(*  cfg.nb, cfg.bs, cfg.ending; cfg.lib: any library (unknown program)       *)
(*  ask  [res: "point"|"random"|"refused"|"error", p]                       *)
(*  tell [p, loss, res: ""|"refused"|"error", asked]                        *)
(*  recv [w, vec]   the library (w-th worker) received losses               *)
(*  pickle          continues with the unpickled optimizer (new worker)     *)
(*  drop [stopped]                                                          *)
(*  exit [res]      end of a program while the library awaits a loss        *)
EXTENDS TraceIO
VARIABLES tid, l, st, bad
Cfg == Traces[tid].cfg
Ev == Traces[tid].ev
StInit == [k |-> 0, cur |-> {}, out |-> {}, told |-> <<>>, ended |-> FALSE, got |-> <<>>, n |-> 0]
Pt(b, i) == 10 * b + i
Batch(b) == {Pt(b, i) : i \in 1..Cfg.bs}

After(s, e) ==
  CASE e.k = "ask" ->
         IF e.res = "point" THEN
           IF Cfg.lib THEN [s EXCEPT !.out = @ \cup {e.p}]
           ELSE IF s.cur # {} THEN [s EXCEPT !.cur = @ \ {e.p}, !.out = @ \cup {e.p}]
           ELSE [s EXCEPT !.k = @ + 1, !.cur = Batch(s.k + 1) \ {e.p}, !.out = {e.p}]
         ELSE IF e.res \in {"random", "error"} THEN [s EXCEPT !.ended = TRUE]
         ELSE s
    [] e.k = "tell" ->
         IF e.p \in s.out /\ e.res = "" THEN [s EXCEPT !.out = @ \ {e.p}, !.told = With(@, e.p, e.loss)] ELSE s
    [] e.k = "recv" ->
         [s EXCEPT !.got = With(@, e.w, (IF e.w \in DOMAIN @ THEN @[e.w] ELSE 0) + 1)]
    [] OTHER -> s

AskClauses(s, e) ==
  IF Cfg.lib THEN <<
    <<"refused_only_when_outstanding", e.res = "refused" => s.out # {}>>,
    <<"outstanding_point_is_refused", (s.out # {} /\ ~s.ended) => e.res \in {"refused", "random"}>>,
    <<"no_failure", e.res # "error">>,
    <<"nothing_new_once_ended", s.ended => e.res = "random">> >>
  ELSE <<
    <<"refused_iff_outstanding", (e.res = "refused") <=> (s.cur = {} /\ s.out # {})>>,
    <<"point_of_the_library", e.res = "point" =>
        IF s.cur # {} THEN e.p \in s.cur ELSE (s.k < Cfg.nb /\ e.p \in Batch(s.k + 1))>>,
    <<"all_points_are_provided", (s.k < Cfg.nb \/ s.cur # {}) => e.res \in {"point", "refused"}>>,
    <<"random_points_after_the_end", (s.k = Cfg.nb /\ s.cur = {} /\ s.out = {}) =>
         e.res = (IF Cfg.ending = "end" THEN "random" ELSE "error")>> >>
TellClauses(s, e) == <<
    <<"asked_point_is_accepted", (e.p \in s.out \/ (e.asked /\ e.p = 0)) => e.res = "">>,
    <<"other_point_is_refused", (~e.asked) => (e.res = "refused" \/ (Cfg.lib /\ e.res = ""))>> >>
RecvClauses(s, e) ==
  LET n == (IF e.w \in DOMAIN s.got THEN s.got[e.w] ELSE 0) + 1 IN
  <<
    <<"losses_of_the_batch", /\ \A i \in 1..Cfg.bs : Pt(n, i) \in DOMAIN s.told
                             /\ e.vec = [i \in 1..Cfg.bs |-> s.told[Pt(n, i)]]>> >>
DropClauses(s, e) == << <<"thread_is_stopped", e.stopped>> >>

Bad(s, e) == Fails(CASE e.k = "ask" -> AskClauses(s, e)
                     [] e.k = "tell" -> TellClauses(s, e)
                     [] e.k = "recv" -> RecvClauses(s, e)
                     [] e.k = "drop" -> DropClauses(s, e)
                     [] e.k = "exit" -> << <<"the_program_ends", e.res = "exits">> >>
                     [] e.k = "pickle" -> << <<"pickle", e.err = "">> >>
                     [] OTHER -> << <<"unknown_event", FALSE>> >>)
TInit == tid \in 1..Len(Traces) /\ l = 0 /\ st = StInit /\ bad = {}
TNext ==
  \/ /\ l >= 0 /\ l < Len(Ev) /\ bad = {}
     /\ LET e == Ev[l + 1]  b == Bad(st, e) IN
          /\ bad' = b
          /\ st' = IF b = {} THEN After(st, e) ELSE st
     /\ l' = l + 1 /\ UNCHANGED tid
  \/ /\ l >= 0 /\ (l = Len(Ev) \/ bad # {})
     /\ Say([tid |-> tid, l |-> l, bad |-> bad])
     /\ l' = -1 /\ UNCHANGED <<tid, st, bad>>
=============================================================================

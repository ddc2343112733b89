------------------------------ MODULE FoldersT ------------------------------
(* text  [files, loaded, names: placeholders read, given, vals, accepted, texts: files of the instance (lines), same: other files unchanged, orig: originals unchanged] *)
(* life  ev: operation + observations: temp: number of temporary folders, seen: per live instance [tpl, oth], orig: [tpl, oth], out: output, err                  *)
(* cmd   [args, kwargs, lines, code, got: arguments received, out: lines received, err]                                                                       *)
EXTENDS Folders
VARIABLES tid, l, bad, st
C == Traces[tid].cfg
Ev == Traces[tid].ev
TextClauses(e) ==
  LET ok == Loadable(e.files) IN
  <<<<"ambiguous_or_empty_folders_are_refused", e.loaded = ok>>,
    <<"placeholders_in_order", ok => e.names = Names(e.files)>>,
    <<"all_the_values_and_no_other", ok => e.accepted = Accepted(e.files, Range(e.given))>>,
    <<"substituted_texts", e.accepted => \A i \in DOMAIN e.files : e.files[i].plain \/ NamesOf(e.files[i]) = <<>> \/ e.texts[i] = Render(e.files[i], e.vals)>>,
    <<"other_files_unchanged", e.accepted => e.same>>,
    <<"original_unchanged", e.orig>>>>
LifeClauses(n, e) ==
  LET alive == SelectSeq([i \in DOMAIN n.insts |-> i], LAMBDA i : n.insts[i].alive) IN
  <<<<"refused_values", e.op \in {"enter", "extra", "missing"} => e.err = ~e.ok>>,
    <<"failures_are_reported", e.op \in {"fail", "silent", "words"} => e.err>>,
    <<"no_error", e.op \in {"call", "load", "leave"} => ~e.err>>,
    <<"output_of_the_command", e.op = "call" => e.out = <<n.users[e.u].tpl, OtherOf(n, e.u), e.val>>>>,
    <<"temporary_folders_are_removed", e.temp = Temporary(n)>>,
    <<"instances_are_independent", e.seen = [k \in DOMAIN alive |-> <<n.insts[alive[k]].tpl, OtherOf(n, n.insts[alive[k]].user)>>]>>,
    <<"original_unchanged", e.orig = <<n.tpl, n.oth>>>>>>
CmdClauses(e) ==
  <<<<"arguments_in_order", e.got = e.args \o e.kwargs>>,
    <<"failures_are_reported", e.err = (e.code # 0)>>,
    <<"error_message", e.err => e.message = e.stderr>>,
    <<"whole_output", ~e.err => e.out = e.lines>>,
    <<"last_line_as_a_number", (~e.err /\ e.lines # <<>>) => e.last = e.number>>>>
Clauses(e) ==
  CASE e.k = "text" -> TextClauses(e) [] e.k = "cmd" -> CmdClauses(e) [] e.k = "error" -> <<<<"no_error", FALSE>>>>
TInit == /\ tid \in 1..Len(Traces) /\ l = 0 /\ bad = {} /\ st = Start
TNext ==
  \/ /\ l >= 0 /\ l < Len(Ev) /\ bad = {}
     /\ LET e == Ev[l + 1] IN
        IF e.k = "life" THEN LET n == After(st, e) IN st' = n /\ bad' = Fails(LifeClauses(n, e))
        ELSE st' = st /\ bad' = Fails(Clauses(e))
     /\ l' = l + 1 /\ UNCHANGED tid
  \/ /\ l >= 0 /\ (l = Len(Ev) \/ bad # {})
     /\ Say([tid |-> tid, l |-> l, bad |-> bad])
     /\ l' = -1 /\ UNCHANGED <<tid, bad, st>>
=============================================================================

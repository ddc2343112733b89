------------------------------ MODULE Folders ------------------------------
(* Instrumented folders: text with placeholders and commented lines, instantiated with values, and run by a command       *)
(* file: [path, ext, lines, plain (no placeholder is looked for in this type of file)]                                      *)
(* line: [ind: indent, tok: 0 (not a token line), 1 (commented code), 2 (token at a wrong place), items: pieces [t, s]]     *)
(* piece: [t |-> "txt", s |-> text] or [t |-> "arg", s |-> name]                                                          *)
(* value: [t |-> "one", s |-> text] or [t |-> "arr", c |-> values]                                                        *)
EXTENDS TraceIO, SequencesExt
IsC(ext) == ext \in {"c", "h", "cpp", "hpp"}
RECURSIVE Text(_, _)
Text(v, ext) ==
  IF v.t = "one" THEN v.s
  ELSE LET inner == FoldLeft(LAMBDA acc, i : acc \o (IF i = 1 THEN "" ELSE ", ") \o Text(v.c[i], ext), "", [i \in DOMAIN v.c |-> i]) IN
       IF IsC(ext) THEN "{" \o inner \o "}" ELSE "[" \o inner \o "]"
Piece(x, vals, ext) == IF x.t = "txt" THEN x.s ELSE Text(vals[x.s], ext)
Rendered(line, vals, ext) == FoldLeft(LAMBDA acc, x : acc \o Piece(x, vals, ext), line.ind, line.items)
Render(file, vals) == [i \in DOMAIN file.lines |-> Rendered(file.lines[i], vals, file.ext)]
NamesOfLine(line) == [i \in DOMAIN SelectSeq(line.items, LAMBDA x : x.t = "arg") |-> SelectSeq(line.items, LAMBDA x : x.t = "arg")[i].s]
NamesOf(file) == IF file.plain THEN <<>> ELSE FoldLeft(LAMBDA acc, x : acc \o NamesOfLine(x), <<>>, file.lines)
(* names of the placeholders, in the order of the paths (files are given in this order) *)
Names(files) == FoldLeft(LAMBDA acc, x : acc \o NamesOf(x), <<>>, files)
Misplaced(files) == \E f \in Range(files) : ~f.plain /\ \E x \in Range(f.lines) : x.tok = 2
Loadable(files) == LET n == Names(files) IN n # <<>> /\ Cardinality(Range(n)) = Len(n) /\ ~Misplaced(files)
Accepted(files, given) == given = Range(Names(files))
-----------------------------------------------------------------------------
(* life of a folder: version of its templates and of its other files, users of it                                          *)
(* user: [clean (works on a private copy), tpl (version of its templates), oth (version of the other files of the copy)]    *)
(* instance: [user, tpl, alive]                                                                                             *)
Start == [tpl |-> 1, oth |-> 1, users |-> <<>>, insts |-> <<>>]
OtherOf(st, u) == IF st.users[u].clean THEN st.users[u].oth ELSE st.oth
After(st, e) ==
  CASE e.op = "load" -> [st EXCEPT !.users = Append(@, [clean |-> e.clean, tpl |-> st.tpl, oth |-> st.oth])]
    [] e.op = "template" -> [st EXCEPT !.tpl = @ + 1]
    [] e.op = "other" -> [st EXCEPT !.oth = @ + 1]
    [] e.op = "enter" -> IF e.ok THEN [st EXCEPT !.insts = Append(@, [user |-> e.u, tpl |-> st.users[e.u].tpl, alive |-> TRUE])] ELSE st
    [] e.op = "leave" -> [st EXCEPT !.insts[e.u].alive = FALSE]
    [] OTHER -> st
(* temporary folders which exist: clean copies and live instances *)
Temporary(st) == Cardinality({u \in DOMAIN st.users : st.users[u].clean}) + Cardinality({i \in DOMAIN st.insts : st.insts[i].alive})
=============================================================================

----------------------------- MODULE FoldersMC -----------------------------
EXTENDS Folders
CONSTANTS Depth, Mode, EMIT
VARIABLES st, hist
vars == <<st, hist>>
E(op, u, clean, ok) == [op |-> op, u |-> u, clean |-> clean, ok |-> ok]
Calls == {"call", "extra", "missing", "fail", "silent", "words"}
Events ==
  (IF Len(st.users) < 2 THEN {E("load", 0, c, TRUE) : c \in BOOLEAN} ELSE {})
  \cup {E("template", 0, FALSE, TRUE), E("other", 0, FALSE, TRUE)}
  \cup {E("enter", u, FALSE, ok) : u \in DOMAIN st.users, ok \in BOOLEAN}
  \cup {E("leave", i, FALSE, TRUE) : i \in {j \in DOMAIN st.insts : st.insts[j].alive}}
  \cup {E(c, u, FALSE, c = "call") : u \in DOMAIN st.users, c \in Calls}
Init == st = Start /\ hist = <<>>
Next == \E e \in Events :
  /\ Len(hist) < Depth
  /\ Len(hist) = 0 => e.op = "load"
  /\ st' = After(st, e)
  /\ hist' = Append(hist, e)
  /\ (EMIT /\ Len(hist') = Depth => Say(hist'))
Spec == Init /\ [][Next]_vars
(* a clean copy never changes, the templates of a user never change, instances never see later templates *)
PropCopies == [][\A u \in DOMAIN st.users : st'.users[u] = st.users[u]]_vars
PropInstances == [][\A i \in DOMAIN st.insts : st'.insts[i].tpl = st.insts[i].tpl]_vars
InvPast == \A u \in DOMAIN st.users : st.users[u].tpl <= st.tpl /\ OtherOf(st, u) <= st.oth
InvTemporary == Temporary(st) <= Len(st.users) + Len(st.insts)
(* substitution: small texts, a value which looks like a placeholder is not substituted again *)
L(items) == [ind |-> "  ", tok |-> 0, items |-> items]
T(s) == [t |-> "txt", s |-> s]
A(s) == [t |-> "arg", s |-> s]
F(lines) == [path |-> "a.py", ext |-> "py", plain |-> FALSE, lines |-> lines]
One(s) == [t |-> "one", s |-> s]
InvText ==
  /\ Render(F(<<L(<<T("x = "), A("n")>>), L(<<T("z")>>)>>), [n |-> One("12")]) = <<"  x = 12", "  z">>
  /\ Text([t |-> "arr", c |-> <<One("1"), [t |-> "arr", c |-> <<One("2")>>]>>], "h") = "{1, {2}}"
  /\ Text([t |-> "arr", c |-> <<One("1"), [t |-> "arr", c |-> <<One("2")>>]>>], "m") = "[1, [2]]"
  /\ ~Loadable(<<F(<<L(<<A("n"), A("n")>>)>>)>>) /\ ~Loadable(<<F(<<L(<<T("n")>>)>>)>>) /\ Loadable(<<F(<<L(<<A("n"), A("m")>>)>>)>>)
=============================================================================

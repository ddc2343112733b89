------------------------------- MODULE Replay -------------------------------
(* An optimizer is a deterministic machine: what it answers is a function of *)
(* the sequence of inputs since its (seeded) creation. Saving and loading    *)
(* goes back to a state; replicas with the same seed are the same machine;   *)
(* reading, other optimizers and the global random state have no effect.     *)
(* States are the nodes of the tree of the sequences of inputs (0: root).    *)
(* memo: <<node, input>> -> [out, next]                                      *)
EXTENDS TraceIO

Start(replicas) == [node |-> [r \in 1..replicas |-> 0], slot |-> <<>>, memo |-> <<>>, n |-> 0]
(* the memo is a sequence of [node, i, out, next] *)
Known(st, node, i) == {x \in DOMAIN st.memo : st.memo[x].node = node /\ st.memo[x].i = i}
Input(st, r, i, out) ==
  LET K == Known(st, st.node[r], i) IN
  IF K # {} THEN [st EXCEPT !.node[r] = st.memo[CHOOSE x \in K : TRUE].next]
  ELSE [st EXCEPT !.n = @ + 1, !.node[r] = st.n + 1, !.memo = Append(@, [node |-> st.node[r], i |-> i, out |-> out, next |-> st.n + 1])]
Expected(st, r, i, out) == LET K == Known(st, st.node[r], i) IN IF K = {} THEN out ELSE st.memo[CHOOSE x \in K : TRUE].out
Save(st, r) == [st EXCEPT !.slot = Append(@, st.node[r])]
Load(st, r, s) == [st EXCEPT !.node[r] = st.slot[s]]
After(st, e) == CASE e.k = "in" -> Input(st, e.r, e.i, e.out) [] e.k = "save" -> Save(st, e.r) [] e.k = "load" -> Load(st, e.r, e.s)
                  [] e.k = "none" -> st
=============================================================================

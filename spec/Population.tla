---------------------------- MODULE Population ----------------------------
(* Population algorithms: differential evolution ("de"), particle swarms    *)
(* ("pso") and evolution strategies ("es", "es+": offsprings and parents,   *)
(* "es,": offsprings only). Candidates are numbered in order of appearance; *)
(* pop is a sequence of [key, c]: key is the candidate that created the     *)
(* slot. 0: the parametrization itself.                                     *)
EXTENDS TraceIO
INF == 1000000000

Pos(s, k) == LET P == {i \in DOMAIN s : s[i].key = k} IN IF P = {} THEN 0 ELSE CHOOSE i \in P : TRUE
InPop(st, k) == Pos(st.pop, k) # 0
Member(st, k) == st.pop[Pos(st.pop, k)].c
Loss(st, c) == st.cand[c].loss
PutAt(pop, k, c) == IF Pos(pop, k) # 0 THEN [pop EXCEPT ![Pos(pop, k)].c = c] ELSE Append(pop, [key |-> k, c |-> c])
Drop(pop, k) == SelectSeq(pop, LAMBDA x : x.key # k)
Remove(s, k) == SelectSeq(s, LAMBDA x : x # k)

(* queue of the slots: the told ones first, otherwise the one asked the longest ago *)
QTell(st, k) == [st EXCEPT !.told = IF k \in Range(@) THEN @ ELSE Append(@, k), !.asked = Remove(@, k)]
QDiscard(st, k) == IF k \in Range(st.asked) THEN [st EXCEPT !.asked = Remove(@, k)] ELSE [st EXCEPT !.told = Remove(@, k)]
QHead(st) == IF st.told # <<>> THEN Head(st.told) ELSE Head(st.asked)
QAsk(st) == LET k == QHead(st) IN [st EXCEPT !.told = IF @ # <<>> THEN Tail(@) ELSE @, !.asked = Append(Remove(@, k), k)]
QEmpty(st) == st.told = <<>> /\ st.asked = <<>>

New(st, lin, par, asked) == [st EXCEPT !.cand = Append(@, [lin |-> lin, par |-> par, loss |-> INF, asked |-> asked])]
N(st) == Len(st.cand)
IsES(st) == st.alg \in {"es", "es+", "es,"}
Initial(st) == IF IsES(st) THEN st.nask < st.lam \/ QEmpty(st) ELSE Len(st.pop) < st.lam

Ask(st) ==
  IF Initial(st)
  THEN LET c == N(st) + 1  s == New(st, c, 0, TRUE) IN
       [s EXCEPT !.pop = Append(@, [key |-> c, c |-> c]), !.asked = Append(@, c), !.nask = @ + 1]
  ELSE LET k == QHead(st)  s == QAsk(st)  m == Member(st, k)
           lin == IF IsES(st) THEN st.cand[m].lin ELSE k
       IN [New(s, lin, m, TRUE) EXCEPT !.nask = @ + 1]
Suggested(st) == [New(st, 0, 0, FALSE) EXCEPT !.nask = @ + 1]

Worst(st) == CHOOSE i \in DOMAIN st.pop : /\ \A j \in DOMAIN st.pop : Loss(st, st.pop[j].c) <= Loss(st, st.pop[i].c)
                                          /\ \A j \in 1..(i - 1) : Loss(st, st.pop[j].c) < Loss(st, st.pop[i].c)
NotAsked(st, c, x) ==
  LET full == Len(st.pop) >= st.lam  w == st.pop[Worst(st)]
      better == IF st.alg = "de" THEN x < Loss(st, w.c) ELSE x <= Loss(st, w.c)
      s == IF full /\ better THEN QDiscard([st EXCEPT !.pop = Drop(@, w.key)], w.key) ELSE st
  IN IF st.alg = "de" /\ InPop(st, c)  \* told again: only its slot can change
     THEN IF x <= Loss(st, Member(st, c)) THEN [st EXCEPT !.pop = PutAt(@, c, c)] ELSE st
     ELSE IF Len(s.pop) < s.lam THEN QTell([s EXCEPT !.pop = PutAt(@, c, c)], c) ELSE s

(* stable sort by loss *)
RECURSIVE Sorted(_, _)
Sorted(st, s) == IF s = <<>> THEN <<>>
  ELSE LET i == CHOOSE i \in DOMAIN s : /\ \A j \in DOMAIN s : Loss(st, s[i]) <= Loss(st, s[j])
                                        /\ \A j \in 1..(i - 1) : Loss(st, s[i]) < Loss(st, s[j])
       IN <<s[i]>> \o Sorted(st, SubSeq(s, 1, i - 1) \o SubSeq(s, i + 1, Len(s)))
RECURSIVE Uniq(_)
Uniq(s) == IF s = <<>> THEN <<>> ELSE LET r == Uniq(SubSeq(s, 1, Len(s) - 1))  x == s[Len(s)] IN IF x \in Range(r) THEN r ELSE Append(r, x)
Choices(st) == Uniq(st.wait \o (IF st.alg = "es," THEN <<>> ELSE [i \in DOMAIN st.pop |-> st.pop[i].c]))
Select(st) ==
  LET s == Sorted(st, Choices(st))  n == IF Len(s) < st.lam THEN Len(s) ELSE st.lam IN
  [st EXCEPT !.pop = [i \in 1..n |-> [key |-> s[i], c |-> s[i]]], !.wait = <<>>, !.asked = <<>>, !.told = SubSeq(s, 1, n)]

TellES(st, c, x) ==
  LET k == st.cand[c].lin  s == QTell(st, k) IN
  IF ~InPop(s, k) \/ x < Loss(s, Member(s, k)) THEN [s EXCEPT !.pop = PutAt(@, k, c)] ELSE s
TellOff(st, c) ==
  LET fresh == ~InPop(st, st.cand[c].par) /\ Len(st.pop) < st.lam
      s == IF fresh THEN QTell([st EXCEPT !.pop = PutAt(@, c, c)], c) ELSE [st EXCEPT !.wait = Append(@, c)]
  IN IF Len(s.wait) >= s.off THEN Select(s) ELSE s
Tell(st0, c, x) ==
  LET st == [st0 EXCEPT !.cand[c].loss = x]
      k == st.cand[c].lin
      asked == st0.cand[c].asked
      s == CASE st.alg = "es" -> TellES(st, c, x)
             [] st.alg \in {"es+", "es,"} -> TellOff(st, c)
             [] OTHER -> IF asked /\ InPop(st, k)
                         THEN LET q == QTell(st, k) IN
                              IF st.alg = "pso" \/ x <= Loss(st, Member(st, k)) THEN [q EXCEPT !.pop = PutAt(@, k, c)] ELSE q
                         ELSE NotAsked(st, c, x)
  IN [s EXCEPT !.cand[c].asked = FALSE]
Foreign(st, x) == LET s == New(st, 0, 0, FALSE) IN Tell(s, N(s), x)

Start(alg, lam, off) == [alg |-> alg, lam |-> lam, off |-> off, pop |-> <<>>, told |-> <<>>, asked |-> <<>>, wait |-> <<>>, nask |-> 0, cand |-> <<>>]
After(st, e) == CASE e.k = "ask" -> Ask(st) [] e.k = "sug" -> Suggested(st) [] e.k = "tell" -> Tell(st, e.c, e.x) [] e.k = "tna" -> Foreign(st, e.x)
=============================================================================

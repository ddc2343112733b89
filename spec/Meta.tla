-------------------------------- MODULE Meta --------------------------------
(* Optimizers made of other optimizers: chain, portfolio, split of the        *)
(* variables, rescaling, wrapper (selection by a wizard, metamodel).          *)
(* cfg: [kind, n, W (workers), B (budget, 0: none), spec (chain: budgets),    *)
(*  nocross, warm (numerator over 10, -1: none), mb (member budgets, 0: none),*)
(*  mw (member workers), oneshot, refuse (members refuse points which they    *)
(*  did not ask), seq (members without parallelism), dims, num, den (scale),  *)
(*  prog (progressive split), equal (variables are shared equally)]           *)
EXTENDS TraceIO, SequencesExt, FiniteSetsExt

Sum(s) == FoldLeft(LAMBDA a, b : a + b, 0, s)
Max2(a, b) == IF a > b THEN a ELSE b
RECURSIVE Isqrt(_, _)
Isqrt(x, r) == IF (r + 1) * (r + 1) > x THEN r ELSE Isqrt(x, r + 1)
(* budget of a member of the chain *)
Named(cfg, b) == LET B == cfg.B  dim == Sum(cfg.dims) IN
  CASE b = "num_workers" -> cfg.W
    [] b = "dimension" -> dim
    [] b = "half" -> IF B > 0 THEN B \div 2 ELSE cfg.W
    [] b = "third" -> IF B > 0 THEN B \div 3 ELSE cfg.W
    [] b = "fourth" -> IF B > 0 THEN B \div 4 ELSE cfg.W
    [] b = "tenth" -> IF B > 0 THEN B \div 10 ELSE cfg.W
    [] b = "equal" -> IF B > 0 THEN B \div cfg.n ELSE cfg.W
    [] b = "most" -> IF B > 0 THEN (B * 4) \div 5 ELSE cfg.W
    [] b = "sqrt" -> IF B > 0 THEN Isqrt(B, 0) ELSE cfg.W
ChainBudget(cfg, i) == IF cfg.spec[i].name = "" THEN cfg.spec[i].value ELSE Max2(1, Named(cfg, cfg.spec[i].name))
Cum(cfg, i) == Sum([j \in 1..i |-> ChainBudget(cfg, j)])

Start(cfg) == [na |-> 0, nt |-> 0, c |-> <<>>, pend |-> [m \in 1..cfg.n |-> {}], ma |-> [m \in 1..cfg.n |-> 0],
               mt |-> [m \in 1..cfg.n |-> 0], cur |-> -1, sel |-> 0, best |-> 1000000, bestm |-> 0, sug |-> 0, last |-> 0]
(* ---- who is asked *)
ChainAt(cfg, st) == LET S == {i \in 1..(cfg.n - 1) : st.na < Cum(cfg, i)} IN IF S = {} THEN cfg.n ELSE SetMin(S)
Turns(cfg) == FlattenSeq([i \in 1..cfg.n |-> [j \in 1..cfg.mw[i] |-> i]])
Free(cfg, st, m) == Cardinality(st.pend[m]) < cfg.mw[m] /\ ~(cfg.oneshot[m] /\ cfg.mb[m] > 0 /\ st.ma[m] >= cfg.mb[m])
Turn(cfg, st, k) == LET T == Turns(cfg) IN T[((st.cur + 1 + k) % Len(T)) + 1]
Skip(cfg, st) == LET L == Len(Turns(cfg))  S == {k \in 0..(L - 1) : Free(cfg, st, Turn(cfg, st, k))} IN IF S = {} THEN 0 ELSE SetMin(S)
(* a single member is kept after the warmup: the one which provided the best point *)
Sel(cfg, st) == IF st.sel > 0 THEN st.sel
                ELSE IF cfg.warm >= 0 /\ cfg.n > 1 /\ (cfg.warm * cfg.B) \div 10 < st.nt /\ st.bestm > 0 /\ (cfg.W = 1 \/ cfg.mw[st.bestm] > 1) THEN st.bestm ELSE 0
PortAt(cfg, st) == IF Sel(cfg, st) > 0 THEN Sel(cfg, st) ELSE IF cfg.n = 1 THEN 1 ELSE Turn(cfg, st, Skip(cfg, st))
Later(cfg, st, i) == cfg.prog /\ i > 1 /\ (i - 1) * (i - 1) * cfg.B > 2 * st.na * cfg.n * cfg.n
Asked(cfg, st) == CASE cfg.kind = "chain" -> <<ChainAt(cfg, st)>> [] cfg.kind = "portfolio" -> <<PortAt(cfg, st)>>
                    [] cfg.kind = "split" -> SelectSeq([i \in 1..cfg.n |-> i], LAMBDA i : ~Later(cfg, st, i))
                    [] OTHER -> <<1>>
Pos(s, x) == CHOOSE j \in DOMAIN s : s[j] = x
Part(cfg, e, i) == IF \E j \in DOMAIN e.m : e.m[j] = i THEN e.md[Pos(e.m, i)] ELSE [j \in 1..cfg.dims[i] |-> 0]
Answer(cfg, e) == CASE cfg.kind = "split" -> FlattenSeq([i \in 1..cfg.n |-> Part(cfg, e, i)])
                    [] cfg.kind = "rescaled" -> [j \in DOMAIN e.md[1] |-> (e.md[1][j] * cfg.num) \div cfg.den]
                    [] OTHER -> e.md[1]
(* ---- who is told: [m, c, d] *)
Prov(st, c) == IF c = 0 THEN {} ELSE {st.c[c].m[j] : j \in DOMAIN st.c[c].m}
Live(cfg, st) == IF st.sel > 0 THEN {st.sel} ELSE 1..cfg.n
Concerned(cfg, st, c) ==
  CASE cfg.kind = "chain" -> {k \in 1..cfg.n : (k = cfg.n \/ st.nt < Cum(cfg, k) \/ (c > 0 /\ ~st.c[c].told /\ k \in Prov(st, c))) /\ (cfg.nocross => k \in Prov(st, c))}
    [] cfg.kind = "portfolio" -> Live(cfg, st)
    [] OTHER -> 1..cfg.n
Start1(cfg, m) == Sum([j \in 1..(m - 1) |-> cfg.dims[j]])
Told(cfg, st, m, c, d) ==
  LET mine == c > 0 /\ m \in Prov(st, c) /\ ~st.c[c].told
      num == IF mine THEN st.c[c].mc[Pos(st.c[c].m, m)] ELSE 0 IN
  CASE cfg.kind = "split" -> [m |-> m, c |-> num, d |-> SubSeq(d, Start1(cfg, m) + 1, Start1(cfg, m) + cfg.dims[m])]
    [] cfg.kind = "rescaled" -> [m |-> m, c |-> num, d |-> [j \in DOMAIN d |-> (d[j] * cfg.den) \div cfg.num]]
    [] OTHER -> [m |-> m, c |-> IF c > 0 /\ st.c[c].mc # <<>> THEN st.c[c].mc[1] ELSE 0, d |-> d]
Expected(cfg, st, c, d) == {Told(cfg, st, m, c, d) : m \in Concerned(cfg, st, c)}
(* a member refuses a point which it did not provide *)
Refuses(cfg, st, m, c) == cfg.refuse[m] /\ ~(c > 0 /\ m \in Prov(st, c) /\ st.c[c].mc[Pos(st.c[c].m, m)] \in st.pend[m])
AllRefuse(cfg, st, c) ==
  LET S == Concerned(cfg, st, c) IN
  /\ cfg.kind \in {"portfolio", "chain"}
  /\ S # {}
  /\ ~(c > 0 /\ Prov(st, c) # {} /\ ~st.c[c].told)  (* an asked point is never refused *)
  /\ \A m \in S : Refuses(cfg, st, m, c)
(* ---- transitions *)
Ask(cfg, st, e) ==
  IF e.sug THEN [st EXCEPT !.na = @ + 1, !.c = Append(@, [m |-> <<>>, mc |-> <<>>, out |-> e.out, told |-> FALSE]), !.sug = @ - 1]
  ELSE LET first(m) == cfg.kind = "portfolio" /\ Sel(cfg, st) = 0 /\ m > 2 /\ st.ma[m] = 0 /\ st.mt[m] = 0  (* starts with a random point *) IN
       [st EXCEPT !.na = @ + 1, !.last = IF e.m = <<>> THEN st.na ELSE @, !.c = Append(@, [m |-> e.m, mc |-> e.mc, out |-> e.out, told |-> FALSE]), !.sel = IF cfg.kind = "portfolio" THEN Sel(cfg, st) ELSE 0,
          !.cur = IF cfg.kind = "portfolio" /\ Sel(cfg, st) = 0 /\ cfg.n > 1 THEN @ + 1 + Skip(cfg, st) ELSE @,
          !.ma = [m \in 1..cfg.n |-> @[m] + (IF \E j \in DOMAIN e.m : e.m[j] = m THEN 1 ELSE 0)],
          !.pend = [m \in 1..cfg.n |-> @[m] \cup {e.mc[j] : j \in {x \in DOMAIN e.m : e.m[x] = m /\ ~first(m)}}]]
Tell(cfg, st, e) ==
  LET c == e.c
      refused == AllRefuse(cfg, st, c)
      s1 == [st EXCEPT !.best = IF e.x < @ THEN e.x ELSE @, !.bestm = IF e.x < st.best THEN (IF Prov(st, c) = {} THEN 0 ELSE SetMin(Prov(st, c))) ELSE @] IN
  IF refused THEN s1
  ELSE [s1 EXCEPT !.nt = @ + 1, !.c = IF c > 0 THEN [@ EXCEPT ![c].told = TRUE] ELSE @,
                  !.mt = [m \in 1..cfg.n |-> @[m] + (IF m \in Concerned(cfg, st, c) /\ ~Refuses(cfg, st, m, c) THEN 1 ELSE 0)],
                  !.pend = [m \in 1..cfg.n |-> IF m \in Concerned(cfg, st, c) /\ m \in Prov(st, c) THEN @[m] \ {st.c[c].mc[Pos(st.c[c].m, m)]} ELSE @[m]]]
After(cfg, st, e) == CASE e.k = "ask" -> Ask(cfg, st, e) [] e.k = "tell" -> Tell(cfg, st, e) [] e.k = "sug" -> [st EXCEPT !.sug = @ + 1] [] OTHER -> st
=============================================================================

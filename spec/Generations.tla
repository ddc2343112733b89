----------------------------- MODULE Generations -----------------------------
(* Optimizers which wait for a generation of told points (CMA and its         *)
(* library, EDA, TBPSA with the control of the population size), and those    *)
(* which start from the best point (one plus one: step size, reevaluations).  *)
(* cfg: [fam ("cma", "pop", "one"), lam, mu, minmu, W (workers), R (length of *)
(*  the record in populations), adapt, noise ("", "random", "optimistic",     *)
(*  "bandit"), nf (inverse of the noise factor)]                              *)
EXTENDS TraceIO, SequencesExt
Start(cfg) == [na |-> 0, nt |-> 0, lam |-> cfg.lam, mu |-> cfg.mu, wait |-> <<>>, rec |-> <<>>, parents |-> <<0>>, chosen |-> <<>>, gens |-> 0,
               queue |-> <<>>, told |-> <<>>, arch |-> {}, best |-> <<>>, up |-> 0, down |-> 0, unsure |-> FALSE]
ByLoss(s) == SortSeq(s, LAMBDA a, b : a.loss < b.loss)
SumOf(s) == FoldLeft(LAMBDA a, b : a + b, 0, s)
SumSq(s) == FoldLeft(LAMBDA a, b : a + b * b, 0, s)
(* Population size: the losses of the first and of the last populations of the record are compared (z test) *)
Stats(s, lam) == LET f == SubSeq(s, 1, lam)  g == SubSeq(s, Len(s) - lam + 1, Len(s)) IN
  [d |-> SumOf(f) - SumOf(g), v |-> lam * (SumSq(f) + SumSq(g)) - SumOf(f) * SumOf(f) - SumOf(g) * SumOf(g)]
(* no significant improvement: the population grows *)
Grows(s, lam) == LET z == Stats(s, lam) IN z.d < 0 \/ z.d * z.d * (lam - 1) < 4 * z.v
Tie(s, lam) == LET z == Stats(s, lam) IN z.d > 0 /\ z.d * z.d * (lam - 1) = 4 * z.v
Max2(a, b) == IF a > b THEN a ELSE b
Resize(cfg, mu, grow) ==
  LET m == IF grow THEN 2 * mu ELSE Max2(cfg.minmu, (mu * 84) \div 100)
      lam == IF cfg.W > 1 THEN Max2(4 * m, cfg.W) ELSE 4 * m IN
  [lam |-> lam, mu |-> IF cfg.W > 1 THEN lam \div 4 ELSE m]
Control(cfg, st, loss) ==
  LET r == Append(st.rec, loss) IN
  IF ~cfg.adapt THEN st
  ELSE IF Len(r) < cfg.R * st.lam THEN [st EXCEPT !.rec = r]
  ELSE LET z == Resize(cfg, st.mu, Grows(r, st.lam)) IN [st EXCEPT !.rec = <<>>, !.lam = z.lam, !.mu = z.mu]
Complete(st) == Len(st.wait) >= st.lam
(* the points of the generation which are told, in order, to the library (cma) or averaged (the best ones) *)
Generation(cfg, st, e) == LET s == [Control(cfg, st, e.loss) EXCEPT !.wait = Append(@, [u |-> e.u, loss |-> e.loss, x |-> e.x])] IN s
Best(s, n) == LET r == ByLoss(s) IN SubSeq(r, 1, IF n < Len(r) THEN n ELSE Len(r))
Close(s, refused) ==
  IF refused THEN [s EXCEPT !.wait = <<>>]
  ELSE LET b == Best(s.wait, s.mu) IN
       [s EXCEPT !.wait = <<>>, !.gens = @ + 1, !.chosen = b, !.parents = [i \in DOMAIN b |-> b[i].u], !.told = @ \o s.wait]
(* one plus one: the step doubles when the best loss is improved, is reduced when it is not *)
Lower(st, loss) == st.best = <<>> \/ loss < st.best[1].loss
Step(st, loss) == IF Lower(st, loss) THEN [st EXCEPT !.up = @ + 1] ELSE IF loss = st.best[1].loss THEN st ELSE [st EXCEPT !.down = @ + 1]
Reevaluates(cfg, st) == LET n == Cardinality(st.arch) IN
  CASE cfg.noise = "" -> FALSE
    [] cfg.noise = "bandit" -> ~(20 * st.na >= n * n * n)
    [] OTHER -> st.na > 0 /\ cfg.nf * st.na <= n * n * n
Parent(st) == st.parents[(st.na % Len(st.parents)) + 1]
Record(st, e) == [st EXCEPT !.nt = @ + 1, !.arch = @ \cup {e.x}, 
    !.best = IF Lower(st, e.loss) THEN <<[loss |-> e.loss, us |-> {e.u}, x |-> e.x]>> ELSE IF e.loss = @[1].loss THEN <<[@[1] EXCEPT !.us = @ \cup {e.u}]>> ELSE @]
After(cfg, st, e) ==
  CASE e.k = "ask" -> [st EXCEPT !.na = @ + 1, !.queue = IF cfg.fam # "cma" THEN @ ELSE IF @ = <<>> THEN Tail(e.lib) ELSE Tail(@)]
    [] e.k = "tell" ->
         IF cfg.fam = "one" THEN Record(Step(st, e.loss), e)
         ELSE LET s == Record(Generation(cfg, st, e), e) IN IF Complete(s) THEN [Close(s, e.refused) EXCEPT !.unsure = @ \/ e.unsure] ELSE s
    [] e.k = "restart" -> [st EXCEPT !.told = <<>>, !.unsure = FALSE]
    [] OTHER -> st
=============================================================================

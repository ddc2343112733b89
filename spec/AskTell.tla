------------------------------ MODULE AskTell ------------------------------
(***************************************************************************)
(* The ask / tell / suggest protocol of an optimizer, and its records.     *)
(*                                                                         *)
(* A candidate is identified by an integer (given in the order in which    *)
(* candidates appear), a point of the standardized space by an integer     *)
(* token.  Losses are integers; BIG stands for any non-finite or huge loss.*)
(*                                                                         *)
(* state:                                                                  *)
(*   asked    outstanding asked candidates (asked and not told yet)        *)
(*   seen     all candidates which appeared so far                         *)
(*   nask, ntell, nna   the three public counters                          *)
(*   sugg     stack of suggested values (LIFO), negative for the values    *)
(*            which do not satisfy the constraints (they are dropped)      *)
(*   arch     point -> [n, sum, min, big]: record of the losses told       *)
(***************************************************************************)
EXTENDS TraceIO

BIG == 1000000000          \* losses and estimations are capped to this value

EmptyArch == <<>>          \* function with empty domain

StInit == [asked |-> {}, seen |-> {}, nask |-> 0, ntell |-> 0, nna |-> 0,
           sugg |-> <<>>, arch |-> EmptyArch, told |-> <<>>]

(* ---- records --------------------------------------------------------- *)
Record(arch, pt, loss) ==
  LET big == loss >= BIG
      old == IF pt \in DOMAIN arch THEN arch[pt]
             ELSE [n |-> 0, sum |-> 0, min |-> BIG, big |-> FALSE]
      new == [n   |-> old.n + 1,
              sum |-> IF big THEN old.sum ELSE old.sum + loss,
              min |-> IF loss < old.min THEN loss ELSE old.min,
              big |-> old.big \/ big]
  IN With(arch, pt, new)

(* suggestions without the last ones which are refused by the constraints *)
RECURSIVE Usable(_)
Usable(sugg) == IF sugg # <<>> /\ sugg[Len(sugg)] < 0 THEN Usable(SubSeq(sugg, 1, Len(sugg) - 1)) ELSE sugg

(* ---- transitions ------------------------------------------------------ *)
(* e.k = "ask":     candidate e.id at value e.val is provided               *)
(* e.k = "suggest": value e.val is suggested (e.refused: it does not satisfy *)
(*                  the constraints)                                        *)
(* e.k = "tell":    candidate e.id at point e.pt, loss e.loss; e.err # ""   *)
(*                  if it was refused; e.rec: whether the point is recorded *)
After(st, e) ==
  CASE e.k = "ask" ->
         IF e.err # "" THEN st
         ELSE IF Usable(st.sugg) # <<>>
         THEN [st EXCEPT !.nask = @ + 1, !.seen = @ \cup {e.id},
                         !.sugg = SubSeq(Usable(@), 1, Len(Usable(@)) - 1)]
         ELSE [st EXCEPT !.nask = @ + 1, !.seen = @ \cup {e.id}, !.asked = @ \cup {e.id}, !.sugg = <<>>]
    [] e.k = "suggest" -> [st EXCEPT !.sugg = Append(@, IF Has(e, "refused") THEN -e.val ELSE e.val)]
    [] e.k = "tell" ->
         LET arch == IF e.rec THEN Record(st.arch, e.pt, e.loss) ELSE st.arch
         IN IF e.err # "" THEN [st EXCEPT !.arch = arch, !.seen = @ \cup {e.id}]
            ELSE [st EXCEPT !.arch = arch,
                            !.seen = @ \cup {e.id},
                            !.ntell = @ + 1,
                            !.nna = IF e.id \in st.asked THEN @ ELSE @ + 1,
                            !.asked = @ \ {e.id}]
    [] OTHER -> st

(* ---- what a model of the system guarantees (checked on AskTellMC) ------ *)
Accounting(st) ==
  /\ st.asked \subseteq st.seen
  /\ st.nna <= st.ntell
  /\ Cardinality(st.asked) <= st.nask
  \* every asked (and not suggested) candidate is either outstanding or told exactly once as such
  /\ st.ntell - st.nna + Cardinality(st.asked) <= st.nask

RECURSIVE SumN(_, _)
SumN(arch, D) == IF D = {} THEN 0
                 ELSE LET x == CHOOSE y \in D : TRUE IN arch[x].n + SumN(arch, D \ {x})
RecordsConsistent(st) == SumN(st.arch, DOMAIN st.arch) >= st.ntell
=============================================================================

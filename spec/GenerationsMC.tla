--------------------------- MODULE GenerationsMC ---------------------------
EXTENDS Generations
CONSTANTS Fam, Lam, Mu, MinMu, W, R, Adapt, Losses, MaxOut, MaxLen, Foreign, EMIT
VARIABLES st, out, hist, used
vars == <<st, out, hist, used>>
Cfg == [fam |-> Fam, lam |-> Lam, mu |-> Mu, minmu |-> MinMu, W |-> W, R |-> R, adapt |-> Adapt, noise |-> ""]
Init == st = Start(Cfg) /\ out = {} /\ hist = <<>> /\ used = <<>>
Made == st.na + Cardinality({i \in DOMAIN hist : hist[i].k = "tell" /\ hist[i].c = 0})
Tell(u, c, loss) ==
  LET e == [k |-> "tell", u |-> u, loss |-> loss, x |-> u, refused |-> FALSE, unsure |-> FALSE]  s == After(Cfg, st, e) IN
  /\ st' = s /\ hist' = Append(hist, [k |-> "tell", c |-> c, loss |-> loss])
  /\ used' = IF s.gens > st.gens THEN Append(used, [n |-> Len(st.wait) + 1, lam |-> Generation(Cfg, st, e).lam, us |-> {st.wait[i].u : i \in DOMAIN st.wait} \cup {u}]) ELSE used
Next == /\ Len(hist) < MaxLen
        /\ \/ /\ Cardinality(out) < MaxOut /\ st' = After(Cfg, st, [k |-> "ask", lib |-> <<1>>]) /\ out' = out \cup {st.na + 1}
              /\ hist' = Append(hist, [k |-> "ask"]) /\ UNCHANGED used
           \/ \E c \in out, x \in Losses : Tell(c, c, x) /\ out' = out \ {c}
           \/ /\ Foreign /\ \E x \in Losses : Tell(1000 + Len(hist), 0, x) /\ UNCHANGED out
        /\ (EMIT /\ Len(hist') = MaxLen => Say(hist'))
Spec == Init /\ [][Next]_vars
Tells == {i \in DOMAIN hist : hist[i].k = "tell"}
(* each told point belongs to exactly one generation or is waiting for its generation *)
InvOnce == Fam # "one" =>
  /\ Cardinality(Tells) = Len(st.wait) + SumOf([i \in DOMAIN used |-> used[i].n])
  /\ \A i, j \in DOMAIN used : i # j => used[i].us \cap used[j].us = {}
(* generations are complete, and there are enough points for all the workers *)
InvSize == Fam # "one" => /\ Len(st.wait) < st.lam \/ Adapt
                          /\ \A i \in DOMAIN used : used[i].n >= used[i].lam
                          /\ st.lam >= W /\ st.mu >= 1 /\ st.mu <= st.lam /\ (Adapt => Len(st.rec) < R * st.lam)
InvParents == Fam # "one" => Len(st.parents) >= 1 /\ (st.gens > 0 => Len(st.parents) <= st.lam \/ Adapt)
(* the best point never gets worse; the step is doubled once per improvement *)
InvStep == Fam = "one" => /\ st.up <= st.nt /\ st.up + st.down <= st.nt
                          /\ (st.nt > 0 <=> st.up >= 1)
                          /\ (st.nt > 0 => \A i \in Tells : hist[i].loss >= st.best[1].loss)
=============================================================================

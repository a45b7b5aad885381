------------------------------- MODULE Optvp -------------------------------
(* Optimisation of the variational posterior as a transition system: rank the quick
   candidates, run the slow optimisations from the right ones, keep the best of their
   midpoints and endpoints, then drop components of negligible weight one at a time. *)
EXTENDS Term, TLC, Json, FiniteSets, SequencesExt
CONSTANTS Sim
VARIABLES hist, done
vars == <<hist, done>>
Rnd(S)  == RandomElement(IF done THEN {} ELSE S)
Wt(q)   == q[Rnd(DOMAIN q)]
CeilDiv(a, b) == (a + b - 1) \div b

\* weights in units of their sum; the threshold is tw / 151
Units   == <<1, 1, 1, 2, 3, 4, 5, 20, 25>>
Setup ==
  LET K == Rnd(1..5) S == Rnd(1..4) F == 3 * S + Rnd(0..3) st == Rnd({TRUE, FALSE})
  IN [D |-> Rnd(1..3), K |-> K, K0 |-> Rnd(1..K), F |-> F, S |-> S, stoch |-> st, mid |-> Rnd({TRUE, FALSE}), warm |-> Rnd(1..6) = 1, ns |-> Rnd(1..3),
      vals |-> [t \in 1..3 |-> [i \in 1..F |-> TLCEval(Rnd(1..4000)) * 120 + t * 40 + i]],
      fin |-> [r \in 1..(2 * S) |-> TLCEval(Rnd(-40..40)) * 16 + r],       \* value of each end (even) and midpoint (odd)
      u |-> [r \in 1..(2 * S) |-> [k \in 1..K |-> TLCEval(Wt(Units))]],
      d |-> [k \in 1..K |-> TLCEval(Rnd(-6..6))], ds |-> [k \in 1..K |-> TLCEval(Wt(<<0, 0, 0, 1, 2>>))], sd |-> Rnd(1..6),
      tw |-> Wt(<<2, 5, 9, 14>>), tol |-> Rnd(1..4), mult |-> Rnd(1..4), W |-> Rnd(0..3)]
Weights(p) == ~p.warm
HasMid(p)  == p.stoch /\ p.mid /\ p.K > 1

\* candidates: type t, number j within the type
NumT(p, t) == IF p.S = 1 THEN (IF t = 1 THEN p.F ELSE 0)
              ELSE IF t < 3 THEN CeilDiv(p.F, 3) ELSE p.F - 2 * CeilDiv(p.F, 3)
Cands(p) == {<<t, j>> \in (1..3) \X (1..p.F) : j <= NumT(p, t)}
V(p, c)  == p.vals[c[1]][c[2]]
BestC(p, S) == CHOOSE c \in S : \A o \in S : V(p, c) <= V(p, o)
TypesOf(p, r) == IF p.S = 1 THEN 1..3 ELSE IF p.S = 2 THEN (IF r = 1 THEN {1} ELSE {2, 3}) ELSE {((r - 1) % 3) + 1}
RECURSIVE Starts(_, _, _)
Starts(p, r, left) == IF r > p.S THEN <<>>
                      ELSE LET c == BestC(p, {x \in left : x[1] \in TypesOf(p, r)})
                           IN <<V(p, c)>> \o Starts(p, r + 1, left \ {c})
\* the best of the evaluated ends and midpoints
Ends(p)  == {r \in 1..(2 * p.S) : r % 2 = 0 \/ HasMid(p)}
Win(p)   == CHOOSE r \in Ends(p) : \A o \in Ends(p) : p.fin[r] <= p.fin[o]

\* pruning: all the outcomes, since the component is chosen at random
Sum(s, f) == FoldLeft(LAMBDA a, b : a + f[b], 0, s)
Small(p, u, kept) == {k \in Range(kept) : 151 * u[k] < p.tw * Sum(kept, u)}
Negligible(p, k) == AbsI(p.d[k] + p.W * p.ds[k]) * 8 < p.tol * p.mult * 4
RECURSIVE Prune(_, _, _, _)
Prune(p, u, kept, checked) ==
  LET c == Small(p, u, kept) \ checked
  IN IF c = {} THEN {kept}
     ELSE UNION {IF Negligible(p, k) THEN Prune(p, u, SelectSeq(kept, LAMBDA i : i # k), checked)
                 ELSE Prune(p, u, kept, checked \cup {k}) : k \in c}
Allk(p)  == [k \in 1..p.K |-> k]
Kepts(p) == IF Weights(p) THEN Prune(p, p.u[Win(p)], Allk(p), {}) ELSE {Allk(p)}
Gone(p, kept) == {k \in 1..p.K : k \notin Range(kept)}
RECURSIVE SumS(_, _)
SumS(S, f) == IF S = {} THEN 0 ELSE LET x == CHOOSE y \in S : TRUE IN f[x] + SumS(S \ {x}, f)
Outcome(p, kept) ==
  LET u == p.u[Win(p)] g == Gone(p, kept) n == Len(kept) ids == [k \in 1..p.K |-> k]
  IN [run |-> Win(p), kept |-> kept, K |-> n, pruned |-> p.K - n,
      w |-> [i \in 1..n |-> E(IF Weights(p) THEN Rat(u[kept[i]], Sum(kept, u)) ELSE Rat(1, n))],
      sizes |-> <<n, n, n, n, n, n>>,
      elbo |-> E(Rat(4 * SumS(g, p.d) - p.fin[Win(p)], 16)), sd |-> E(Rat(40 + p.sd + SumS(g, [k \in 1..p.K |-> -p.ds[k]]), 4)),
      G |-> 7 * n + Sum(kept, ids), Gsd |-> E(Sqrt(n + 1)), Hsd |-> E(Sqrt(n + 2)), varss |-> 3 * n + 1,
      I |-> [s \in 1..p.ns |-> [i \in 1..n |-> 10 * s + kept[i]]],
      J |-> [s \in 1..p.ns |-> [i \in 1..n |-> [j \in 1..n |-> 100 * s + 10 * kept[i] + kept[j]]]], stable |-> FALSE]
Step(p) == [op |-> "optimize", p |-> p,
            outs |-> SetToSeq({Outcome(p, k) : k \in Kepts(p)}),
            exp |-> [starts |-> Starts(p, 1, Cands(p)), cands |-> [t \in 1..3 |-> NumT(p, t)], okcands |-> TRUE, same |-> TRUE, out |-> "none of the allowed outcomes"]]
Init == hist = <<>> /\ done = FALSE
One  == /\ ~done /\ done' = TRUE
        /\ \E p \in {TLCEval(Setup)} : hist' = <<TLCEval(Step(p))>>
Next == One
Spec == Init /\ [][Next]_vars
\* at least one component is left; every removed one was light when removed and negligible
Light == done => \A i \in DOMAIN hist[1].outs : LET o == hist[1].outs[i] p == hist[1].p
                                               IN /\ o.K >= 1 /\ o.K + o.pruned = p.K
                                                  /\ \A k \in Gone(p, o.kept) : Negligible(p, k) /\ Weights(p)
Emit == done => PrintT(ToJson(hist))
=============================================================================

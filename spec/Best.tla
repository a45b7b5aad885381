-------------------------------- MODULE Best --------------------------------
(* The choice of the best solution among the recorded iterations.  A history is a
   sequence of records with the bound e, its uncertainty sd, the stability verdict
   st and the reliability index R = [n, d] (d = 0: infinite); iteration i is at
   position i + 1. *)
EXTENDS Term, FiniteSets
LOCAL INSTANCE TLC

RInf == [n |-> 1, d |-> 0]
CeilDiv(a, b) == (a + b - 1) \div b
MaxI(a, b) == IF a >= b THEN a ELSE b
MinI(a, b) == IF a <= b THEN a ELSE b
SetMax(S) == CHOOSE x \in S : \A y \in S : y <= x
SetMin(S) == CHOOSE x \in S : \A y \in S : x <= y

ElcboOf(Hq, i, k) == Hq[i + 1].e - k * Hq[i + 1].sd
\* the solution among the first m+1 iterations: the last one if it is stable, else the
\* best bound (first of equals) since the last stable one, or in the last fraction fb4/4
BestOf(Hq, m, safe, fb4) ==
  IF Hq[m + 1].st THEN m
  ELSE LET st == {i \in 0..m : Hq[i + 1].st}
           lo == IF st = {} THEN MaxI(0, CeilDiv(4 * m - m * fb4, 4)) ELSE SetMax(st)
           best == SetMax({ElcboOf(Hq, i, safe) : i \in lo..m})
       IN SetMin({i \in lo..m : ElcboOf(Hq, i, safe) = best})

\* by ranks (position, bound, reliability, stability), the smallest sum wins; ties in the
\* bound or the reliability index leave the order open: -1 unless the winner is certain
RLeq(a, b) == IF a.d = 0 THEN b.d = 0 ELSE b.d = 0 \/ a.n * b.d <= b.n * a.d
RankLo(Hq, m, safe) == TLCEval([i \in 0..m |->
  (m + 1 - i) + (1 + Cardinality({j \in 0..m : ElcboOf(Hq, j, safe) > ElcboOf(Hq, i, safe)}))
  + (1 + Cardinality({j \in 0..m : ~RLeq(Hq[i + 1].R, Hq[j + 1].R)})) + (IF Hq[i + 1].st THEN 1 ELSE m)])
RankHi(Hq, m, safe) == TLCEval([i \in 0..m |->
  (m + 1 - i) + Cardinality({j \in 0..m : ElcboOf(Hq, j, safe) >= ElcboOf(Hq, i, safe)})
  + Cardinality({j \in 0..m : RLeq(Hq[j + 1].R, Hq[i + 1].R)}) + (IF Hq[i + 1].st THEN 1 ELSE m)])
RankOf(Hq, m, safe) ==
  IF Hq[m + 1].st THEN m
  ELSE LET lo == RankLo(Hq, m, safe)
           hi == RankHi(Hq, m, safe)
           sure == {i \in 0..m : \A j \in 0..m \ {i} : hi[i] < lo[j]}
       IN IF sure = {} THEN -1 ELSE CHOOSE i \in sure : TRUE
=============================================================================

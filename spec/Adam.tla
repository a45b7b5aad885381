-------------------------------- MODULE Adam --------------------------------
(* The stochastic optimiser: moment estimates, decaying step, projection to the bounds,
   early stopping on a flat trend over the last batch, average of the last batch.
   The objective is  sum_d a_d (x_d - c_d)^2 / 2 + e_i  with gradient a_d (x_d - c_d) + h_id
   at the i-th call.  Everything is symbolic; $x<i>_<d> names the points. *)
EXTENDS Term, TLC, Json, SequencesExt
CONSTANTS MaxLen
VARIABLES hist, done
vars == <<hist, done>>
Rnd(S) == RandomElement(IF done THEN {} ELSE S)
Wt(q)  == q[Rnd(DOMAIN q)]
B == 20      \* batch
Nm(k, i, d) == "$" \o k \o ToString(i) \o "_" \o ToString(d)
Y(i) == "$y" \o ToString(i)
XX(i, d) == IF i = 0 THEN Nm("x", 0, d) ELSE Nm("x", i, d)
Defs(p) ==
  LET n == p.max
      Grad(i, d) == Add(Mul(p.a[d], Sub(XX(i - 1, d), p.c[d])), p.h[i][d])
      Step(i) == Add(p.mmin, Mul(Sub(p.mmax, p.mmin), Exp(Div(-i, p.decay))))
      Clip(t, d) == Min2(p.ub[d], Max2(p.lb[d], t))
      One(i) == <<<<Y(i), Add(SumT([d \in 1..p.D |-> Mul(Half(p.a[d]), Sqr(Sub(XX(i - 1, d), p.c[d])))]), p.e[i])>>>>
                \o [d \in 1..p.D |-> <<Nm("g", i, d), Grad(i, d)>>]
                \o [d \in 1..p.D |-> <<Nm("m", i, d), Add(IF i = 1 THEN 0 ELSE Mul(Rat(9, 10), Nm("m", i - 1, d)), Mul(Rat(1, 10), Nm("g", i, d)))>>]
                \o [d \in 1..p.D |-> <<Nm("v", i, d), Add(IF i = 1 THEN 0 ELSE Mul(Rat(999, 1000), Nm("v", i - 1, d)), Mul(Rat(1, 1000), Sqr(Nm("g", i, d))))>>]
                \o [d \in 1..p.D |-> <<Nm("x", i, d), Clip(Sub(XX(i - 1, d), Div(Mul(Step(i), Div(Nm("m", i, d), Sub(1, Pow(Rat(9, 10), i)))),
                                        Add(Sqrt(Div(Nm("v", i, d), Sub(1, Pow(Rat(999, 1000), i)))), Sqrt("eps")))), d)>>]
  IN [d \in 1..p.D |-> <<Nm("x", 0, d), p.x0[d]>>] \o FlattenSeq([i \in 1..n |-> One(i)])
\* trend of the last batch ending at i: least squares line, residual variance of its slope
Ws(i) == (i - B + 1)..i
Slope(i) == Div(SumT([j \in 1..B |-> Mul(Rat(2 * j - B - 1, 2), Y(i - B + j))]), 665)
MeanY(lo, hi) == Div(SumT([j \in 1..(hi - lo + 1) |-> Y(lo + j - 1)]), hi - lo + 1)
VarS(i) == Div(Div(SumT([j \in 1..B |-> Sqr(Sub(Y(i - B + j), Add(MeanY(i - B + 1, i), Mul(Slope(i), Rat(2 * j - B - 1, 2)))))]), B - 2), 665)
MeanX(lo, hi, d) == Div(SumT([j \in 1..(hi - lo + 1) |-> XX(lo + j - 1, d)]), hi - lo + 1)
Dx(p, i) == Sqrt(SumT([d \in 1..p.D |-> Div(Sqr(Sub(MeanX(i - B + 1, i, d), MeanX(i - 2 * B + 1, i - B, d))), B)]))
\* the last batch, or all points if there are fewer
Win(n) == IF n > B THEN n - B + 1 ELSE 1
End(p, n) == [n |-> n, may |-> p.early /\ n % B = 0 /\ n >= 2 * B,
              dx |-> IF n >= 2 * B THEN E(Dx(p, n)) ELSE 0, slope |-> IF n >= 2 * B THEN E(Abs(Slope(n))) ELSE 0,
              tol |-> IF n >= 2 * B THEN E(Sqrt(Add(VarS(n), Sqr(p.tol)))) ELSE 0, tolmax |-> IF n >= 2 * B THEN E(Sqrt(Add(VarS(n), Sqr(Mul(100, p.tol))))) ELSE 0,
              x |-> [d \in 1..p.D |-> E(MeanX(Win(n), n, d))], y |-> E(MeanY(Win(n), n))]
Ends(p) == LET S == {n \in 1..p.max : n = p.max \/ (n % B = 0 /\ n >= 2 * B)} q == SetToSortSeq(S, <) IN [i \in DOMAIN q |-> End(p, q[i])]

Bound(sg) == LET k == Rnd(1..4) IN IF k <= 2 THEN (IF sg > 0 THEN "inf" ELSE "-inf") ELSE IF k = 3 THEN sg * Rnd(1..4) ELSE Rat(sg * 7, 8)
Par0 ==
  LET D == Rnd(1..3) kind == Wt(<<"flat", "noisy", "trend", "quad", "quad", "jump", "slope", "slope">>) n == Wt(<<1, 2, 7, 15, 19, 20, 21, 33, 39, 40, 41, 60, 70, MaxLen>>)
      amp == Wt(<<1, 8, 64>>)
      tol == Wt(<<1000, 100, 10>>)
      \* values with a trend of their own, around the tolerances, while the point hardly moves, or moves a little
      sl == Rat(Wt(<<-1500, -700, -130, -80, -15, -7, 7, 15, 80, 130, 700, 1500>>), 10 * tol)
  IN [D |-> D, max |-> n, early |-> Rnd(1..5) > 1, kind |-> kind,
      x0 |-> [d \in 1..D |-> TLCEval(Rat(Rnd(-7..7), 8))], lb |-> [d \in 1..D |-> TLCEval(Bound(-1))], ub |-> [d \in 1..D |-> TLCEval(Bound(1))],
      a |-> [d \in 1..D |-> IF kind = "quad" THEN TLCEval(Rnd(1..3)) ELSE IF kind = "trend" THEN TLCEval(Rnd(0..1)) ELSE 0], c |-> [d \in 1..D |-> TLCEval(Rat(Rnd(-16..16), 8))],
      e |-> [i \in 1..n |-> IF kind = "noisy" THEN TLCEval(Rat(Rnd(-9..9), amp)) ELSE IF kind = "trend" THEN Rat(-i, amp * 8) ELSE IF kind = "slope" THEN Add(Mul(sl, i), Rat(TLCEval(Rnd(-2..2)), amp * tol)) ELSE IF kind = "jump" /\ i > n \div 2 THEN 3 ELSE 0],
      h |-> [i \in 1..n |-> [d \in 1..D |-> IF kind = "slope" THEN 1 ELSE IF kind \in {"flat"} THEN 0 ELSE IF kind = "jump" THEN (IF i = 5 THEN 1 ELSE 0) ELSE TLCEval(Rat(Rnd(-8..8), amp))]],
      tol |-> Rat(1, tol), mmin |-> IF kind = "slope" THEN Wt(<<0, Rat(1, 1000), Rat(1, 10000)>>) ELSE Wt(<<Rat(1, 1000), Rat(1, 100), 0>>), mmax |-> IF kind = "slope" THEN Wt(<<Rat(1, 1000), Rat(1, 100), Rat(1, 100000)>>) ELSE Wt(<<Rat(1, 10), Rat(1, 2), Rat(1, 100)>>), decay |-> Wt(<<200, 20, 5>>)]
Arg(p) == [D |-> p.D, max |-> p.max, early |-> p.early, x0 |-> [d \in 1..p.D |-> E(p.x0[d])], lb |-> [d \in 1..p.D |-> E(p.lb[d])], ub |-> [d \in 1..p.D |-> E(p.ub[d])],
           a |-> p.a, c |-> [d \in 1..p.D |-> E(p.c[d])], e |-> [i \in DOMAIN p.e |-> E(p.e[i])], h |-> [i \in DOMAIN p.h |-> [d \in 1..p.D |-> E(p.h[i][d])]],
           tol |-> E(p.tol), mmin |-> E(p.mmin), mmax |-> E(p.mmax), decay |-> p.decay]
Init == hist = <<>> /\ done = FALSE
Run == /\ ~done /\ hist = <<>>
       /\ \E p \in {TLCEval(Par0)} :
            hist' = <<[op |-> "run", a |-> Arg(p), defs |-> Defs(p),
                       exp |-> [ends |-> Ends(p), pts |-> [i \in 1..p.max |-> [d \in 1..p.D |-> E(Nm("x", i, d))]], vals |-> [i \in 1..p.max |-> E(Y(i))]]]>>
       /\ UNCHANGED done
Stop == ~done /\ hist # <<>> /\ done' = TRUE /\ UNCHANGED hist
Next == Run \/ Stop
Spec == Init /\ [][Next]_vars
Emit == done => PrintT(ToJson(hist))
=============================================================================

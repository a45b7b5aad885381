-------------------------------- MODULE Acq --------------------------------
(* Values of the acquisition functions.  Candidates are given in the transformed space
   (quarters), predictions of the surrogate as rationals: means in quarters, variances in
   sixteenths.  Mode "std": the variance-based functions for arbitrary predictions; mode
   "iqr": interquantile-range functions for a Gaussian process on one or two points. *)
EXTENDS Term, FiniteSets, TLC, Json, SequencesExt
CONSTANTS Depth, Sim, Mode
VARIABLES cf, hist, done
vars == <<cf, hist, done>>
Rnd(S) == RandomElement(IF done THEN {} ELSE S)
Wt(q)  == q[Rnd(DOMAIN q)]
Log1(op, a, e) == hist' = Append(hist, [op |-> op, a |-> a, exp |-> e])
Sm(q) == FoldLeft(LAMBDA a, b : a + b, 0, q)
Tup(n, q) == SubSeq(q, 1, n)

Realmin == <<"^", 2, -1022>>
\* --- the mixture
Mix(D, K) == [D |-> D, K |-> K, mu |-> TLCEval([k \in 1..K |-> TLCEval([d \in 1..D |-> TLCEval(Rnd(-6..6))])]), sg |-> TLCEval([k \in 1..K |-> TLCEval(Rnd({2, 3, 4, 8}))]),
              la |-> TLCEval([d \in 1..D |-> TLCEval(Rnd({2, 3, 4, 5}))]), w |-> TLCEval(IF K = 1 THEN <<1>> ELSE Wt(<< <<1, 1>>, <<1, 3>>, <<9, 1>> >>))]
Sc(y, k, d) == Rat(y.sg[k] * y.la[d], 12)
LogC(y, k, z) == Neg(Add(SumT([d \in 1..y.D |-> Log(Sc(y, k, d))]), Half(Add(Mul(y.D, Log2Pi), SumT([d \in 1..y.D |-> Sqr(Div(Rat(z[d] - y.mu[k][d], 4), Sc(y, k, d)))])))))
LogQ(y, z) == LogSumExp([k \in 1..y.K |-> Add(Log(Rat(y.w[k], Sm(y.w))), LogC(y, k, z))])
P(y, z)    == Max2(Exp(LogQ(y, z)), Realmin)
LogP(y, z) == Max2(LogQ(y, z), Mul(-1022, Log(2)))
\* --- total variance over the samples, as a fraction
VarTot(c) == LET n == Len(c.m) s1 == Sm(c.m) s2 == Sm([i \in 1..n |-> c.m[i] * c.m[i]])
             IN QAdd(Q(Sm(c.v), 16 * n), IF n = 1 THEN QI(0) ELSE Q(n * s2 - s1 * s1, n * (n - 1) * 16))
MeanOf(c) == Rat(Sm(c.m), 4 * Len(c.m))
\* noise at the nearest training point (distances in units of the length scales: weights lw)
Dist(c, x, lw) == Sm([d \in DOMAIN x |-> lw[d] * (c.z[d] - 4 * x[d]) * (c.z[d] - 4 * x[d])])
Near(c, tr) == {i \in DOMAIN tr.x : \A j \in DOMAIN tr.x : Dist(c, tr.x[i], tr.lw) <= Dist(c, tr.x[j], tr.lw)}
Sn2(c, tr) == Rat(tr.s[CHOOSE i \in Near(c, tr) : TRUE], 16)
Value(kind, c, tr) ==
  LET v == VarTot(c) vt == QT(v) pr == Exp(Sub(MeanOf(c), cf.ymax)) IN
  IF kind = "AcqFcnLog" THEN (IF v.n = 0 THEN "inf" ELSE Neg(SumT(<<Log(vt), Sub(MeanOf(c), cf.ymax), LogP(cf.mix, c.z)>>)))
  ELSE IF v.n = 0 THEN 0
  ELSE IF kind = "AcqFcn" THEN Neg(ProdT(<<vt, pr, P(cf.mix, c.z)>>))
  ELSE IF kind = "AcqFcnVanilla" THEN Neg(ProdT(<<vt, P(cf.mix, c.z), P(cf.mix, c.z)>>))
  ELSE Neg(ProdT(<<vt, Sub(1, Div(Sn2(c, tr), Add(vt, Sn2(c, tr)))), pr, P(cf.mix, c.z)>>))
Low(c) == LET v == VarTot(c) IN v.n > 0 /\ QLt(v, cf.tol)
Regular(kind, c, tr, reg) ==
  LET pen == Sub(Div(QT(cf.tol), QT(VarTot(c))), 1) IN
  IF ~reg \/ ~Low(c) THEN Value(kind, c, tr)
  ELSE IF kind = "AcqFcnLog" THEN Add(Value(kind, c, tr), pen) ELSE Mul(Value(kind, c, tr), Exp(Neg(pen)))
Out(c) == \E d \in DOMAIN c.z : cf.bounded[d] /\ AbsI(c.z[d]) > 40

Cfg0(D) == [D |-> D, bounded |-> TLCEval([d \in 1..D |-> Rnd({TRUE, FALSE})]), ymax |-> Rnd(-3..3), tol |-> Wt(<<[n |-> 1, d |-> 10000], [n |-> 1, d |-> 2], [n |-> 2, d |-> 1]>>),
            mix |-> Mix(D, TLCEval(Rnd(1..2))), bx |-> Wt(<<5, 2>>)]
\* a candidate inside, far out, or (in original coordinates, in units of the tolerated distance from a bound) near a bound
Cand1(D, ns, k) == [z |-> TLCEval([d \in 1..D |-> TLCEval(IF k = 2 /\ Rnd(1..2) = 1 THEN Wt(<<-400, 400>>) ELSE Rnd(-8..8))]), edge |-> IF k = 3 THEN TLCEval([d |-> Rnd(1..D), f |-> Wt(<<-20, -11, -9, -5, 5, 9, 11, 20>>)]) ELSE [d |-> 0, f |-> 0],
                m |-> TLCEval([s \in 1..ns |-> TLCEval(Rnd(-12..8))]), v |-> TLCEval([s \in 1..ns |-> TLCEval(Rnd({0, 1, 2, 5, 16, 60}))])]
Cand2(D, ns) == LET c == Cand1(D, ns, Wt(<<1, 1, 1, 1, 2, 3>>)) IN IF Rnd(1..8) = 1 THEN [c EXCEPT !.m = [s \in 1..ns |-> 2], !.v = [s \in 1..ns |-> 0]] ELSE c
Train0(D) == [x |-> TLCEval([i \in 1..Rnd(2..4) |-> TLCEval([d \in 1..D |-> TLCEval(Rnd(-2..2))])]), lw |-> TLCEval([d \in 1..D |-> TLCEval(Wt(<<1, 4, 16>>))]), s |-> TLCEval([i \in 1..4 |-> TLCEval(Rnd({1, 4, 16, 40}))])]
Kinds == <<"AcqFcn", "AcqFcnLog", "AcqFcnNoisy", "AcqFcnVanilla">>

Init == cf = [D |-> 0] /\ hist = <<>> /\ done = FALSE
Setup == /\ ~done /\ cf.D = 0 /\ Mode \in {"std", "int"}
         /\ \E c \in {TLCEval(Cfg0(TLCEval(Rnd(1..3))))} : cf' = c /\ Log1("setup", [cf |-> c], [ok |-> TRUE])
         /\ UNCHANGED done
Eval == /\ ~done /\ cf.D > 0 /\ Mode = "std" /\ Len(hist) < Depth
        /\ \E kind \in {TLCEval(Wt(Kinds))}, ns \in {TLCEval(Rnd(1..3))}, n \in {TLCEval(Wt(<<1, 1, 2, 4, 6>>))}, tr \in {TLCEval(Train0(cf.D))}, reg \in {TLCEval(Rnd({TRUE, FALSE}))}, text \in {TLCEval(Rnd({TRUE, FALSE}))} :
           \E cs0 \in {TLCEval([k \in 1..n |-> TLCEval(Cand2(cf.D, ns))])} : \E cs \in {TLCEval(FoldLeft(LAMBDA r, c : IF \E k \in DOMAIN r : r[k].z = c.z \/ (r[k].edge.d > 0 /\ c.edge.d > 0) THEN r ELSE Append(r, c), <<>>, cs0))} :
             \* edge candidates count in original coordinates only, where the coordinate is bounded
             LET isedge(c) == c.edge.d > 0 /\ cf.bounded[c.edge.d]
                 amb(c) == isedge(c) \/ (kind = "AcqFcnNoisy" /\ Cardinality(Near(c, tr)) > 1)
                 cinf(c) == (\E d \in DOMAIN c.z : cf.bounded[d] /\ d # c.edge.d /\ AbsI(c.z[d]) > 40) \/ (isedge(c) /\ AbsI(c.edge.f) < 10)
                             \/ (~isedge(c) /\ Out(c))
             IN Log1("acq", [kind |-> kind, ns |-> ns, cs |-> [k \in DOMAIN cs |-> [cs[k] EXCEPT !.edge = IF isedge(cs[k]) THEN @ ELSE [d |-> 0, f |-> 0]]], amb |-> [k \in DOMAIN cs |-> amb(cs[k])], tr |-> tr, reg |-> reg, text |-> text, flat |-> Len(cs) = 1 /\ Rnd({TRUE, FALSE})],
                     [shape |-> <<Len(cs)>>, vals |-> [k \in DOMAIN cs |-> IF cinf(cs[k]) THEN E("inf") ELSE IF amb(cs[k]) THEN (IF kind = "AcqFcnLog" /\ VarTot(cs[k]).n = 0 THEN E("inf") ELSE "finite") ELSE E(Regular(kind, cs[k], tr, reg))], same |-> TRUE])
        /\ UNCHANGED <<cf, done>>
\* integer variables: the surrogate is asked at rounded coordinates (original coordinates, in tenths)
IntEval == /\ ~done /\ cf.D > 0 /\ Mode = "int" /\ Len(hist) < Depth
           /\ \E n \in {TLCEval(Rnd(1..4))}, mask \in {TLCEval([d \in 1..cf.D |-> TLCEval(Rnd({TRUE, TRUE, FALSE}))])}, kind \in {TLCEval(Wt(Kinds))} : \E xs \in {TLCEval([k \in 1..n |-> TLCEval([d \in 1..cf.D |-> TLCEval(Rnd({-24, -23, -22, -21, -18, -14, -11, -9, -6, -4, -1, 0, 1, 3, 4, 6, 7, 8, 13, 16, 19, 20, 22, 24}))])])} :
                LET rd(x) == IF x >= 0 THEN (x + 5) \div 10 ELSE -((5 - x) \div 10)
                IN Log1("int", [kind |-> kind, mask |-> mask, xs |-> xs], [at |-> [k \in 1..n |-> [d \in 1..cf.D |-> IF mask[d] THEN E(rd(xs[k][d])) ELSE E(Rat(xs[k][d], 10))]], same |-> TRUE])
           /\ UNCHANGED <<cf, done>>
\* --- text forms
Text == /\ ~done /\ Mode = "text"
        /\ \E i \in {TLCEval(Rnd(1..9))}, q \in {TLCEval(Rnd(51..99))}, kind \in {TLCEval(Wt(<<"AcqFcnVIQR", "AcqFcnIMIQR">>))}, plain \in {TLCEval(Wt(Kinds))} :
             Log1("text", [i |-> i, q |-> q, kind |-> kind, plain |-> plain],
                  IF i <= 3 THEN [class |-> plain, same |-> TRUE, log |-> plain = "AcqFcnLog", imp |-> FALSE, viaq |-> FALSE] ELSE [class |-> kind, same |-> TRUE, log |-> TRUE, imp |-> TRUE, viaq |-> kind = "AcqFcnVIQR", u |-> E(<<"ppf", IF i <= 5 THEN Rat(3, 4) ELSE Rat(q, 100)>>)])
        /\ done' = (Len(hist') >= Depth) /\ UNCHANGED cf
\* --- Gaussian process with squared-exponential covariance: n training points, zero mean
\* h: [l (per dimension, log length scale in quarters), f (log output scale in quarters), s (log noise SD)]
Kern(h, a, b) == Exp(Sub(Half(h.f), Half(SumT([d \in DOMAIN a |-> Pow(Div(Rat(a[d] - b[d], 4), Exp(Rat(h.l[d], 4))), 2)]))))
N2(h) == Exp(Mul(2, h.s))
Post(h, X, a, b) ==
  IF Len(X) = 1 THEN Sub(Kern(h, a, b), Div(Mul(Kern(h, a, X[1]), Kern(h, X[1], b)), Add(Kern(h, X[1], X[1]), N2(h))))
  ELSE LET p == Add(Kern(h, X[1], X[1]), N2(h)) q == Kern(h, X[1], X[2]) r == Add(Kern(h, X[2], X[2]), N2(h))
           a1 == Kern(h, a, X[1]) a2 == Kern(h, a, X[2]) b1 == Kern(h, b, X[1]) b2 == Kern(h, b, X[2])
       IN Sub(Kern(h, a, b), Div(SumT(<<ProdT(<<r, a1, b1>>), ProdT(<<p, a2, b2>>), Neg(Mul(q, Add(Mul(a1, b2), Mul(a2, b1))))>>), Sub(Mul(p, r), Sqr(q))))
Iqr(h, X, xs, A, lw, u, sn2) ==
  LogSumExp([j \in DOMAIN A |-> LET s == Sqrt(Max2(0, Sub(Post(h, X, A[j], A[j]), Div(Pow(Post(h, X, A[j], xs), 2), Add(Post(h, X, xs, xs), sn2)))))
                                IN Add(lw[j], Log(Mul(2, <<"sinh", Mul(u, s)>>)))])
\* posterior mean at a point; the values at the training points are -1 and 1
PMean(h, X, a) ==
  IF Len(X) = 1 THEN Neg(Div(Kern(h, a, X[1]), Add(Kern(h, X[1], X[1]), N2(h))))
  ELSE LET p == Add(Kern(h, X[1], X[1]), N2(h)) q == Kern(h, X[1], X[2]) r == Add(Kern(h, X[2], X[2]), N2(h))
       IN Div(Sub(Mul(Kern(h, a, X[2]), Add(p, q)), Mul(Kern(h, a, X[1]), Add(r, q))), Sub(Mul(p, r), Sqr(q)))
\* predictive variance over the hyperparameter samples, and the penalty where it is below the tolerance
IqrVar(hs, X, x) == LET n == Len(hs) m(s) == PMean(hs[s], X, x) IN
  Add(Div(SumT([s \in 1..n |-> Post(hs[s], X, x, x)]), n), IF n = 1 THEN 0 ELSE Half(Pow(Sub(m(1), m(2)), 2)))
IqrPen(hs, X, x, tol) == Max2(0, Sub(Div(QT(tol), IqrVar(hs, X, x)), 1))
Hyp0(D) == [l |-> TLCEval([d \in 1..D |-> TLCEval(Rnd(-2..3))]), f |-> Rnd(-3..5), s |-> Wt(<<-1, -2, -8>>)]
Pt0(D, S) == TLCEval([d \in 1..D |-> TLCEval(Rnd(S))])
EvalIqr == /\ ~done /\ Mode = "iqr"
           /\ \E D \in {TLCEval(Rnd(1..2))}, ns \in {TLCEval(Rnd(1..2))}, n \in {TLCEval(Rnd(1..2))}, na \in {TLCEval(Rnd(1..3))}, nx \in {TLCEval(Rnd(1..3))}, kind \in {TLCEval(Wt(<<"AcqFcnVIQR", "AcqFcnIMIQR">>))}, q \in {TLCEval(Wt(<<75, 60, 95>>))} :
              \E hs \in {TLCEval([s \in 1..ns |-> TLCEval(Hyp0(D))])}, X \in {TLCEval([i \in 1..n |-> Pt0(D, IF i = 1 THEN -8..-1 ELSE 1..8)])}, A \in {TLCEval([j \in 1..na |-> Pt0(D, -8..8)])}, xs \in {TLCEval([k \in 1..nx |-> Pt0(D, -9..9)])},
                 lw \in {TLCEval([s \in 1..ns |-> TLCEval([j \in 1..na |-> TLCEval(Rnd(-3..0))])])}, sn \in {TLCEval([i \in 1..n |-> TLCEval(Rnd({1, 4, 9}))])}, reg \in {TLCEval(Rnd({TRUE, FALSE}))}, tol \in {TLCEval(Wt(<<[n |-> 1, d |-> 10000], [n |-> 1, d |-> 2], [n |-> 2, d |-> 1]>>))}, flat \in {TLCEval(nx = 1 /\ Rnd({TRUE, FALSE}))} :
                 \* nearest training point, unit length scales
                 LET dist(k, i) == Sm([d \in 1..D |-> (xs[k][d] - X[i][d]) * (xs[k][d] - X[i][d])])
                     tie(k) == n = 2 /\ dist(k, 1) = dist(k, 2)
                     sn2(k) == Rat(sn[IF n = 1 \/ dist(k, 1) < dist(k, 2) THEN 1 ELSE 2], 16)
                     w(s) == IF kind = "AcqFcnVIQR" THEN [j \in 1..na |-> 0] ELSE lw[s]
                     \* candidates on top of an importance point with tiny noise leave only rounding errors
                     val(k) == LogSumExp([s \in 1..ns |-> Sub(Iqr(hs[s], X, xs[k], A, w(s), <<"ppf", Rat(q, 100)>>, sn2(k)), Log(ns))])
                     pen(k) == IF reg THEN IqrPen(hs, X, xs[k], tol) ELSE 0
                 IN Log1("iqr", [reg |-> reg, tol |-> E(QT(tol)), flat |-> flat, D |-> D, hs |-> hs, X |-> X, A |-> A, xs |-> xs, lw |-> lw, sn |-> sn, kind |-> kind, q |-> q, tie |-> [k \in 1..nx |-> tie(k)], base |-> [k \in 1..nx |-> E(val(k))]],
                         [vals |-> [k \in 1..nx |-> IF tie(k) THEN "finite" ELSE E(Add(val(k), pen(k)))], shape |-> <<nx>>, same |-> TRUE])
           /\ done' = (Len(hist') >= Depth) /\ UNCHANGED cf
Stop == /\ ~done /\ Len(hist) >= Depth /\ done' = TRUE /\ UNCHANGED <<cf, hist>>
Next == Setup \/ Eval \/ IntEval \/ Text \/ EvalIqr \/ Stop
Spec == Init /\ [][Next]_vars
Emit == done => PrintT(ToJson(hist))
=============================================================================

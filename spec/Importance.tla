----------------------------- MODULE Importance -----------------------------
(* Importance points of the interquantile-range acquisitions.  The random points are
   observed; the specification gives everything else as a function of them: the proposal
   density (a smoothed copy of the posterior's mixture and boxes around the training
   points), the log weights of every hyperparameter sample, the predictive variances, the
   covariances with the training points, the resulting acquisition values, and the
   fractional effective sample size.  Gaussian process: two training points with values -1
   and 1, zero mean, squared-exponential covariance, Gaussian noise.
   "$x<s>_<j>_<d>" is coordinate d of observed point j (of hyperparameter sample s),
   "$w<s>_<j>" its observed normalised log weight. *)
EXTENDS Term, FiniteSets, TLC, Json, SequencesExt
CONSTANTS Depth, Sim
VARIABLES hist, done
vars == <<hist, done>>
Rnd(S) == RandomElement(IF done THEN {} ELSE S)
Wt(q)  == q[Rnd(DOMAIN q)]
Log1(op, a, e) == hist' = Append(hist, [op |-> op, a |-> a, exp |-> e])
Sm(q) == FoldLeft(LAMBDA a, b : a + b, 0, q)
Name(s, j, d) == "$x" \o ToString(s) \o "_" \o ToString(j) \o "_" \o ToString(d)
NameW(s, j)   == "$w" \o ToString(s) \o "_" \o ToString(j)
Obs(s, j, D)  == [d \in 1..D |-> Name(s, j, d)]
Qu(x) == [d \in DOMAIN x |-> Rat(x[d], 4)]

\* --- the mixture, its smoothed version, and its log density at a point of terms
Mix(D, K) == [D |-> D, K |-> K, mu |-> TLCEval([k \in 1..K |-> TLCEval([d \in 1..D |-> TLCEval(Rnd(-5..5))])]), sg |-> TLCEval([k \in 1..K |-> TLCEval(Rnd({2, 3, 4, 8}))]),
              la |-> TLCEval([d \in 1..D |-> TLCEval(Rnd({2, 3, 4, 5}))]), w |-> TLCEval(IF K = 1 THEN <<1>> ELSE Wt(<< <<1, 1>>, <<1, 3>>, <<9, 1>> >>))]
LogComp(m, k, s, x) ==   \* component k widened by s (in hundredths)
  LET sd == Sqrt(Add(Pow(Rat(m.sg[k], 4), 2), Pow(Rat(s, 100), 2)))
  IN Neg(SumT([d \in 1..m.D |-> Add(Log(Mul(sd, Rat(m.la[d], 3))), Half(Add(Log2Pi, Pow(Div(Sub(x[d], Rat(m.mu[k][d], 4)), Mul(sd, Rat(m.la[d], 3))), 2))))]))
LogQ(m, x, ss) == LogSumExp([i \in 1..(m.K * Len(ss)) |-> LET k == ((i - 1) % m.K) + 1 s == ss[((i - 1) \div m.K) + 1]
                                                          IN Add(Log(Rat(m.w[k], Sm(m.w) * Len(ss))), LogComp(m, k, s, x))])
Smooth == <<0, 5, 20, 100>>

\* --- Gaussian process
Kern(h, a, b) == Exp(Sub(Half(h.f), Half(SumT([d \in DOMAIN a |-> Pow(Div(Sub(a[d], b[d]), Exp(Rat(h.l[d], 4))), 2)]))))
N2(h) == Exp(Mul(2, h.s))
Post(h, X, a, b) ==
  LET p == Add(Kern(h, X[1], X[1]), N2(h)) q == Kern(h, X[1], X[2]) r == Add(Kern(h, X[2], X[2]), N2(h))
      a1 == Kern(h, a, X[1]) a2 == Kern(h, a, X[2]) b1 == Kern(h, b, X[1]) b2 == Kern(h, b, X[2])
  IN Sub(Kern(h, a, b), Div(SumT(<<ProdT(<<r, a1, b1>>), ProdT(<<p, a2, b2>>), Neg(Mul(q, Add(Mul(a1, b2), Mul(a2, b1))))>>), Sub(Mul(p, r), Pow(q, 2))))
PMean(h, X, a) ==
  LET p == Add(Kern(h, X[1], X[1]), N2(h)) q == Kern(h, X[1], X[2]) r == Add(Kern(h, X[2], X[2]), N2(h))
  IN Div(Sub(Mul(Kern(h, a, X[2]), Add(p, q)), Mul(Kern(h, a, X[1]), Add(r, q))), Sub(Mul(p, r), Pow(q, 2)))

\* --- boxes around the training points: half-widths of two standard deviations of the inputs
Half2(X, d) == Mul(2, Div(Abs(Sub(X[1][d], X[2][d])), Sqrt(2)))
Ind(x, c, X) == ProdT([d \in DOMAIN x |-> <<"if>=", Abs(Sub(x[d], c[d])), Half2(X, d), 0, 1>>])
Boxes(x, X)  == Div(Add(Ind(x, X[1], X), Ind(x, X[2], X)), Mul(2, ProdT([d \in DOMAIN x |-> Mul(2, Half2(X, d))])))
Proposal(m, x, X, nv, nb) == Log(SumT((IF nv = 0 THEN <<>> ELSE <<Mul(Rat(nv, nv + nb), Exp(LogQ(m, x, Smooth)))>>) \o (IF nb = 0 THEN <<>> ELSE <<Mul(Rat(nb, nv + nb), Boxes(x, X))>>)))
LogSinh(u, s) == Log(Mul(2, <<"sinh", Mul(u, s)>>))

Hyp0(D) == [l |-> TLCEval([d \in 1..D |-> TLCEval(Rnd(-2..4))]), f |-> Rnd(-3..5), s |-> Wt(<<-1, -2>>)]
Pt0(D, S) == TLCEval([d \in 1..D |-> TLCEval(Rnd(S))])
Train0(D) == << Pt0(D, -8..-1), Pt0(D, 1..8) >>

Init == hist = <<>> /\ done = FALSE
Points == /\ ~done
  /\ \E D \in {TLCEval(Rnd(1..2))}, K \in {TLCEval(Rnd(1..2))}, ns \in {TLCEval(Rnd(1..2))}, kind \in {TLCEval(Wt(<<"AcqFcnIMIQR", "AcqFcnIMIQR", "AcqFcnVIQR">>))}, q \in {TLCEval(Wt(<<75, 60, 95>>))},
        nn \in {TLCEval(Wt(<< <<3, 3>>, <<3, 0>>, <<0, 3>>, <<1, 3>>, <<3, 1>>, <<1, 0>>, <<0, 1>>, <<2, 2>> >>))}, nm0 \in {TLCEval(Wt(<<0, 0, 1, 2, 3>>))}, thin \in {TLCEval(Rnd(1..2))}, seed \in {TLCEval(Rnd(1..100000))} :
     \E m \in {TLCEval(Mix(D, K))}, hs \in {TLCEval([s \in 1..ns |-> TLCEval(Hyp0(D))])}, X0 \in {TLCEval(Train0(D))}, xs0 \in {TLCEval([k \in 1..2 |-> Pt0(D, -9..9)])}, swap \in {TLCEval(Rnd({TRUE, FALSE}))}, sn \in {TLCEval(<<TLCEval(Rnd({1, 4, 9})), TLCEval(Rnd({1, 4, 9}))>>)} :
        LET viq == kind = "AcqFcnVIQR"
            nm  == IF viq THEN nn[1] + nn[2] ELSE nm0
            nv  == nn[1]
            nb  == nn[2]
            three == ~viq /\ nm > 0
            n   == IF viq \/ three THEN nm ELSE nv + nb
            X0s == IF swap THEN <<X0[2], X0[1]>> ELSE X0
            X   == <<Qu(X0s[1]), Qu(X0s[2])>>
            u   == <<"ppf", Rat(q, 100)>>
            x(s, j) == Obs(s, j, D)
            raw(s, j) == IF viq THEN 0
                         ELSE IF three THEN Neg(LogSinh(u, Sqrt(Add(Post(hs[s], X, x(s, j), x(s, j)), N2(hs[s])))))
                         ELSE Sub(PMean(hs[s], X, x(s, j)), Proposal(m, x(s, j), X, nv, nb))
            dist(k, i) == Sm([d \in 1..D |-> (xs0[k][d] - X0s[i][d]) * (xs0[k][d] - X0s[i][d])])
            tie(k) == dist(k, 1) = dist(k, 2)
            sn2(k) == Rat(sn[IF dist(k, 1) < dist(k, 2) THEN 1 ELSE 2], 16)
            acq(k) == LET z == Qu(xs0[k]) IN
                      LogSumExp([i \in 1..(ns * n) |-> LET s == ((i - 1) \div n) + 1 j == ((i - 1) % n) + 1 h == hs[s]
                        IN SumT(<<IF viq THEN 0 ELSE NameW(s, j), Neg(Log(ns)), LogSinh(u, Sqrt(Max2(0, Sub(Post(h, X, x(s, j), x(s, j)), Div(Pow(Post(h, X, x(s, j), z), 2), Add(Post(h, X, z, z), sn2(k)))))))>>)])
        IN Log1("points", [D |-> D, mix |-> m, hs |-> hs, X |-> X0s, kind |-> kind, q |-> q, nv |-> nv, nb |-> nb, nm |-> nm, thin |-> thin, seed |-> seed, xs |-> xs0, sn |-> sn, tie |-> [k \in 1..2 |-> tie(k)]],
                [shape |-> IF three THEN <<ns, n, D>> ELSE <<n, D>>, rel |-> [s \in 1..ns |-> [j \in 1..n |-> E(Sub(raw(s, j), raw(1, 1)))]], total |-> 1,
                 var |-> [j \in 1..n |-> [s \in 1..ns |-> E(Post(hs[s], X, x(s, j), x(s, j)))]],
                 cov |-> [s \in 1..ns |-> [j \in 1..n |-> [i \in 1..2 |-> E(Kern(hs[s], x(s, j), X[i]))]]],
                 inside |-> TRUE, vals |-> [k \in 1..2 |-> IF tie(k) THEN "finite" ELSE E(acq(k))], same |-> TRUE])
  /\ UNCHANGED done
\* many points: both boxes and the widest copy of the mixture are really drawn from
Spread == /\ ~done
  /\ \E D \in {TLCEval(Rnd(1..2))}, K \in {TLCEval(Rnd(1..2))}, seed \in {TLCEval(Rnd(1..100000))} :
     \E m \in {TLCEval([Mix(D, K) EXCEPT !.sg = [k \in 1..K |-> 1]])}, X \in {TLCEval(Train0(D))}, h \in {TLCEval(Hyp0(D))} :
        Log1("spread", [D |-> D, mix |-> m, hs |-> <<h>>, X |-> X, n |-> 200, seed |-> seed], [low |-> [d \in 1..D |-> TRUE], high |-> [d \in 1..D |-> TRUE], inside |-> TRUE, far |-> [d \in 1..D |-> TRUE]])
  /\ UNCHANGED done
\* fractional effective sample size of the posterior's points with respect to the surrogate
Fess == /\ ~done
  /\ \E D \in {TLCEval(Rnd(1..2))}, K \in {TLCEval(Rnd(1..2))}, ns \in {TLCEval(Rnd(1..2))}, n \in {TLCEval(Rnd(1..4))}, form \in {TLCEval(Wt(<<"points", "means", "number">>))}, bad \in {TLCEval(Wt(<<FALSE, FALSE, FALSE, TRUE>>))}, seed \in {TLCEval(Rnd(1..100000))} :
     \E m \in {TLCEval(Mix(D, K))}, hs \in {TLCEval([s \in 1..ns |-> TLCEval(Hyp0(D))])}, X0 \in {TLCEval(Train0(D))} :
        LET X  == <<Qu(X0[1]), Qu(X0[2])>>
            lw(j) == Sub(Div(SumT([s \in 1..ns |-> PMean(hs[s], X, Obs(1, j, D))]), ns), LogQ(m, Obs(1, j, D), <<0>>))
            tot == SumT([j \in 1..n |-> Exp(lw(j))])
            tot2 == SumT([j \in 1..n |-> Exp(Mul(2, lw(j)))])
            wrong == bad /\ form = "means"
        IN Log1("fess", [D |-> D, mix |-> m, hs |-> hs, X |-> X0, n |-> n, form |-> form, bad |-> wrong, seed |-> seed],
                [err |-> IF wrong THEN "ValueError" ELSE "", value |-> IF wrong THEN 0 ELSE E(Div(Pow(tot, 2), Mul(n, tot2))), same |-> TRUE])
  /\ UNCHANGED done
\* the number of points must be a positive integer
Bad == /\ ~done
  /\ \E v \in {TLCEval(Wt(<<"zero", "negative", "inf">>))}, h \in {TLCEval(Hyp0(1))}, m \in {TLCEval(Mix(1, 1))}, X \in {TLCEval(Train0(1))} :
        Log1("bad", [D |-> 1, mix |-> m, hs |-> <<h>>, X |-> X, v |-> v], [err |-> IF v = "inf" THEN "some" ELSE "ValueError"])
  /\ UNCHANGED done
Step == Len(hist) < Depth /\ \E z \in {TLCEval(Wt(<<1, 1, 1, 1, 1, 1, 2, 3, 3, 4>>))} : IF z = 1 THEN Points ELSE IF z = 2 THEN Spread ELSE IF z = 3 THEN Fess ELSE Bad
Stop == /\ ~done /\ Len(hist) >= Depth /\ done' = TRUE /\ UNCHANGED hist
Next == Step \/ Stop
Spec == Init /\ [][Next]_vars
Emit == done => PrintT(ToJson(hist))
=============================================================================

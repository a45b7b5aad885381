------------------------------ MODULE Mixture ------------------------------
(* A mixture posterior: export and import of its parameters, density, gradient,
   moments, samples and divergences, in transformed and original coordinates.
   A mixture is [D, K, mu[k][d], sg[k], la[d], w[k]] with rational means and scales
   and integer weights (in units of their sum).  The scale vector la is kept as a list
   of terms together with the common factor nl, so that  sigma = sg * nl, lambda = la / nl. *)
EXTENDS Transform, TLC, Json, SequencesExt
CONSTANTS Depth, Mode, Sim
VARIABLES m, cs, fl, hist, done
vars == <<m, cs, fl, hist, done>>
Rnd(S)  == RandomElement(IF done THEN {} ELSE S)
Wt(q)   == q[Rnd(DOMAIN q)]
Sm(q)   == FoldLeft(LAMBDA a, b : a + b, 0, q)
Qs(S, d) == Q(Rnd(S), d)
Log1(op, a, e) == hist' = Append(hist, [op |-> op, a |-> a, exp |-> e])

\* weights: sixteenths when the quotas have to be exact
Weights(K) == CASE K = 1 -> <<16>> [] K = 2 -> Wt(<< <<8, 8>>, <<1, 15>>, <<11, 5>> >>) [] K = 3 -> Wt(<< <<3, 4, 9>>, <<1, 1, 14>>, <<6, 5, 5>> >>)
                [] OTHER -> Wt(<< <<4, 4, 4, 4>>, <<1, 2, 3, 10>>, <<7, 7, 1, 1>> >>)
Mix(D, K) == [D |-> D, K |-> K, mu |-> [k \in 1..K |-> [d \in 1..D |-> TLCEval(Qs(-9..9, 4))]], sg |-> [k \in 1..K |-> TLCEval(Qs({1, 2, 3, 5, 8}, 4))],
              la |-> [d \in 1..D |-> TLCEval(Qs({1, 2, 3, 5, 7}, 3))], w |-> Weights(K), we |-> IF Mode = "params" /\ K > 1 /\ Rnd(1..4) = 1 THEN [k \in 1..K |-> TLCEval(IF k = 1 THEN 0 ELSE Wt(<<0, -50, -715>>))] ELSE [k \in 1..K |-> 0], normed |-> FALSE]

\* --- export and import
Nl(x)    == Sqrt(Div(SumT([d \in 1..x.D |-> Sqr(QT(x.la[d]))]), x.D))
Sig(x, k) == IF x.normed THEN Mul(QT(x.sg[k]), Nl(x)) ELSE QT(x.sg[k])
Lam(x, d) == IF x.normed THEN Div(QT(x.la[d]), Nl(x)) ELSE QT(x.la[d])
\* weights are proportional to w * exp(we) (we: extreme ratios)
Plain(x) == \A k \in 1..x.K : x.we[k] = 0
Wei(x, k) == IF Plain(x) THEN Rat(x.w[k], Sm(x.w)) ELSE Div(Mul(x.w[k], Exp(x.we[k])), SumT([j \in 1..x.K |-> Mul(x.w[j], Exp(x.we[j]))]))
LogWei(x, k) == IF Plain(x) THEN Log(Wei(x, k)) ELSE Sub(Add(Log(x.w[k]), x.we[k]), Log(SumT([j \in 1..x.K |-> Mul(x.w[j], Exp(x.we[j]))])))
View(x)  == [mu |-> [d \in 1..x.D |-> [k \in 1..x.K |-> E(QT(x.mu[k][d]))]], sigma |-> [k \in 1..x.K |-> E(Sig(x, k))],
             lambd |-> [d \in 1..x.D |-> E(Lam(x, d))], w |-> [k \in 1..x.K |-> E(Wei(x, k))],
             cov |-> [k \in 1..x.K |-> [d \in 1..x.D |-> E(Mul(QT(x.sg[k]), QT(x.la[d])))]]]
Flat(x)  == FoldLeft(LAMBDA a, b : a \o b, <<>>, [k \in 1..x.K |-> [d \in 1..x.D |-> QT(x.mu[k][d])]])
Lg(raw, t) == IF raw THEN Log(t) ELSE t
Theta(x, f, raw, shift) ==
  LET n == [x EXCEPT !.normed = TRUE]
      t == (IF f.mu THEN Flat(x) ELSE <<>>)
           \o (IF f.sg THEN [k \in 1..x.K |-> Lg(raw, Sig(n, k))] ELSE <<>>)
           \o (IF f.la THEN [d \in 1..x.D |-> Lg(raw, Lam(n, d))] ELSE <<>>)
           \o (IF f.w THEN [k \in 1..x.K |-> IF raw THEN Add(LogWei(x, k), shift) ELSE Mul(Wei(x, k), 1 + shift)] ELSE <<>>)
  IN [i \in DOMAIN t |-> E(t[i])]
\* the mixture x with the optimisable parameters of y
\* (mixed scales: y's sigma and lambda are exported normalised, so both are replaced or
\*  only one of them is, which changes the covariances accordingly: expressed by Half)
Half2(x, y, f) ==
  [mu |-> [d \in 1..x.D |-> [k \in 1..x.K |-> E(QT((IF f.mu THEN y ELSE x).mu[k][d]))]],
   w |-> [k \in 1..x.K |-> E(Wei(IF f.w THEN y ELSE x, k))],
   cov |-> [k \in 1..x.K |-> [d \in 1..x.D |->
      E(Mul(IF f.sg THEN Mul(QT(y.sg[k]), Nl(y)) ELSE Sig(x, k), IF f.la THEN Div(QT(y.la[d]), Nl(y)) ELSE Lam(x, d)))]],
   unit |-> TRUE]

\* --- density
InU(x, cc) == ToU(cc, <<>>, <<>>, x)
Z2(y, k, u) == SumT([d \in 1..y.D |-> Sqr(Div(Sub(u[d], QT(y.mu[k][d])), Mul(QT(y.sg[k]), QT(y.la[d]))))])
LogC(y, k, u, df) ==   \* log density of component k
  LET lsc == SumT([d \in 1..y.D |-> Log(Mul(QT(y.sg[k]), QT(y.la[d])))]) D == y.D
  IN IF df = 0 THEN Sub(Neg(Half(Add(Mul(D, Log2Pi), Z2(y, k, u)))), lsc)
     ELSE IF df > 0 THEN SumT(<<<<"lgamma", Rat(df + D, 2)>>, Neg(<<"lgamma", Rat(df, 2)>>), Mul(Rat(-D, 2), Log(Mul(df, "pi"))), Neg(lsc),
                               Mul(Rat(-(df + D), 2), Log(Add(1, Div(Z2(y, k, u), df))))>>)
     ELSE LET a == -df IN SumT(<<Mul(D, SumT(<<<<"lgamma", Rat(a + 1, 2)>>, Neg(<<"lgamma", Rat(a, 2)>>), Mul(Rat(-1, 2), Log(Mul(a, "pi")))>>)), Neg(lsc),
             Mul(Rat(-(a + 1), 2), SumT([d \in 1..D |-> Log(Add(1, Div(Sqr(Div(Sub(u[d], QT(y.mu[k][d])), Mul(QT(y.sg[k]), QT(y.la[d])))), a)))]))>>)
LogQ(y, u, df) == LogSumExp([k \in 1..y.K |-> Add(Log(Wei(y, k)), LogC(y, k, u, df))])
\* gradient of the density
DQ(y, u, d) == SumT([k \in 1..y.K |-> ProdT(<<Wei(y, k), Exp(LogC(y, k, u, 0)), Div(Sub(QT(y.mu[k][d]), u[d]), Sqr(Mul(QT(y.sg[k]), QT(y.la[d]))))>>)])
\* --- moments in the transformed space
Mean(y, d)  == SumT([k \in 1..y.K |-> Mul(Wei(y, k), QT(y.mu[k][d]))])
Cov(y, c, d) == Add(IF c = d THEN SumT([k \in 1..y.K |-> Mul(Wei(y, k), Sqr(Mul(QT(y.sg[k]), QT(y.la[d]))))]) ELSE 0,
                    SumT([k \in 1..y.K |-> ProdT(<<Wei(y, k), Sub(QT(y.mu[k][c]), Mean(y, c)), Sub(QT(y.mu[k][d]), Mean(y, d))>>)]))

Coord0 == LET w == Qs({8, 16, 24}, 2) o == Qs(-12..2, 2)
          IN [t |-> Wt(<<"unb", "unb", "b">>), lb |-> o, ub |-> QAdd(o, w), plb |-> QAdd(o, QMul(w, Qs({1, 2}, 8))), pub |-> QAdd(o, QMul(w, Qs({5, 6, 7}, 8))), pl |-> TRUE]
Coords0(D) == LET ty == Wt(<<"logit", "probit", "student4">>) q == [d \in 1..D |-> TLCEval(Coord0)] IN [d \in 1..D |-> [q[d] EXCEPT !.t = IF @ = "unb" THEN @ ELSE ty]]
Flags0 == LET r == Rnd(1..5) IN IF r < 3 THEN [mu |-> TRUE, sg |-> TRUE, la |-> TRUE, w |-> TRUE]
          ELSE [mu |-> Rnd({TRUE, FALSE}), sg |-> Rnd({TRUE, FALSE}), la |-> Rnd({TRUE, FALSE}), w |-> Rnd({TRUE, FALSE})]

Init == m = [D |-> 0] /\ cs = <<>> /\ fl = [mu |-> TRUE] /\ hist = <<>> /\ done = FALSE
Make == /\ ~done /\ m.D = 0
        /\ \E D \in {TLCEval(Rnd(1..3))}, K \in {TLCEval(Rnd(1..4))} : \E x \in {TLCEval(Mix(D, K))}, f \in {TLCEval(Flags0)}, c \in {TLCEval(Coords0(D))}, n0 \in {TLCEval(Rnd(0..4))} :
           \E x0 \in {TLCEval([i \in 1..n0 |-> TLCEval([d \in 1..D |-> TLCEval(Rnd(-9..9))])])} :
             m' = x /\ fl' = f /\ cs' = c
             \* a new posterior: components around the starting points in turn, equal weights, unit scales
             /\ Log1("make", [m |-> x, fl |-> f, cs |-> c, x0 |-> x0],
                      [now |-> View(x), new |-> [mu |-> [d \in 1..D |-> [k \in 1..K |-> IF n0 = 0 THEN 0 ELSE x0[((k - 1) % n0) + 1][d]]], w |-> [k \in 1..K |-> E(Rat(1, K))], lambd |-> [d \in 1..D |-> 1], small |-> TRUE, flags |-> TRUE]])
        /\ UNCHANGED done
Can(md) == ~done /\ m.D > 0 /\ Len(hist) < Depth /\ Mode = md
Get == /\ Can("params")
       /\ \E raw \in {TLCEval(Rnd({TRUE, FALSE}))} :
            /\ m' = [m EXCEPT !.normed = TRUE]
            /\ Log1("get", [raw |-> raw], [theta |-> Theta(m, fl, raw, 0), vp |-> View(m')])
       /\ UNCHANGED <<cs, fl, done>>
\* import the parameters of another mixture; the result is re-read as a fresh mixture when all is replaced
Set == /\ Can("params")
       /\ \E raw \in {TLCEval(Rnd({TRUE, FALSE}))}, y \in {TLCEval(Mix(m.D, m.K))}, sh \in {TLCEval(Wt(<<0, 0, 2, 40, 900>>))} :
            LET whole == fl.sg /\ fl.la
                nw == [y EXCEPT !.mu = IF fl.mu THEN @ ELSE m.mu, !.w = IF fl.w THEN @ ELSE m.w, !.we = IF fl.w THEN @ ELSE m.we, !.normed = TRUE]
            IN /\ IF whole THEN m' = nw ELSE IF ~fl.sg /\ ~fl.la THEN m' = [nw EXCEPT !.sg = m.sg, !.la = m.la] ELSE m' = [D |-> 0]
               /\ IF m'.D = 0 THEN Log1("setlast", [raw |-> raw, theta |-> Theta(y, fl, raw, sh)], Half2(m, y, fl))
                  ELSE Log1("set", [raw |-> raw, theta |-> Theta(y, fl, raw, sh)], [vp |-> View(m'), unit |-> TRUE, arg |-> TRUE])
               /\ done' = (m'.D = 0)
       /\ UNCHANGED <<cs, fl>>
\* a negative scale or weight in natural encoding is rejected and changes nothing
Bad == /\ Can("params") /\ (fl.sg \/ fl.la \/ fl.w)
       /\ \E y \in {TLCEval(Mix(m.D, m.K))} :
            LET th == Theta(y, fl, FALSE, 0) base == IF fl.mu THEN m.D * m.K ELSE 0
            IN \E i \in {TLCEval(Rnd((base + 1)..Len(th)))} :
                 Log1("bad", [theta |-> [th EXCEPT ![i] = E(Neg(@.e))]], [err |-> TRUE, vp |-> View(m)])
       /\ UNCHANGED <<m, cs, fl, done>>
\* the mode is recomputed after an import (one component: the mode is the mean)
ModeOf == /\ Can("params") /\ m.K = 1 /\ Rnd(1..8) = 1
          /\ Log1("mode", [n |-> 1], [mode |-> [d \in 1..m.D |-> E(QT(m.mu[1][d]))]])
          /\ UNCHANGED <<m, cs, fl, done>>

UPoint == [d \in 1..m.D |-> QT(TLCEval(QAdd(m.mu[1][d], Qs(-12..12, 4))))]
XPoint(out) == [d \in 1..m.D |-> LET c == cs[d] w == QSub(c.ub, c.lb) IN
                  IF c.t = "unb" THEN TLCEval(QAdd(c.lb, QMul(w, Qs(-8..24, 16))))
                  ELSE IF out /\ Rnd(1..3) = 1 THEN QAdd(Wt(<<c.lb, c.ub>>), QMul(w, Wt(<<QI(0), QI(0), QI(2), QI(-2)>>)))
                  ELSE TLCEval(QAdd(c.lb, QMul(w, Qs(1..31, 32))))]
In(x) == \A d \in 1..m.D : cs[d].t = "unb" \/ (QLt(cs[d].lb, x[d]) /\ QLt(x[d], cs[d].ub))
DensU == /\ Can("density")
         /\ \E n \in {TLCEval(Rnd(1..3))}, df \in {TLCEval(Wt(<<0, 0, 0, 3, 4, 7, -3, -5>>))}, sh \in {TLCEval(Wt(<<"2d", "1d">>))} :
            \E us \in {TLCEval([i \in 1..(IF sh = "1d" THEN 1 ELSE n) |-> UPoint])} :
              Log1("densu", [u |-> [i \in DOMAIN us |-> [d \in 1..m.D |-> E(us[i][d])]], df |-> df, sh |-> sh],
                   [logp |-> [i \in DOMAIN us |-> E(LogQ(m, us[i], df))], p |-> [i \in DOMAIN us |-> E(Exp(LogQ(m, us[i], df)))],
                    grad |-> IF df = 0 THEN [i \in DOMAIN us |-> [d \in 1..m.D |-> E(DQ(m, us[i], d))]] ELSE <<>>,
                    lgrad |-> IF df = 0 THEN [i \in DOMAIN us |-> [d \in 1..m.D |-> E(Div(DQ(m, us[i], d), Exp(LogQ(m, us[i], 0))))]] ELSE <<>>,
                    err |-> df # 0, args |-> TRUE])
         /\ UNCHANGED <<m, cs, fl, done>>
DensX == /\ Can("density")
         /\ \E n \in {TLCEval(Rnd(1..3))}, df \in {TLCEval(Wt(<<0, 0, 0, 4, -4>>))}, sh \in {TLCEval(Wt(<<"2d", "1d">>))} :
            \E xs \in {TLCEval([i \in 1..(IF sh = "1d" THEN 1 ELSE n) |-> XPoint(TRUE)])} :
              LET lp(x) == IF In(x) THEN E(Sub(LogQ(m, InU(x, cs), df), LogJac(cs, <<>>, <<>>, x))) ELSE "-inf"
                  pp(x) == IF In(x) THEN E(Exp(Sub(LogQ(m, InU(x, cs), df), LogJac(cs, <<>>, <<>>, x)))) ELSE 0
              IN Log1("densx", [x |-> [i \in DOMAIN xs |-> [d \in 1..m.D |-> E(QT(xs[i][d]))]], df |-> df, sh |-> sh],
                      [logp |-> [i \in DOMAIN xs |-> lp(xs[i])], p |-> [i \in DOMAIN xs |-> pp(xs[i])], args |-> TRUE])
         /\ UNCHANGED <<m, cs, fl, done>>
Moments == /\ Can("density")
           /\ Log1("moments", IF \A d \in 1..m.D : cs[d].t = "unb"
                              THEN [om |-> [d \in 1..m.D |-> E(Add(Mul(Mean(m, d), Sub(QT(cs[d].pub), QT(cs[d].plb))), Half(Add(QT(cs[d].pub), QT(cs[d].plb)))))],
                                    oc |-> [c \in 1..m.D |-> [d \in 1..m.D |-> E(ProdT(<<Cov(m, c, d), Sub(QT(cs[c].pub), QT(cs[c].plb)), Sub(QT(cs[d].pub), QT(cs[d].plb))>>))]]]
                              ELSE [om |-> <<>>, oc |-> <<>>], [orig |-> TRUE, mean |-> [d \in 1..m.D |-> E(Mean(m, d))], cov |-> [c \in 1..m.D |-> [d \in 1..m.D |-> E(Cov(m, c, d))]],
                                         shapes |-> <<<<1, m.D>>, <<m.D, m.D>>>>])
           /\ UNCHANGED <<m, cs, fl, done>>
\* n samples; quotas (balanced): every component at least the whole part of its share
Sample == /\ Can("density")
          /\ \E n \in {TLCEval(Wt(<<0, 1, 2, 5, 16, 33, 64, 100, 4000>>))}, bal \in {TLCEval(Rnd({TRUE, FALSE}))}, orig \in {TLCEval(Rnd({TRUE, FALSE}))},
                df \in {TLCEval(Wt(<<0, 0, 4>>))} :
               Log1("sample", [n |-> n, bal |-> bal, orig |-> orig, df |-> df, mu |-> View(m).mu, sc |-> View(m).cov, w |-> View(m).w],
                    [shape |-> <<n, m.D>>, count |-> n, quota |-> IF bal THEN [k \in 1..m.K |-> (m.w[k] * n) \div 16] ELSE <<>>,
                     exact |-> IF bal /\ (n % 16) = 0 THEN [k \in 1..m.K |-> (m.w[k] * n) \div 16] ELSE <<>>,
                     inside |-> TRUE, means |-> TRUE, spreads |-> TRUE, weights |-> TRUE])
          /\ UNCHANGED <<m, cs, fl, done>>
\* many balanced samples of n: every component's expected number is exactly its share
Shares == /\ Can("density") /\ m.K > 1 /\ Rnd(1..2) = 1
          /\ \E n \in {TLCEval(Rnd(1..20))} :
               Log1("shares", [n |-> n, share |-> [k \in 1..m.K |-> E(Rat(m.w[k] * n, 16))], whole |-> [k \in 1..m.K |-> (m.w[k] * n) \div 16]], [share |-> TRUE, whole |-> TRUE])
          /\ UNCHANGED <<m, cs, fl, done>>
\* divergences
KlN(y1, y2, c1, c2) == Half(SumT([d \in 1..c1 |-> SumT(<<Sqr(Div(Mul(QT(y1.sg[1]), QT(y1.la[d])), Mul(QT(y2.sg[1]), QT(y2.la[d])))),
        Sqr(Div(Sub(QT(y2.mu[1][d]), QT(y1.mu[1][d])), Mul(QT(y2.sg[1]), QT(y2.la[d])))), -1,
        Mul(2, Log(Div(Mul(QT(y2.sg[1]), QT(y2.la[d])), Mul(QT(y1.sg[1]), QT(y1.la[d])))))>>)]))
Near(x) == [x EXCEPT !.mu = [k \in 1..x.K |-> [d \in 1..x.D |-> TLCEval(QAdd(x.mu[k][d], QMul(x.sg[k], Qs(-2..2, 2))))]], !.sg = [k \in 1..x.K |-> QMul(x.sg[k], Wt(<<QI(1), QI(1), Q(3, 2), Q(2, 3)>>))]]
Kl == /\ Can("density") /\ Rnd(1..3) = 1
      /\ \E y \in {TLCEval(Near(m))} :
           Log1("kl", [m |-> y], [self |-> <<0, 0>>, nonneg |-> TRUE,
                                  kl |-> IF m.K = 1 /\ \A d \in 1..m.D : cs[d].t = "unb" THEN <<E(KlN(m, y, m.D, 0)), E(KlN(y, m, m.D, 0))>> ELSE <<>>, err |-> TRUE, err2 |-> TRUE])
      /\ UNCHANGED <<m, cs, fl, done>>
\* posteriors so far apart that each density underflows at the other's samples: its logarithm is that of the
\* smallest positive number
KlFar == /\ Can("density") /\ m.K = 1 /\ (\A d \in 1..m.D : cs[d].t = "unb") /\ Rnd(1..3) = 1
         /\ \E by \in {TLCEval(Wt(<<100, -100, 1000>>))} :
              LET ent == SumT([d \in 1..m.D |-> Add(Log(ProdT(<<QT(m.sg[1]), QT(m.la[d]), Sub(QT(cs[d].pub), QT(cs[d].plb))>>)), Half(Add(1, Log2Pi)))])
                  kl == Sub(Mul(1022, Log(2)), ent)
              IN Log1("klfar", [shift |-> [d \in 1..m.D |-> E(ProdT(<<by, QT(m.sg[1]), QT(m.la[d])>>))]], [kl |-> <<E(kl), E(kl)>>])
         /\ UNCHANGED <<m, cs, fl, done>>
\* Gaussianised divergence to given samples, in one dimension of unbounded coordinates: moments of the samples
KlS == /\ Can("density") /\ m.D = 1 /\ cs[1].t = "unb" /\ Rnd(1..2) = 1
       /\ \E a \in {TLCEval(Rnd({1, 2, 3}))} :
           LET dl == Sub(QT(cs[1].pub), QT(cs[1].plb)) c0 == Half(Add(QT(cs[1].pub), QT(cs[1].plb)))
               \* samples: mean + {-a, +a} in plausible units
               mm == Add(Mul(Mean(m, 1), dl), c0) vv == Mul(Cov(m, 1, 1), Sqr(dl))
               xs == <<Sub(QT(cs[1].plb), a), Add(QT(cs[1].pub), a), QT(cs[1].plb), QT(cs[1].pub), QT(QMul(QAdd(cs[1].plb, cs[1].pub), Q(1, 2)))>>
               xm == Div(SumT(xs), 5) xv == Div(SumT([i \in 1..5 |-> Sqr(Sub(xs[i], xm))]), 4)
               kl(m1, v1, m2, v2) == Half(SumT(<<Div(v1, v2), Div(Sqr(Sub(m2, m1)), v2), -1, Log(Div(v2, v1))>>))
           IN Log1("kls", [xs |-> [i \in 1..5 |-> E(xs[i])]], [kl |-> <<E(kl(mm, vv, xm, xv)), E(kl(xm, xv, mm, vv))>>])
       /\ UNCHANGED <<m, cs, fl, done>>
Mtv == /\ Can("density") /\ m.K = 1 /\ m.D <= 2 /\ (\A d \in 1..m.D : cs[d].t = "unb") /\ Rnd(1..4) = 1
       /\ \E k \in {TLCEval([d \in 1..m.D |-> Wt(<<0, 1, 2, 4, 20>>)])} :
            \* shifted by k/2 standard deviations in each coordinate
            Log1("mtv", [shift |-> [d \in 1..m.D |-> E(Mul(Rat(k[d], 2), Mul(QT(m.sg[1]), QT(m.la[d]))))]],
                 [mtv |-> [d \in 1..m.D |-> E(<<"erf", Div(Rat(k[d], 4), Sqrt(2))>>)], err |-> TRUE])
       /\ UNCHANGED <<m, cs, fl, done>>
Stop == /\ ~done /\ (Len(hist) = Depth) /\ done' = TRUE /\ UNCHANGED <<m, cs, fl, hist>>
Next == Make \/ Get \/ Set \/ Bad \/ ModeOf \/ DensU \/ DensX \/ Moments \/ Sample \/ Shares \/ Kl \/ KlFar \/ KlS \/ Mtv \/ Stop
Spec == Init /\ [][Next]_vars
Emit == done => PrintT(ToJson(hist))
=============================================================================

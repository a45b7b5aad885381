-------------------------------- MODULE Elbo --------------------------------
(* The evidence bound of a mixture under a Gaussian-process surrogate.  All quantities are
   symbolic; named definitions ($name) keep them small.  A gradient is requested as
   [g |-> term, p |-> names]: the derivatives with respect to these names. *)
EXTENDS Term, FiniteSets, TLC, Json, SequencesExt
CONSTANTS Depth, Mode
VARIABLES hist, done
vars == <<hist, done>>
Rnd(S) == RandomElement(IF done THEN {} ELSE S)
Wt(q)  == q[Rnd(DOMAIN q)]
Nm1(k, i) == "$" \o k \o ToString(i)
Nm2(k, i, j) == "$" \o k \o ToString(i) \o "_" \o ToString(j)
Nm3(k, i, j, n) == "$" \o k \o ToString(i) \o "_" \o ToString(j) \o "_" \o ToString(n)
Mu(k, d) == Nm2("mu", k, d)
LS(k) == Nm1("ls", k)
LL(d) == Nm1("ll", d)
Et(k) == Nm1("e", k)
Wn(k) == Nm1("w", k)
Sum2(q) == SumT(q)
\* --- the mixture: values (quarters) of the parameters
Base(c) == FlattenSeq([k \in 1..c.K |-> [d \in 1..c.D |-> <<Mu(k, d), Rat(c.mu[k][d], 4)>>]]) \o [k \in 1..c.K |-> <<LS(k), Rat(c.ls[k], 4)>>]
           \o [d \in 1..c.D |-> <<LL(d), Rat(c.ll[d], 4)>>] \o [k \in 1..c.K |-> <<Et(k), Rat(c.et[k], 4)>>]
WDef(K) == <<<<"$es", SumT([k \in 1..K |-> Exp(Et(k))])>>>> \o [k \in 1..K |-> <<Wn(k), Div(Exp(Et(k)), "$es")>>]
Pars(D, K, fl) == (IF fl.mu THEN FlattenSeq([k \in 1..K |-> [d \in 1..D |-> Mu(k, d)]]) ELSE <<>>) \o (IF fl.sg THEN [k \in 1..K |-> LS(k)] ELSE <<>>)
                  \o (IF fl.la THEN [d \in 1..D |-> LL(d)] ELSE <<>>) \o (IF fl.w THEN [k \in 1..K |-> Et(k)] ELSE <<>>)
\* squared component scale
Sc2(k, d) == Exp(Mul(2, Add(LS(k), LL(d))))

\* --- the surrogate: hyperparameter samples h = [l, f, s, m, xm, om] (quarters), points X (quarters), values y (eighths), given noise variances v (sixteenths)
Kern(h, a, b) == Exp(Sub(Half(h.f), Half(SumT([d \in DOMAIN a |-> Pow(Div(Rat(a[d] - b[d], 4), Exp(Rat(h.l[d], 4))), 2)]))))
Noise(g, h, n) == Add(Exp(Half(h.s)), IF g.v = <<>> THEN 0 ELSE Rat(g.v[n], 16))
MeanAt(g, h, x) == CASE g.mean = "zero" -> 0 [] g.mean = "const" -> Rat(h.m, 4)
   [] OTHER -> Sub(Rat(h.m, 4), Half(SumT([d \in DOMAIN x |-> Pow(Div(Rat(x[d] - h.xm[d], 4), Exp(Rat(h.om[d], 4))), 2)])))
\* Cholesky factor and forward substitution
Chol(g, s) == LET h == g.hs[s] N == Len(g.X)
                  A(i, j) == IF i = j THEN Add(Kern(h, g.X[i], g.X[i]), Noise(g, h, i)) ELSE Kern(h, g.X[i], g.X[j])
                  prev(i, j) == SumT([k \in 1..(j - 1) |-> Mul(Nm3("L", s, i, k), Nm3("L", s, j, k))])
              IN FlattenSeq([j \in 1..N |-> [r \in 1..(N - j + 1) |-> LET i == j + r - 1 IN <<Nm3("L", s, i, j), IF i = j THEN Sqrt(Sub(A(i, i), prev(i, i))) ELSE Div(Sub(A(i, j), prev(i, j)), Nm3("L", s, j, j))>>]])
Fwd(N, s, nm(_), v(_)) == [i \in 1..N |-> <<nm(i), Div(Sub(v(i), SumT([k \in 1..(i - 1) |-> Mul(Nm3("L", s, i, k), nm(k))])), Nm3("L", s, i, i))>>]
Tau2(g, s, k, d) == Add(Sc2(k, d), Exp(Half(g.hs[s].l[d])))
LnNf(g, s, t(_), D) == Add(Half(g.hs[s].f), Sub(SumT([d \in 1..D |-> Rat(g.hs[s].l[d], 4)]), Half(SumT([d \in 1..D |-> Log(t(d))]))))
LJoint(g, D, K) ==
  LET N == Len(g.X) S == Len(g.hs)
      Z(s, k, n) == Exp(Sub(LnNf(g, s, LAMBDA d : Nm3("t", s, k, d), D), Half(SumT([d \in 1..D |-> Div(Pow(Sub(Mu(k, d), Rat(g.X[n][d], 4)), 2), Nm3("t", s, k, d))]))))
      nu(s, k) == LET h == g.hs[s] IN Neg(Half(SumT([d \in 1..D |-> Div(Add(Pow(Sub(Mu(k, d), Rat(h.xm[d], 4)), 2), Sc2(k, d)), Exp(Half(h.om[d])))])))
      Io(s, k) == SumT(<<SumT([n \in 1..N |-> Mul(Nm3("U" \o ToString(s), k, n, 0), Nm2("V", s, n))]), IF g.mean = "zero" THEN 0 ELSE Rat(g.hs[s].m, 4), IF g.mean = "negquad" THEN nu(s, k) ELSE 0>>)
      T2(s, j, k, d) == SumT(<<Sc2(j, d), Sc2(k, d), Exp(Half(g.hs[s].l[d]))>>)
      J(s, j, k) == Sub(Exp(Sub(LnNf(g, s, LAMBDA d : T2(s, j, k, d), D), Half(SumT([d \in 1..D |-> Div(Pow(Sub(Mu(j, d), Mu(k, d)), 2), T2(s, j, k, d))])))),
                        SumT([n \in 1..N |-> Mul(Nm3("U" \o ToString(s), j, n, 0), Nm3("U" \o ToString(s), k, n, 0))]))
      One(s) == Chol(g, s) \o Fwd(N, s, LAMBDA i : Nm2("V", s, i), LAMBDA i : Sub(Rat(g.y[i], 8), MeanAt(g, g.hs[s], g.X[i])))
                \o FlattenSeq([k \in 1..K |-> [d \in 1..D |-> <<Nm3("t", s, k, d), Tau2(g, s, k, d)>>]])
                \o FlattenSeq([k \in 1..K |-> Fwd(N, s, LAMBDA i : Nm3("U" \o ToString(s), k, i, 0), LAMBDA i : Z(s, k, i))])
                \o [k \in 1..K |-> <<Nm2("I", s, k), Io(s, k)>>]
                \o FlattenSeq([k \in 1..K |-> [j \in 1..k |-> <<Nm3("J", s, j, k), J(s, j, k)>>]])
                \o <<<<Nm1("G", s), SumT([k \in 1..K |-> Mul(Wn(k), Nm2("I", s, k))])>>,
                     <<Nm1("v", s), Max2("eps", SumT(FlattenSeq([k \in 1..K |-> [j \in 1..k |-> IF j = k THEN ProdT(<<Wn(k), Wn(k), Max2("eps", Nm3("J", s, k, k))>>) ELSE ProdT(<<2, Wn(j), Wn(k), Nm3("J", s, j, k)>>)]])))>>>>
  IN FlattenSeq([s \in 1..S |-> One(s)])
     \o <<<<"$G", Div(SumT([s \in 1..S |-> Nm1("G", s)]), S)>>,
          <<"$sp", IF S = 1 THEN 0 ELSE Div(SumT([s \in 1..S |-> Pow(Sub(Nm1("G", s), "$G"), 2)]), S - 1)>>,
          <<"$mv", Div(SumT([s \in 1..S |-> Nm1("v", s)]), S)>>,
          <<"$var", Add("$mv", "$sp")>>,
          <<"$ss", IF S = 1 THEN 0 ELSE Add("$sp", Sqrt(Div(SumT([s \in 1..S |-> Pow(Sub(Nm1("v", s), "$mv"), 2)]), S - 1)))>>>>
Isk(g, K) == [s \in DOMAIN g.hs |-> [k \in 1..K |-> E(Nm2("I", s, k))]]
Jsjk(g, K) == [s \in DOMAIN g.hs |-> [j \in 1..K |-> [k \in 1..K |-> E(IF j <= k THEN Nm3("J", s, j, k) ELSE Nm3("J", s, k, j))]]]

\* --- entropy: exact for one component, else the lower bound; or an average over given draws
HLb(D, K) ==
  IF K = 1 THEN <<<<"$H", Add(Half(Mul(D, Add(1, Log2Pi))), Add(Mul(D, LS(1)), SumT([d \in 1..D |-> LL(d)])))>>>>
  ELSE LET s2(i, j) == Add(Exp(Mul(2, LS(i))), Exp(Mul(2, LS(j))))
           gam(i, j) == Exp(Sub(Neg(SumT(<<Mul(Rat(D, 2), Log2Pi), SumT([d \in 1..D |-> LL(d)]), Mul(Rat(D, 2), Log(s2(i, j)))>>)),
                                Half(SumT([d \in 1..D |-> Div(Pow(Sub(Mu(i, d), Mu(j, d)), 2), Mul(s2(i, j), Exp(Mul(2, LL(d)))))]))))
       IN [i \in 1..K |-> <<Nm1("gs", i), SumT([j \in 1..K |-> Mul(Wn(j), gam(i, j))])>>] \o <<<<"$H", Neg(SumT([i \in 1..K |-> Mul(Wn(i), Log(Nm1("gs", i)))]))>>>>
\* draws ep[j][n][d] (eighths), used with both signs; the density at the draws is differentiated in the weights only
HMc(D, K, ep) ==
  LET n2 == Len(ep[1])
      x(j, n, sg, d) == Add(Mu(j, d), Mul(Rat(sg * ep[j][n][d], 8), Exp(Add(LS(j), LL(d)))))
      st(t) == <<"stop", t>>
      dens(j, n, sg) == SumT([k \in 1..K |-> Mul(Wn(k), Exp(Neg(SumT([d \in 1..D |-> Add(Add(Half(Log2Pi), Add(st(LS(k)), st(LL(d)))),
                                Half(Pow(Div(Sub(x(j, n, sg, d), st(Mu(k, d))), Exp(Add(st(LS(k)), st(LL(d))))), 2)))]))))])
  IN FlattenSeq([j \in 1..K |-> [n \in 1..n2 |-> <<Nm2("q", j, n), Add(Log(dens(j, n, 1)), Log(dens(j, n, -1)))>>]])
     \o <<<<"$H", Neg(SumT([j \in 1..K |-> Mul(Wn(j), Div(SumT([n \in 1..n2 |-> Nm2("q", j, n)]), 2 * n2))]))>>>>

\* --- generation
Mix0(D, K) == [D |-> D, K |-> K, mu |-> TLCEval([k \in 1..K |-> TLCEval([d \in 1..D |-> TLCEval(Rnd(-6..6))])]), ls |-> TLCEval([k \in 1..K |-> TLCEval(Rnd(-6..2))]),
               ll |-> TLCEval([d \in 1..D |-> TLCEval(Rnd(-2..2))]), et |-> TLCEval(LET e == TLCEval([k \in 1..K |-> TLCEval(Wt(<<0, 0, -1, -2, -5, -9, -16>>))]) IN [e EXCEPT ![Rnd(1..K)] = 0])]
Gp0(D, S, N) == LET tiny == TLCEval(Rnd(1..4) = 1) hs == TLCEval([s \in 1..S |-> [l |-> TLCEval([d \in 1..D |-> TLCEval(Rnd(-3..4))]), f |-> TLCEval(Rnd(-3..4)), s |-> TLCEval(IF tiny THEN -30 ELSE Rnd(-9..-1)), m |-> TLCEval(Rnd(-8..8)),
                                         xm |-> TLCEval([d \in 1..D |-> TLCEval(Rnd(-4..4))]), om |-> TLCEval([d \in 1..D |-> TLCEval(Rnd(-1..6))])]])
                IN [mean |-> TLCEval(Wt(<<"zero", "const", "negquad", "negquad">>)), hs |-> hs,
                    X |-> TLCEval([n \in 1..N |-> TLCEval([d \in 1..D |-> TLCEval(8 * n - 4 * N + Rnd(-3..3))])]), y |-> TLCEval([n \in 1..N |-> TLCEval(Rnd(-24..24))]),
                    v |-> TLCEval(IF ~tiny /\ Rnd(1..3) = 1 THEN [n \in 1..N |-> TLCEval(Rnd(1..16))] ELSE <<>>)]
Bl == BOOLEAN
Flags0 == LET both == TLCEval(Rnd(1..4) > 1) IN [mu |-> TLCEval(Rnd(1..3) > 1), sg |-> both, la |-> both, w |-> TLCEval(Rnd(1..3) > 1)]
AnyF(fl) == fl.mu \/ fl.sg \/ fl.la \/ fl.w
Push(op, a, defs, e) == hist' = Append(hist, [op |-> op, a |-> a, defs |-> defs, exp |-> e])
\* step number in the names is not needed: definitions are made anew
\* --- expected log-joint
LjStep == /\ ~done /\ Mode = "lj" /\ Len(hist) < Depth
          /\ \E D \in {TLCEval(Rnd(1..3))}, K \in {TLCEval(Rnd(1..3))}, S \in {TLCEval(Rnd(1..3))}, N \in {TLCEval(Rnd(1..4))}, fl \in {TLCEval(Flags0)}, fl2 \in {TLCEval([mu |-> TLCEval(Rnd(Bl)), sg |-> TLCEval(Rnd(Bl)), la |-> TLCEval(Rnd(Bl)), w |-> TLCEval(Rnd(Bl))])}, cv \in {TLCEval(Rnd(Bl))}, sep0 \in {TLCEval(Rnd(Bl))} :
             \E c \in {TLCEval(Mix0(D, K))}, g \in {TLCEval(Gp0(D, S, N))} :
             LET gr == ~cv /\ AnyF(fl2) sep == sep0 /\ cv IN
             Push("lj", [c |-> c, g |-> g, fl |-> fl2, cv |-> cv, sep |-> sep, grad |-> gr], Base(c) \o WDef(K) \o LJoint(g, D, K),
                  [G |-> E("$G"), var |-> IF cv THEN E("$var") ELSE "none", ss |-> IF cv THEN E("$ss") ELSE 0,
                   dG |-> IF gr THEN [g |-> "$G", p |-> Pars(D, K, fl2)] ELSE <<>>,
                   I |-> IF sep THEN Isk(g, K) ELSE <<>>, J |-> IF sep /\ cv THEN Jsjk(g, K) ELSE <<>>, same |-> TRUE])
          /\ UNCHANGED done
\* --- entropy
EntStep == /\ ~done /\ Mode = "ent" /\ Len(hist) < Depth
           /\ \E D \in {TLCEval(Rnd(1..3))}, K \in {TLCEval(Rnd(1..3))}, kind \in {TLCEval(Wt(<<"lb", "mc">>))}, ns \in {TLCEval(Rnd(1..5))}, fl \in {TLCEval([mu |-> TLCEval(Rnd(Bl)), sg |-> TLCEval(Rnd(Bl)), la |-> TLCEval(Rnd(Bl)), w |-> TLCEval(Rnd(Bl))])} :
              \E c \in {TLCEval(Mix0(D, K))}, ep \in {TLCEval([j \in 1..K |-> TLCEval([n \in 1..((ns + 1) \div 2) |-> TLCEval([d \in 1..D |-> TLCEval(Rnd(-20..20))])])])} :
              Push("ent", [c |-> c, kind |-> kind, ns |-> ns, ep |-> ep, fl |-> fl], Base(c) \o WDef(K) \o (IF kind = "lb" THEN HLb(D, K) ELSE HMc(D, K, ep)),
                   [H |-> E("$H"), dH |-> IF AnyF(fl) THEN [g |-> "$H", p |-> Pars(D, K, fl)] ELSE <<>>, same |-> TRUE])
           /\ UNCHANGED done
\* --- the whole objective, with penalties
Soft(x, lo, hi, tol) == LET ell == Mul(Rat(hi - lo, 4), tol) IN Half(Pow(Div(Max2(0, Max2(Sub(Rat(lo, 4), x), Sub(x, Rat(hi, 4)))), ell), 2))
Loss(D, K, fl, b) == LET scale == fl.sg \/ fl.la IN
  SumT((IF fl.mu THEN FlattenSeq([k \in 1..K |-> [d \in 1..D |-> Soft(Mu(k, d), b.ml[d], b.mh[d], b.tol)]]) ELSE <<>>)
    \o (IF scale THEN FlattenSeq([k \in 1..K |-> [d \in 1..D |-> Soft(Add(LS(k), LL(d)), b.sl[d], b.sh[d], b.tol)]]) ELSE <<>>)
    \o (IF fl.w THEN [k \in 1..K |-> Soft(Et(k), b.el, 0, b.tol)] ELSE <<>>)
    \o (IF fl.w THEN <<Mul(b.pen, SumT([k \in 1..K |-> Min2(Wn(k), b.thr)]))>> ELSE <<>>))
ElboStep == /\ ~done /\ Mode = "elbo" /\ Len(hist) < Depth
            /\ \E D \in {TLCEval(Rnd(1..2))}, K \in {TLCEval(Rnd(1..3))}, S \in {TLCEval(Rnd(1..2))}, N \in {TLCEval(Rnd(1..3))}, fl \in {TLCEval(Flags0)}, beta \in {TLCEval(Wt(<<0, 0, 1, 3, 98, 99>>))}, cg \in {TLCEval(Rnd(Bl))},
                  cv \in {TLCEval(Wt(<<"none", "none", "yes", "no">>))}, ns \in {TLCEval(Wt(<<0, 0, 2, 3>>))}, pen \in {TLCEval(Rnd(Bl))} :
               \E c \in {TLCEval(Mix0(D, K))}, g \in {TLCEval(Gp0(D, S, N))}, ep \in {TLCEval([j \in 1..K |-> TLCEval([n \in 1..((ns + 1) \div 2) |-> TLCEval([d \in 1..D |-> TLCEval(Rnd(-20..20))])])])},
                  b \in {TLCEval([ml |-> TLCEval([d \in 1..D |-> TLCEval(Rnd(-7..-2))]), mh |-> TLCEval([d \in 1..D |-> TLCEval(Rnd(2..7))]), sl |-> TLCEval([d \in 1..D |-> TLCEval(Rnd(-7..-4))]), sh |-> TLCEval([d \in 1..D |-> TLCEval(Rnd(-1..3))]), el |-> Rnd(-12..-2),
                                  tol |-> Rat(1, 10), pen |-> Rat(Wt(<<1, 4, 20>>), 10), thr |-> Rat(Wt(<<1, 2, 3>>), 10)])} :
               LET bt == IF beta >= 98 THEN 0 ELSE beta
                   var == cv = "yes" \/ (cv = "none" /\ bt # 0)
                   bad == cg /\ var /\ AnyF(fl)      \* no gradient of the variance
                   badbeta == ~bad /\ bt # 0 /\ cv = "no" /\ FALSE
                   f == SumT(<<Neg("$G"), Neg("$H"), IF bt # 0 /\ var THEN Mul(bt, Sqrt("$var")) ELSE 0, IF pen THEN Loss(D, K, fl, b) ELSE 0>>)
                   defs == Base(c) \o WDef(K) \o LJoint(g, D, K) \o (IF ns = 0 THEN HLb(D, K) ELSE HMc(D, K, ep)) \o <<<<"$F", f>>>>
               IN IF (~AnyF(fl)) \/ (bt # 0 /\ cg /\ ~var) THEN UNCHANGED hist
                  ELSE Push("elbo", [c |-> c, g |-> g, fl |-> fl, beta |-> beta, cg |-> cg, cv |-> cv, ns |-> ns, ep |-> ep, pen |-> pen,
                                     b |-> [b EXCEPT !.tol = E(@), !.pen = E(@), !.thr = E(@)]], defs,
                            IF bad THEN [err |-> "NotImplementedError"]
                            ELSE [F |-> E("$F"), G |-> E("$G"), H |-> E("$H"), var |-> IF var THEN E("$var") ELSE 0,
                                  dF |-> IF cg THEN [g |-> "$F", p |-> Pars(D, K, fl)] ELSE "none", less |-> TRUE])
            /\ UNCHANGED done
\* --- soft bounds follow the data seen so far
BndStep == /\ ~done /\ Mode = "bnd" /\ hist = <<>>
           /\ \E D \in {TLCEval(Rnd(1..3))}, fl \in {TLCEval(Flags0)}, m \in {TLCEval(Rnd(1..5))}, K \in {TLCEval(Rnd(1..4))} :
              \E xs \in {TLCEval([i \in 1..m |-> TLCEval([n \in 1..TLCEval(Rnd(2..4)) |-> TLCEval([d \in 1..D |-> TLCEval(Rnd(-20..20) * 5 + n)])])])}, ks \in {TLCEval([i \in 1..m |-> TLCEval(Rnd(1..4))])}, tl \in {TLCEval(Wt(<<2, 10, 1000000>>))}, tw \in {TLCEval(Wt(<<0, 50, 100, 3>>))} :
                LET mn(i, d) == FoldLeft(LAMBDA r, x : IF x[d] < r THEN x[d] ELSE r, 1000, xs[i]) mx(i, d) == FoldLeft(LAMBDA r, x : IF x[d] > r THEN x[d] ELSE r, -1000, xs[i])
                    MnT(q) == FoldLeft(LAMBDA r, v : IF v < r THEN v ELSE r, q[1], q) MxT(q) == FoldLeft(LAMBDA r, v : IF v > r THEN v ELSE r, q[1], q)
                    lo(i, d) == MnT([j \in 1..i |-> mn(j, d)]) hi(i, d) == MxT([j \in 1..i |-> mx(j, d)])
                    rl(i, d) == MnT([j \in 1..i |-> mx(j, d) - mn(j, d)]) rh(i, d) == MxT([j \in 1..i |-> mx(j, d) - mn(j, d)])
                    tile(i, f(_)) == FlattenSeq([k \in 1..ks[i] |-> [d \in 1..D |-> E(f(d))]])
                    sc == fl.sg \/ fl.la
                    flat == \E i \in 1..m : \E d \in 1..D : mn(i, d) = mx(i, d)
                IN IF flat \/ ~AnyF(fl) THEN UNCHANGED hist
                   ELSE Push("bnd", [D |-> D, K |-> K, fl |-> fl, xs |-> xs, ks |-> ks, tl |-> tl, tw |-> tw], <<>>,
                        [bnds |-> [i \in 1..m |->
                          [lb |-> (IF fl.mu THEN tile(i, LAMBDA d : Rat(lo(i, d), 8)) ELSE <<>>) \o (IF sc THEN tile(i, LAMBDA d : Log(Rat(rl(i, d), 8 * tl))) ELSE <<>>) \o (IF fl.w THEN [k \in 1..ks[i] |-> IF tw = 0 THEN "-inf" ELSE E(Log(Rat(1, 2 * tw)))] ELSE <<>>),
                           ub |-> (IF fl.mu THEN tile(i, LAMBDA d : Rat(hi(i, d), 8)) ELSE <<>>) \o (IF sc THEN tile(i, LAMBDA d : Log(Rat(rh(i, d), 8))) ELSE <<>>) \o (IF fl.w THEN [k \in 1..ks[i] |-> 0] ELSE <<>>),
                           thr |-> IF fl.w THEN (IF tw # 0 /\ tw < 4 * ks[i] THEN E(Rat(1, tw)) ELSE E(Rat(1, 4 * ks[i]))) ELSE "none"]]])
           /\ UNCHANGED done
\* --- what is attached to an optimised posterior, in terms of its parameters (named values)
AttStep == /\ ~done /\ Mode = "attach" /\ Len(hist) < Depth
           /\ \E D \in {TLCEval(Rnd(1..2))}, K0 \in {TLCEval(Rnd(1..3))}, K \in {TLCEval(Rnd(1..3))}, S \in {TLCEval(Rnd(1..2))}, fl \in {TLCEval([Flags0 EXCEPT !.sg = TRUE, !.la = TRUE])}, seed \in {TLCEval(Rnd(1..9999))}, warm \in {TLCEval(Rnd(1..3) = 1)},
                 tw \in {TLCEval(Wt(<<0, 1, 3, 5>>))}, mult \in {TLCEval(Wt(<<0, 1, 100, 1000000000, 1000000000>>))}, mid \in {TLCEval(Rnd(Bl))}, slow \in {TLCEval(Rnd(1..3))} :
              \E c \in {TLCEval(Mix0(D, K0))}, g \in {TLCEval(Gp0(D, S, 4))} :
              LET alt(k) == [defs |-> WDef(k) \o LJoint(g, D, k) \o HLb(D, k),
                             exp |-> [elbo |-> E(Add("$G", "$H")), elbo_sd |-> E(Sqrt("$var")), e_log_joint |-> E("$G"), e_log_joint_sd |-> E(Sqrt("$var")), entropy |-> E("$H"), entropy_sd |-> 0,
                                      I_sk |-> Isk(g, k), J_sjk |-> Jsjk(g, k), var_ss |-> E("$ss")]]
                  \* during warm-up the weights stay fixed: nothing is pruned
                  fw == ~warm /\ fl.w
              IN IF ~AnyF([fl EXCEPT !.w = fw]) \/ K < K0 \/ (K # K0 /\ ~(fl.mu /\ fl.sg)) THEN UNCHANGED hist
                 ELSE Push("attach", [c |-> c, g |-> g, K |-> K, fl |-> fl, seed |-> seed, warm |-> warm, tw |-> tw, mult |-> mult, mid |-> mid, slow |-> slow, alts |-> [k \in 1..K |-> alt(k)]], <<>>,
                           [stats |-> TRUE, stable |-> FALSE, pruned |-> TRUE, keep |-> (~fw) \/ mult = 0, small |-> IF mult = 1000000000 /\ fw THEN "none" ELSE "any", gp |-> TRUE])
           /\ UNCHANGED done
Init == hist = <<>> /\ done = FALSE
Stop == /\ ~done /\ (Len(hist) >= Depth \/ (Mode = "bnd" /\ hist # <<>>)) /\ done' = TRUE /\ UNCHANGED hist
Next == LjStep \/ EntStep \/ ElboStep \/ BndStep \/ AttStep \/ Stop
Spec == Init /\ [][Next]_vars
Emit == done => PrintT(ToJson(hist))
=============================================================================

------------------------------ MODULE Whiten ------------------------------
(* Reparameterisation: the new coordinates whiten the posterior, and the log, the
   search region, the posterior and the surrogate's hyperparameters are expressed in
   them.  In the raw (unrotated, uncentred) unconstrained space all coordinate systems
   are linear images of each other, so everything has a closed form; the eigenvectors
   are determined up to order and sign (the replay matches columns by their scale).
   Rotations mix the first two coordinates; a third one, if any, is independent. *)
EXTENDS Transform, TLC, Json
CONSTANTS Dims, Sim
VARIABLES hist, done
vars == <<hist, done>>
Rnd(S)  == RandomElement(IF done THEN {} ELSE S)
Wt(q)   == q[Rnd(DOMAIN q)]
Qs(S, d) == Q(Rnd(S), d)
N(a)    == "$" \o a
I(i)    == ToString(i)

\* a coordinate; the raw value of x is Raw(c, x)
Coord(white) == LET lb == Rnd({-6, -4}) ub == Rnd({5, 8}) pl == ~white /\ Rnd({TRUE, FALSE})
                IN [t |-> Wt(<<"unb", "unb", "logit">>), lb |-> QI(lb), ub |-> QI(ub), plb |-> Qs({-3, -2, -1}, 2), pub |-> Qs({1, 2, 3}, 1),
                    pl |-> pl]
Rot0 == Wt(<< <<1, 0, 1>>, <<3, 4, 5>>, <<-4, 3, 5>>, <<5, -12, 13>> >>)
Setup ==
  LET D == Rnd(Dims) white == Rnd({TRUE, FALSE})
  IN [D |-> D, white |-> white, cs |-> [i \in 1..D |-> TLCEval(Coord(white))],
      rot |-> IF white THEN Rot0 ELSE <<1, 0, 1>>,
      s0 |-> [i \in 1..D |-> IF white THEN Qs(1..6, 2) ELSE QI(1)],
      w |-> Rnd(1..3), mu |-> [k \in 1..2 |-> [i \in 1..D |-> IF i = 3 THEN QI(0) ELSE Qs(-5..5, 3)]],
      sg |-> [k \in 1..2 |-> Qs({1, 2, 3, 5}, 4)], la |-> [i \in 1..D |-> Qs({2, 3, 5}, 3)],
      thr |-> Wt(<<0, 0, 1, 2, 3>>), reg |-> Wt(<<0, 0, 1, 2>>),
      x |-> [p \in 1..Rnd(2..5) |-> [i \in 1..D |-> Qs(-13..14, 4)]],
      y |-> [p \in 1..5 |-> Qs(-40..40, 4)], act |-> [p \in 1..5 |-> p = 1 \/ Rnd(1..4) > 1],
      cache |-> [p \in 1..Wt(<<0, 0, 2, 3>>) |-> [i \in 1..D |-> Qs(-3..3, 2)]],
      ell |-> [i \in 1..D |-> Qs({1, 2, 5}, 2)], om |-> [i \in 1..D |-> Qs({2, 3, 7}, 2)], xm |-> [i \in 1..D |-> Qs(-3..3, 4)],
      m0 |-> Qs(-9..9, 2), cnt |-> Rnd(0..3), older |-> Rnd({TRUE, FALSE}), iter |-> Rnd(3..9)]

R0(p, i, j) == IF i = 3 \/ j = 3 THEN (IF i = j THEN 1 ELSE 0)
               ELSE LET c == Rat(p.rot[1], p.rot[3]) s == Rat(p.rot[2], p.rot[3])
                    IN IF i = j THEN c ELSE IF i = 1 THEN Neg(s) ELSE s
Dl(p, i)    == N("dl" \o I(i))
\* mixture moments in the old coordinates, then the covariance in the raw space
W1(p) == Rat(p.w, 4)
W2(p) == Rat(4 - p.w, 4)
CovU(p, i, j) ==
  Add(IF i = j THEN Mul(Sqr(QT(p.la[i])), Add(Mul(W1(p), Sqr(QT(p.sg[1]))), Mul(W2(p), Sqr(QT(p.sg[2]))))) ELSE 0,
      Mul(Mul(W1(p), W2(p)), Mul(Sub(QT(p.mu[1][i]), QT(p.mu[2][i])), Sub(QT(p.mu[1][j]), QT(p.mu[2][j])))))
CovT(p, i, j) ==
  SumT([a \in 1..p.D |-> SumT([b \in 1..p.D |->
     ProdT(<<Dl(p, i), R0(p, i, a), QT(p.s0[a]), N("cu" \o I(a) \o I(b)), QT(p.s0[b]), R0(p, j, b), Dl(p, j)>>)])])
\* small correlations are dropped, the rest is shrunk
CovR(p) == LET c == N("c12") keep == IF p.thr = 0 THEN c
                 ELSE <<"if>=", Mul(Sqr(Rat(p.thr, 5)), Mul(N("c11"), N("c22"))), Sqr(c), 0, c>>
           IN Mul(keep, Sub(1, Rat(p.reg, 4)))
Disc == Sqrt(Add(Sqr(Sub(N("c11"), N("c22"))), Mul(4, Sqr(N("b")))))
\* unit eigenvector (x, y) of the larger eigenvalue
VX == <<"if>=", Abs(N("b")), Rat(1, 1000000000), Div(Sub(N("l1"), N("c22")), N("nv")), <<"if>=", N("c11"), N("c22"), 1, 0>>>>
VY == <<"if>=", Abs(N("b")), Rat(1, 1000000000), Div(N("b"), N("nv")), <<"if>=", N("c11"), N("c22"), 0, 1>>>>
Rn(i, j) == IF i = 3 \/ j = 3 THEN (IF i = j THEN 1 ELSE 0)
            ELSE CASE i = 1 /\ j = 1 -> N("vx") [] i = 2 /\ j = 1 -> N("vy")
                   [] i = 1 /\ j = 2 -> Neg(N("vy")) [] i = 2 /\ j = 2 -> N("vx")
Sn(j) == N("s" \o I(j))
\* old -> new coordinates is linear: row d, column j
A(p, d, j) == N("a" \o I(d) \o I(j))
ADef(p, d, j) == Div(SumT([i \in 1..p.D |-> ProdT(<<QT(p.s0[d]), R0(p, i, d), Dl(p, i), Rn(i, j)>>)]), Sn(j))
Defs(p) ==
  LET D == p.D
      two == <<1, 2>>
      dd == [k \in 1..D * D |-> <<((k - 1) \div D) + 1, ((k - 1) % D) + 1>>]
  IN [i \in 1..D |-> <<Dl(p, i), Delta(p.cs[i])>>] \o [i \in 1..D |-> <<N("mu" \o I(i)), Mu(p.cs[i])>>]
     \o [k \in 1..D * D |-> <<N("cu" \o I(dd[k][1]) \o I(dd[k][2])), CovU(p, dd[k][1], dd[k][2])>>]
     \o <<<<N("c11"), CovT(p, 1, 1)>>, <<N("c12"), CovT(p, 1, 2)>>, <<N("c22"), CovT(p, 2, 2)>>, <<N("b"), CovR(p)>>,
          <<N("l1"), Half(Add(Add(N("c11"), N("c22")), Disc))>>, <<N("l2"), Half(Sub(Add(N("c11"), N("c22")), Disc))>>,
          <<N("nv"), Sqrt(Add(Sqr(Sub(N("l1"), N("c22"))), Sqr(N("b"))))>>,
          <<N("vx"), VX>>, <<N("vy"), VY>>, <<N("s1"), Sqrt(N("l1"))>>, <<N("s2"), Sqrt(N("l2"))>>>>
     \o (IF D = 3 THEN <<<<N("s3"), Sqrt(CovT(p, 3, 3))>>>> ELSE <<>>)
     \o [k \in 1..D * D |-> <<A(p, dd[k][1], dd[k][2]), ADef(p, dd[k][1], dd[k][2])>>]
     \o <<<<N("sh"), SumT([j \in 1..D |-> Sub(Log(Sn(j)), Add(Log(QT(p.s0[j])), Log(Dl(p, j))))])>>>>
NewX(p, x) == [j \in 1..p.D |-> E(Div(SumT([i \in 1..p.D |-> Mul(Raw(p.cs[i], x[i]), Rn(i, j))]), Sn(j)))]
\* a point in old coordinates: raw_i = mu_i + delta_i * sum_d R0[i, d] s0_d u_d
RawOf(p, u, i) == Add(N("mu" \o I(i)), Mul(Dl(p, i), SumT([d \in 1..p.D |-> ProdT(<<R0(p, i, d), QT(p.s0[d]), QT(u[d])>>)])))
MapU(p, u) == [j \in 1..p.D |-> E(Div(SumT([i \in 1..p.D |-> Mul(RawOf(p, u, i), Rn(i, j))]), Sn(j)))]
\* widths transform as the root of the sum of squares (unscented transform of a linear map)
Wid(p, q, f) == [j \in 1..p.D |-> Sqrt(SumT([d \in 1..p.D |-> Sqr(Mul(Mul(f, QT(q[d])), A(p, d, j)))]))]
SL(k, j) == N("sl" \o I(k) \o I(j))
Defs2(p) == LET D == p.D IN
  [k \in 1..2 * D |-> LET c == ((k - 1) \div D) + 1 j == ((k - 1) % D) + 1 IN <<SL(c, j), Wid(p, p.la, QT(p.sg[c]))[j]>>]
  \o [k \in 1..2 |-> <<N("n" \o I(k)), SumT([j \in 1..D |-> Sqr(SL(k, j))])>>]
  \o [j \in 1..D |-> <<N("lw" \o I(j)), Sqrt(Mul(D, Half(Add(Div(Sqr(SL(1, j)), N("n1")), Div(Sqr(SL(2, j)), N("n2"))))))>>]
\* the log may use newer coordinates than the posterior that is whitened (here: the raw ones)
Older(p) == p.white /\ p.older
MapL(p, u) == IF Older(p) THEN [j \in 1..p.D |-> E(Div(SumT([i \in 1..p.D |-> Mul(QT(u[i]), Rn(i, j))]), Sn(j)))] ELSE MapU(p, u)
NewCs(p) == [i \in 1..p.D |-> [p.cs[i] EXCEPT !.pl = FALSE]]
\* coinciding scales leave the columns undetermined: the replay skips those
Choose == /\ ~done /\ hist = <<>>
          /\ \E p \in {TLCEval(Setup)} :
             LET D == p.D n == Len(p.x) IN
             /\ (\A a, b \in DOMAIN p.x : a # b => p.x[a] # p.x[b])
             /\ hist' = <<
              [op |-> "setup", p |-> p, defs |-> Defs(p),
               exp |-> [old |-> [q \in 1..n |-> [j \in 1..D |-> IF Older(p) THEN E(Raw(p.cs[j], p.x[q][j])) ELSE E(Div(SumT([i \in 1..D |->
                                   Mul(Div(Sub(Raw(p.cs[i], p.x[q][i]), N("mu" \o I(i))), Dl(p, i)), R0(p, i, j))]), QT(p.s0[j])))]]]],
              [op |-> "warp", scales |-> [j \in 1..D |-> E(Sn(j))], R |-> [i \in 1..D |-> [j \in 1..D |-> E(Rn(i, j))]],
               exp |-> [scales |-> [j \in 1..D |-> E(Sn(j))], R |-> [i \in 1..D |-> [j \in 1..D |-> E(Rn(i, j))]], proper |-> TRUE,
                        zero |-> TRUE,
                        X |-> [q \in 1..n |-> IF p.act[q] THEN NewX(p, p.x[q]) ELSE "any"],
                        y |-> [q \in 1..n |-> IF p.act[q] THEN E(Add(QT(p.y[q]), LogJac(NewCs(p), <<>>, [j \in 1..D |-> Sn(j)], p.x[q]))) ELSE "any"],
                        orig |-> TRUE, cache |-> [q \in DOMAIN p.cache |-> MapL(p, p.cache[q])], box |-> TRUE, plaus |-> TRUE,
                        state |-> [recompute |-> TRUE, skip |-> TRUE, count |-> p.cnt + 1, last |-> p.iter, lastok |-> p.iter],
                        action |-> "rotoscale"]],
              [op |-> "posterior", defs |-> Defs2(p),
               exp |-> [K |-> 2, mu |-> [k \in 1..2 |-> MapU(p, p.mu[k])], w |-> <<E(W1(p)), E(W2(p))>>,
                        lambda |-> [j \in 1..D |-> E(N("lw" \o I(j)))],
                        sigma |-> [k \in 1..2 |-> E(Exp(Div(SumT([j \in 1..D |-> Log(Div(SL(k, j), N("lw" \o I(j))))]), D)))],
                        ell |-> [j \in 1..D |-> E(Log(Wid(p, p.ell, 1)[j]))], om |-> [j \in 1..D |-> E(Log(Wid(p, p.om, 1)[j]))],
                        xm |-> MapU(p, p.xm), m0 |-> E(Add(QT(p.m0), N("sh"))), rest |-> TRUE, coords |-> TRUE]]>>
          /\ done' = TRUE
Init == hist = <<>> /\ done = FALSE
Next == Choose
Spec == Init /\ [][Next]_vars
Emit == done => PrintT(ToJson(hist))
=============================================================================

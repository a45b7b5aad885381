------------------------------- MODULE Priors -------------------------------
(* Prior distributions: a prior is built (or rejected), then its density is asked
   at batches of points in several shapes, its support read and samples drawn.
   Positions are counted in half-units of a per-coordinate scale s, so that kinks
   and bounds are hit exactly; densities are exact terms, the distribution
   functions of the polynomial families exact rationals. *)
EXTENDS Term, TLC, Json, FiniteSets
CONSTANTS Depth, Sim
VARIABLES p, hist, done
vars == <<p, hist, done>>
Rnd(S)  == RandomElement(IF done THEN {} ELSE S)
Wt(q)   == q[Rnd(DOMAIN q)]
Scales  == <<Q(1, 1000), Q(1, 8), QI(1), QI(1), QI(2), QI(40), QI(10000)>>

(* ---- one coordinate: family k, kinks a < u < v < b (half-units), width w, scale s *)
Ours    == <<"uniform", "trap", "spline", "smooth">>
Scipys  == <<"norm", "expon", "beta", "cauchy", "sunif", "gamma">>
Coord(k, s) == LET a == Rnd(-30..20) du == Rnd(1..8) dv == Rnd(1..8) db == Rnd(1..8)
            IN [k |-> k, s |-> s, a |-> a, u |-> a + du, v |-> a + du + dv, b |-> a + du + dv + db, w |-> Rnd(1..9)]
\* twice the normalisation constant of the trapezoids
N2(m)   == (m.b - m.a) + (m.v - m.u)
\* density at h (in half-units) as a term, per half-unit
Trap(m, h)   == IF h <= m.a \/ h >= m.b THEN QI(0)
                ELSE IF h < m.u THEN Q(2 * (h - m.a), (m.u - m.a) * N2(m))
                ELSE IF h <= m.v THEN Q(2, N2(m))
                ELSE Q(2 * (m.b - h), (m.b - m.v) * N2(m))
Cub(z)       == QMul(QMul(z, z), QSub(QI(3), QMul(QI(2), z)))
Spline(m, h) == IF h <= m.a \/ h >= m.b THEN QI(0)
                ELSE IF h < m.u THEN QMul(Cub(Q(h - m.a, m.u - m.a)), Q(2, N2(m)))
                ELSE IF h <= m.v THEN Q(2, N2(m))
                ELSE QMul(Cub(Q(m.b - h, m.b - m.v)), Q(2, N2(m)))
Unif(m, h)   == IF h < m.a \/ h > m.b THEN QI(0) ELSE Q(1, m.b - m.a)
SN(m)        == Add(Mul(Sqrt(Mul(2, "pi")), m.w), m.b - m.a)      \* smooth box normalisation
Ln(q)        == IF q.n = 0 THEN "-inf" ELSE Log(QT(q))
Z(m, h)      == Rat(h - m.a, m.w)
LogUnit(m, h) ==
  CASE m.k = "uniform" -> Ln(Unif(m, h))
    [] m.k = "sunif"   -> Ln(Unif(m, h))
    [] m.k = "trap"    -> Ln(Trap(m, h))
    [] m.k = "spline"  -> Ln(Spline(m, h))
    [] m.k = "smooth"  -> LET d == IF h < m.a THEN m.a - h ELSE IF h > m.b THEN h - m.b ELSE 0
                          IN Sub(Neg(Half(Sqr(Rat(d, m.w)))), Log(SN(m)))
    [] m.k = "norm"    -> Sub(LogPhi(Z(m, h)), Log(m.w))
    [] m.k = "expon"   -> IF h < m.a THEN "-inf" ELSE Sub(Neg(Z(m, h)), Log(m.w))
    [] m.k = "gamma"   -> IF h <= m.a THEN "-inf" ELSE Sub(Sub(Mul(2, Log(Z(m, h))), Z(m, h)), Log(2 * m.w))   \* shape 3
    [] m.k = "beta"    -> IF h <= m.a \/ h >= m.b THEN "-inf"                                                   \* Beta(2, 3)
                          ELSE Log(QT(QMul(Q(12 * (h - m.a), m.b - m.a), QMul(Q(m.b - h, m.b - m.a), Q(m.b - h, (m.b - m.a) * (m.b - m.a))))))
    [] m.k = "cauchy"  -> Neg(Log(Mul(Mul("pi", m.w), Add(1, Sqr(Z(m, h))))))
\* per unit of x = s * h / 2
LogDen(m, h) == Sub(LogUnit(m, h), Log(QT(QMul(m.s, Q(1, 2)))))
X(m, h)      == QMul(m.s, Q(h, 2))
Lo(m)  == IF m.k \in {"smooth", "norm", "cauchy"} THEN "-inf" ELSE E(QT(X(m, m.a)))
Hi(m)  == IF m.k \in {"smooth", "norm", "cauchy", "expon", "gamma"} THEN "inf" ELSE E(QT(X(m, m.b)))
(* ---- distribution functions *)
UCdf(m, h) == IF h <= m.a THEN QI(0) ELSE IF h >= m.b THEN QI(1) ELSE Q(h - m.a, m.b - m.a)
TCdf(m, h) == IF h <= m.a THEN QI(0) ELSE IF h >= m.b THEN QI(1)
              ELSE IF h < m.u THEN Q((h - m.a) * (h - m.a), (m.u - m.a) * N2(m))
              ELSE IF h <= m.v THEN Q((m.u - m.a) + 2 * (h - m.u), N2(m))
              ELSE QSub(QI(1), Q((m.b - h) * (m.b - h), (m.b - m.v) * N2(m)))
Cub1(z)    == QMul(QMul(z, QMul(z, z)), QSub(QI(1), QMul(z, Q(1, 2))))     \* integral of Cub
SCdf(m, h) == IF h <= m.a THEN QI(0) ELSE IF h >= m.b THEN QI(1)
              ELSE IF h < m.u THEN QMul(Cub1(Q(h - m.a, m.u - m.a)), Q(2 * (m.u - m.a), N2(m)))
              ELSE IF h <= m.v THEN Q((m.u - m.a) + 2 * (h - m.u), N2(m))
              ELSE QSub(QI(1), QMul(Cub1(Q(m.b - h, m.b - m.v)), Q(2 * (m.b - m.v), N2(m))))
Phi(z)     == <<"cdf", z>>
Cdf(m, h)  == CASE m.k = "uniform" -> QT(UCdf(m, h))
                [] m.k = "sunif"   -> QT(UCdf(m, h))
                [] m.k = "trap"    -> QT(TCdf(m, h))
                [] m.k = "spline"  -> QT(SCdf(m, h))
                [] m.k = "smooth"  -> LET t(d) == Div(Mul(Mul(Sqrt(Mul(2, "pi")), m.w), Phi(Rat(d, m.w))), SN(m))
                                      IN IF h < m.a THEN t(h - m.a) ELSE IF h > m.b THEN Sub(1, t(m.b - h))
                                         ELSE Add(t(0), Div(h - m.a, SN(m)))
                [] m.k = "norm"    -> Phi(Z(m, h))
                [] m.k = "expon"   -> IF h <= m.a THEN 0 ELSE Sub(1, Exp(Neg(Z(m, h))))
                [] OTHER           -> "nan"

(* ---- whole priors *)
\* matrix-valued families (two coordinates, covariance w1, w2, correlation r/5)
MvLog(q, h) == LET m1 == q.cs[1] m2 == q.cs[2] z1 == Z(m1, h[1]) z2 == Z(m2, h[2])
                   r == Rat(q.r, 5) d == Rat(25 - q.r * q.r, 25)
                   quad == Div(Sub(Add(Sqr(z1), Sqr(z2)), Mul(2, Mul(r, Mul(z1, z2)))), d)
                   ls == Add(Log(Mul(m1.w, m2.w)), Half(Log(d)))
                   js == Add(Log(QT(QMul(m1.s, Q(1, 2)))), Log(QT(QMul(m2.s, Q(1, 2)))))
               IN Sub(IF q.cl = "mvn" THEN Sub(Sub(Neg(Half(quad)), Log2Pi), ls)
                      ELSE Sub(Sub(Mul(-2, Log(Add(1, Half(quad)))), Log2Pi), ls), js)
LogP(q, h) == IF q.cl \in {"mvn", "mvt"} THEN MvLog(q, h) ELSE SumT([i \in 1..q.D |-> LogDen(q.cs[i], h[i])])

Classes == <<"uniform", "trap", "spline", "smooth", "uniform", "trap", "spline", "smooth", "product", "product", "product", "scipy", "mvn", "mvt">>
\* how the parameters are handed over
Forms(cl) == IF cl \in {"uniform", "trap", "spline", "smooth"} THEN {"array", "list", "row", "scalarD", "mixed", "int"} ELSE {"plain"}
Setup ==
  LET cl == Wt(Classes)
      f  == Rnd(Forms(cl))
      D  == IF cl \in {"mvn", "mvt"} THEN 2 ELSE IF cl = "scipy" THEN 1 ELSE Rnd(1..3)
      c0 == Coord(cl, Wt(Scales))
      c1(i) == IF f = "scalarD" THEN c0
               ELSE IF cl \in {"mvn", "mvt"} THEN Coord(cl, c0.s)
               ELSE IF f = "int" THEN [Coord(cl, QI(2)) EXCEPT !.s = QI(2)]
               ELSE IF cl = "product" THEN Coord(Wt(Ours \o Scipys), Wt(Scales))
               ELSE IF cl = "scipy" THEN Coord(Wt(Scipys), Wt(Scales))
               ELSE Coord(cl, Wt(Scales))
  IN [D |-> D, cl |-> cl, f |-> f, cs |-> [i \in 1..D |-> TLCEval(c1(i))], r |-> Rnd(-4..4)]
Num(m, h) == E(QT(X(m, h)))
Par(m) == [k |-> m.k, a |-> Num(m, m.a), u |-> Num(m, m.u), v |-> Num(m, m.v), b |-> Num(m, m.b), w |-> Num(m, m.w)]

Init == p = [D |-> 0] /\ hist = <<>> /\ done = FALSE
Make == /\ ~done /\ p.D = 0
        /\ \E q \in {TLCEval(Setup)} :
             /\ p' = q
             /\ hist' = <<[op |-> "make", D |-> q.D, cl |-> q.cl, f |-> q.f, r |-> q.r, ps |-> [i \in 1..q.D |-> Par(q.cs[i])],
                           exp |-> [D |-> q.D, lo |-> [i \in 1..q.D |-> IF q.cl \in {"mvn", "mvt"} THEN "-inf" ELSE Lo(q.cs[i])],
                                    hi |-> [i \in 1..q.D |-> IF q.cl \in {"mvn", "mvt"} THEN "inf" ELSE Hi(q.cs[i])]]]>>
        /\ UNCHANGED done
\* inconsistent parameters are rejected and build nothing
Bads == <<"order", "equal", "size", "tuple", "dim", "type", "width", "last">>
Reject == /\ ~done /\ Len(hist) < Depth /\ p.D > 0
          /\ \E i \in {TLCEval(Rnd(1..p.D))}, b \in {TLCEval(Wt(Bads))}, z \in {TLCEval(Wt(<<"zero", "neg">>))} :
               /\ \/ b \in {"order", "equal", "last"} /\ p.cl \in {"uniform", "trap", "spline", "smooth"} /\ p.f # "scalarD"
                  \/ b = "size" /\ p.cl \in {"uniform", "trap", "spline", "smooth"} /\ p.D > 1
                  \/ b \in {"tuple", "dim", "type"} /\ p.cl = "product"
                  \/ b = "type" /\ p.cl = "scipy"
                  \/ b = "width" /\ p.cl = "smooth" /\ p.f # "scalarD"
               /\ hist' = Append(hist, [op |-> "reject", i |-> i, how |-> b, z |-> z,
                                        exp |-> [raised |-> IF b \in {"tuple", "type"} THEN "TypeError" ELSE "ValueError"]])
          /\ UNCHANGED <<p, done>>
\* a point: kinks, bounds, between, and outside
Spot(m) == Wt(<<m.a, m.u, m.v, m.b, m.a - 1, m.b + 1, m.a + 1, m.b - 1, m.u - 1, m.u + 1, m.v - 1, m.v + 1, (m.a + m.b) \div 2,
                Rnd(m.a..m.b), Rnd(m.a..m.b), Rnd(m.a..m.b), Rnd((m.a - 12)..(m.b + 12)), m.a - 1000, m.b + 1000>>)
Vals(q, hs) == [k \in DOMAIN hs |-> E(LogP(q, hs[k]))]
Ask == /\ ~done /\ p.D > 0 /\ Len(hist) < Depth
       /\ \E n \in {TLCEval(Rnd(1..5))}, sh \in {TLCEval(Wt(<<"2d", "2d", "1d", "int", "fortran", "column">>))}, kd \in {TLCEval(Wt(<<"default", "true", "false">>))},
             fn \in {TLCEval(Wt(<<"log_pdf", "log_pdf", "pdf">>))} :
          \* a flat vector is one point, or a batch in one dimension; a column is a batch in one dimension
          LET nn == IF sh = "1d" /\ p.D > 1 THEN 1 ELSE n IN
          \E hs \in {TLCEval([k \in 1..nn |-> [i \in 1..p.D |-> Spot(p.cs[i])]])} :
            hist' = Append(hist, [op |-> "ask", sh |-> sh, kd |-> kd, fn |-> fn,
                                  xs |-> [k \in DOMAIN hs |-> [i \in 1..p.D |-> Num(p.cs[i], hs[k][i])]],
                                  exp |-> [v |-> IF fn = "log_pdf" THEN Vals(p, hs) ELSE [k \in DOMAIN hs |-> E(Exp(LogP(p, hs[k])))],
                                           shape |-> IF kd = "false" THEN <<nn>> ELSE <<nn, 1>>, args |-> TRUE]])
       /\ UNCHANGED <<p, done>>
WrongDim == /\ ~done /\ p.D > 1 /\ Len(hist) < Depth
            /\ \E d \in {TLCEval(Rnd({1, 2, 3, 4} \ {p.D}))}, n \in {TLCEval(Rnd(2..3))}, sh \in {TLCEval(Wt(<<"2d", "1d">>))} :
                 hist' = Append(hist, [op |-> "wrongdim", d |-> d, n |-> n, sh |-> sh, exp |-> [raised |-> "ValueError"]])
            /\ UNCHANGED <<p, done>>
Ticks(m) == <<m.a, m.u, m.v, m.b, m.a + 1, m.b - 1, (m.a + m.u) \div 2, (m.v + m.b) \div 2, (m.u + m.v) \div 2, m.a - m.w, m.b + m.w>>
Draw == /\ ~done /\ p.D > 0 /\ Len(hist) < Depth
        /\ \E n \in {TLCEval(Wt(<<1, 2, 7, 4000, 4000, 4000>>))}, sd \in {TLCEval(Rnd(1..1000000))} :
             hist' = Append(hist, [op |-> "draw", n |-> n, seed |-> sd,
                                   ticks |-> [i \in 1..p.D |-> [t \in 1..11 |-> Num(p.cs[i], Ticks(p.cs[i])[t])]],
                                   exp |-> [shape |-> <<n, p.D>>, inside |-> TRUE, positive |-> TRUE, indep |-> TRUE,
                                            cdf |-> [i \in 1..p.D |-> [t \in 1..11 |->
                                                      IF p.cl = "mvt" THEN "nan" ELSE IF p.cl = "mvn" THEN E(Phi(Z(p.cs[i], Ticks(p.cs[i])[t])))
                                                      ELSE E(Cdf(p.cs[i], Ticks(p.cs[i])[t]))]]]])
        /\ UNCHANGED <<p, done>>
End == ~done /\ Len(hist) = Depth /\ done' = TRUE /\ UNCHANGED <<p, hist>>
Next == Make \/ Ask \/ Ask \/ Ask \/ Draw \/ Reject \/ WrongDim \/ End
Spec == Init /\ [][Next]_vars
Emit == done => PrintT(ToJson(hist))
(* The polynomial families are normalised, continuous at their kinks and their
   distribution functions increase: checked for every coordinate met. *)
Good(m) == LET F(h) == IF m.k = "uniform" THEN UCdf(m, h) ELSE IF m.k = "trap" THEN TCdf(m, h) ELSE SCdf(m, h)
               G(h) == IF m.k = "uniform" THEN Unif(m, h) ELSE IF m.k = "trap" THEN Trap(m, h) ELSE Spline(m, h)
           IN m.k \in {"uniform", "trap", "spline"} =>
              /\ F(m.a) = QI(0) /\ F(m.b) = QI(1)
              /\ \A h \in m.a..(m.b - 1) : QLt(F(h), F(h + 1))
              /\ \A h \in (m.a - 1)..(m.b + 1) : QLe(QI(0), G(h))
              \* Simpson's rule is exact for cubics: the density integrates to the distribution function on every pair of cells inside a piece
              /\ \A h \in m.a..(m.b - 2) : (\A k \in {m.u, m.v} : ~(h < k /\ k < h + 2)) =>
                   QSub(F(h + 2), F(h)) = QMul(QAdd(QAdd(G(h), QMul(QI(4), G(h + 1))), G(h + 2)), Q(1, 3))
              /\ m.k # "uniform" => (G(m.a) = QI(0) /\ G(m.b) = QI(0))
Normal == p.D > 0 /\ p.cl \notin {"mvn", "mvt"} => \A i \in 1..p.D : Good(p.cs[i])
=============================================================================

----------------------------- MODULE Transform -----------------------------
(* The coordinate maps between a (partly) bounded space and the unconstrained
   space, as terms.  A coordinate is a record
     [t |-> "unb" | "logit" | "probit" | "student4", lb, ub, plb, pub]
   with rational bounds ([n, d]); pl = FALSE when no plausible range is given. *)
EXTENDS Term

Unit(c, x)   == QDiv(QSub(x, c.lb), QSub(c.ub, c.lb))
\* the standard map of the unit interval onto the line, and log |inverse'|
Link(t, z)   == CASE t = "logit"    -> Log(Div(QT(z), Sub(1, QT(z))))
                  [] t = "probit"   -> <<"ppf", QT(z)>>
                  [] t = "student4" -> <<"tppf4", QT(z)>>
Raw(c, x)    == IF c.t = "unb" THEN QT(x) ELSE Link(c.t, Unit(c, x))
Mu(c)        == IF c.pl THEN Half(Add(Raw(c, c.plb), Raw(c, c.pub))) ELSE 0
Delta(c)     == IF c.pl THEN Sub(Raw(c, c.pub), Raw(c, c.plb)) ELSE 1
Centre(c, x) == Div(Sub(Raw(c, x), Mu(c)), Delta(c))
\* log of d(original)/d(unconstrained) for one coordinate, at the original point x
LogDer(c, x) ==
  LET y == Raw(c, x)
      w == Log(QT(QSub(c.ub, c.lb)))
  IN CASE c.t = "unb"      -> Log(Delta(c))
       [] c.t = "logit"    -> SumT(<<w, Log(QT(Unit(c, x))), Log(Sub(1, QT(Unit(c, x)))), Log(Delta(c))>>)
       [] c.t = "probit"   -> SumT(<<w, LogPhi(y), Log(Delta(c))>>)
       [] c.t = "student4" -> SumT(<<w, Log(Rat(3, 8)),
                                    Mul(Rat(-5, 2), Log(Add(1, Div(Sqr(y), 4)))), Log(Delta(c))>>)
\* the whole map: R is a rotation (rows of terms) or <<>>, S scales or <<>>
ToU(cs, R, S, x) ==
  LET D  == Len(cs)
      v  == [i \in 1..D |-> Centre(cs[i], x[i])]
      rv == IF R = <<>> THEN v ELSE [j \in 1..D |-> SumT([i \in 1..D |-> Mul(v[i], R[i][j])])]
  IN IF S = <<>> THEN rv ELSE [j \in 1..D |-> Div(rv[j], S[j])]
LogJac(cs, R, S, x) ==
  LET D == Len(cs)
      a == [i \in 1..D |-> LogDer(cs[i], x[i])]
      b == IF S = <<>> THEN <<>> ELSE [i \in 1..D |-> Log(S[i])]
  IN SumT(a \o b)
=============================================================================

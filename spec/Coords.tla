------------------------------- MODULE Coords -------------------------------
(* Coordinate transforms: a transformer is built, points are mapped to the
   unconstrained space and back in batches, and transformers are compared. *)
EXTENDS Transform, TLC, Json
CONSTANTS Depth, Sim
VARIABLES p, hist, done
vars == <<p, hist, done>>
Rnd(S)  == RandomElement(IF done THEN {} ELSE S)
Wt(q)   == q[Rnd(DOMAIN q)]
Scales  == <<Q(1, 1000), Q(1, 8), QI(1), QI(1), QI(3), QI(40), QI(100000)>>

\* lb = o * s, ub = (o + 16) * s, plausible range inside in sixteenths
Coord(ty, pl) ==
  LET s == Wt(Scales) o == Rnd(-20..6) a == Rnd(1..7) b == Rnd(9..15) un == Rnd({TRUE, FALSE, FALSE})
      at(k) == QMul(s, QI(o + k))
  IN [t |-> IF un THEN "unb" ELSE ty, s |-> s, o |-> o, lb |-> at(0), ub |-> at(16), plb |-> at(a), pub |-> at(b), pl |-> pl /\ Rnd(1..6) > 1]
Rot0 == Wt(<< <<3, 4, 5>>, <<-4, 3, 5>>, <<5, -12, 13>>, <<-8, -15, 17>> >>)
Setup ==
  LET D == Rnd(1..3) ty == Wt(<<"logit", "probit", "student4">>) pl == Rnd({TRUE, TRUE, FALSE}) rt == D > 1 /\ Rnd({TRUE, FALSE})
  IN [D |-> D, ty |-> ty, alias |-> Rnd({TRUE, FALSE}), cs |-> [i \in 1..D |-> TLCEval(Coord(ty, pl))], pl |-> pl, rt |-> rt,
      rot |-> Rot0, sc |-> Rnd(1..3) = 1, S |-> [i \in 1..D |-> Q(TLCEval(Rnd(1..9)), 4)], late |-> Rnd({TRUE, FALSE})]
R(q)  == IF ~q.rt THEN <<>>
         ELSE LET c == Rat(q.rot[1], q.rot[3]) s == Rat(q.rot[2], q.rot[3])
              IN [i \in 1..q.D |-> [j \in 1..q.D |-> IF i = 3 \/ j = 3 THEN (IF i = j THEN 1 ELSE 0)
                                                    ELSE IF i = j THEN c ELSE IF i = 1 THEN Neg(s) ELSE s]]
S(q)  == IF q.sc THEN [i \in 1..q.D |-> QT(q.S[i])] ELSE <<>>
\* a point of the original space in 64ths of the interval (edges only without a rotation); unbounded coordinates go beyond
Point(q, edge) == [i \in 1..q.D |-> LET c == q.cs[i] k == Rnd(1..63) e == Rnd(1..5)
                                    IN IF c.t = "unb" THEN QMul(c.s, Q(c.o * 4 + 2 * k - 32, 4))
                                       ELSE IF edge /\ ~q.rt /\ e = 1 THEN c.lb ELSE IF edge /\ ~q.rt /\ e = 2 THEN c.ub
                                       ELSE QMul(c.s, Q(4 * c.o + k, 4))]
OnEdge(q, x) == \E i \in 1..q.D : q.cs[i].t # "unb" /\ (x[i] = q.cs[i].lb \/ x[i] = q.cs[i].ub)
Us(q, x) == [i \in 1..q.D |-> E(ToU(q.cs, R(q), S(q), x)[i])]
Xs(x)    == [i \in DOMAIN x |-> E(QT(x[i]))]

Init == p = [D |-> 0] /\ hist = <<>> /\ done = FALSE
Make == /\ ~done /\ p.D = 0
        /\ \E q \in {TLCEval(Setup)} :
             /\ p' = q
             /\ hist' = <<[op |-> "make", p |-> q, Rm |-> R(q), Sv |-> S(q),
                           exp |-> [box |-> [i \in 1..q.D |-> IF q.cs[i].pl /\ ~q.rt THEN (IF q.sc THEN <<E(Div(Rat(-1, 2), QT(q.S[i]))), E(Div(Rat(1, 2), QT(q.S[i])))>>
                                                                                                    ELSE <<E(Rat(-1, 2)), E(Rat(1, 2))>>)
                                                                                                ELSE <<0, 0>>],
                                    args |-> TRUE]]>>
        /\ UNCHANGED done
Map == /\ ~done /\ p.D > 0 /\ Len(hist) < Depth
       /\ \E n \in {TLCEval(Rnd(1..4))}, sh \in {TLCEval(Wt(<<"2d", "1d", "list", "kw", "int">>))} :
          \E xs \in {TLCEval([k \in 1..(IF sh \in {"1d", "list"} THEN 1 ELSE n) |-> Point(p, TRUE)])} :
            hist' = Append(hist, [op |-> "map", sh |-> sh, xs |-> [k \in DOMAIN xs |-> Xs(xs[k])],
                                  exp |-> [u |-> [k \in DOMAIN xs |-> Us(p, xs[k])],
                                           x |-> [k \in DOMAIN xs |-> Xs(xs[k])],
                                           jac |-> [k \in DOMAIN xs |-> IF OnEdge(p, xs[k]) THEN [v |-> "any"] ELSE [v |-> E(LogJac(p.cs, R(p), S(p), xs[k]))]],
                                           inside |-> TRUE, args |-> TRUE,
                                           shapes |-> IF sh \in {"1d", "list"} THEN <<<<p.D>>, <<p.D>>, <<>>>>
                                                      ELSE <<<<Len(xs), p.D>>, <<Len(xs), p.D>>, <<Len(xs)>>>>]])
       /\ UNCHANGED <<p, done>>
\* far out in the unconstrained space: the original point is still strictly inside
Far == /\ ~done /\ p.D > 0 /\ Len(hist) < Depth
       /\ \E u \in {TLCEval([i \in 1..p.D |-> Wt(<<-3, -2, -1, 0, 1, 2, 3>>)])}, m \in {TLCEval(Wt(<<1, 30, 700, 100000>>))} :
            hist' = Append(hist, [op |-> "far", u |-> [i \in 1..p.D |-> u[i] * m], exp |-> [inside |-> TRUE, finite |-> TRUE, args |-> TRUE]])
       /\ UNCHANGED <<p, done>>
\* transformers that differ in one parameter are different
Variants == <<"same", "copy", "lb", "ub", "plb", "type", "scale", "rot", "mu", "delta">>
Compare == /\ ~done /\ p.D > 0 /\ Len(hist) < Depth
           /\ hist' = Append(hist, [op |-> "compare", kinds |-> Variants,
                                    exp |-> [eq |-> [k \in DOMAIN Variants |-> Variants[k] \in {"same", "copy"}]]])
           /\ UNCHANGED <<p, done>>
End == ~done /\ Len(hist) = Depth /\ done' = TRUE /\ UNCHANGED <<p, hist>>
Next == Make \/ Map \/ Map \/ Far \/ Compare \/ End
Spec == Init /\ [][Next]_vars
Emit == done => PrintT(ToJson(hist))
=============================================================================

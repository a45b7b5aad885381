------------------------------- MODULE Bounds -------------------------------
(* Which starting points and bounds are accepted, and what they become.
   A coordinate has hard bounds, plausible bounds (or none), and one value per
   starting point; numbers are rationals or infinities [n, d] with d = 0. *)
EXTENDS Term, FiniteSets, TLC, Json, SequencesExt
CONSTANTS Mode
VARIABLES hist, done
vars == <<hist, done>>
Rnd(S) == RandomElement(IF done THEN {} ELSE S)
Wt(q)  == q[Rnd(DOMAIN q)]
\* numbers of a coordinate are integers, in units of 1/24 of its scale 2^-s
Inf == 1000000000
NInf == -1000000000
None == 2000000000      \* not given
Fin(a) == a \notin {Inf, NInf, None}
XMax(a, b) == IF a <= b THEN b ELSE a
XMin(a, b) == IF a <= b THEN a ELSE b
SMax(q) == FoldLeft(XMax, q[1], q)
SMin(q) == FoldLeft(XMin, q[1], q)
X(a, s) == IF Fin(a) THEN E(Div(Rat(a, 24), s)) ELSE IF a = Inf THEN "inf" ELSE "-inf"

\* --- a coordinate: [lb, ub, plb, pub, x], x: values of the starting points (<<>>: none given)
\* plausible bounds that are not given come from the starting points or the hard bounds
Fill(c) ==
  IF c.plb # None /\ c.pub # None THEN c
  ELSE IF Len(c.x) > 1
  THEN LET n == Len(c.x) w == (SMax(c.x) - SMin(c.x)) \div n
           p == IF c.plb = None THEN XMax(SMin(c.x) - w, c.lb) ELSE c.plb
           q == IF c.pub = None THEN XMin(SMax(c.x) + w, c.ub) ELSE c.pub
       IN IF p = q THEN [c EXCEPT !.plb = c.lb, !.pub = c.ub] ELSE [c EXCEPT !.plb = p, !.pub = q]
  ELSE [c EXCEPT !.plb = IF @ = None THEN c.lb ELSE @, !.pub = IF @ = None THEN c.ub ELSE @]
\* the margin: a thousandth of the range
LEff(c) == IF Fin(c.lb) THEN c.lb + (c.ub - c.lb) \div 1000 ELSE c.lb
UEff(c) == IF Fin(c.ub) THEN c.ub - (c.ub - c.lb) \div 1000 ELSE c.ub
Norm(c) ==
  LET x == [i \in DOMAIN c.x |-> XMax(XMin(c.x[i], UEff(c)), LEff(c))]
      p == XMax(c.plb, LEff(c)) q == XMin(c.pub, UEff(c))
  IN [c EXCEPT !.x = x, !.plb = IF x = <<>> THEN p ELSE XMin(p, SMin(x)), !.pub = IF x = <<>> THEN q ELSE XMax(q, SMax(x))]
Sound(c) == /\ Fin(c.plb) /\ Fin(c.pub) /\ c.lb < c.ub /\ (Fin(c.lb) <=> Fin(c.ub))
            /\ \A i \in DOMAIN c.x : Fin(c.x[i]) /\ c.lb <= c.x[i] /\ c.x[i] <= c.ub
            /\ c.lb <= c.plb /\ c.plb < c.pub /\ c.pub <= c.ub
Strict(c) == c.lb < c.plb /\ c.plb < c.pub /\ c.pub < c.ub /\ \A i \in DOMAIN c.x : c.lb < c.x[i] /\ c.x[i] < c.ub
Ok1(c) == LET f == Fill(c) IN Sound(f) /\ Strict(Norm(f))
Start(cs) == IF cs[1].x = <<>> THEN <<[d \in DOMAIN cs |-> (cs[d].plb + cs[d].pub) \div 2]>> ELSE [i \in DOMAIN cs[1].x |-> [d \in DOMAIN cs |-> cs[d].x[i]]]
Exp1(cs, extra) ==
  IF extra # "" \/ \E d \in DOMAIN cs : ~Ok1(cs[d]) THEN [ok |-> FALSE, same |-> TRUE]
  ELSE LET r == [d \in DOMAIN cs |-> Norm(Fill(cs[d]))] IN
       [ok |-> TRUE, same |-> TRUE, lb |-> [d \in DOMAIN cs |-> X(r[d].lb, r[d].s)], ub |-> [d \in DOMAIN cs |-> X(r[d].ub, r[d].s)],
        plb |-> [d \in DOMAIN cs |-> X(r[d].plb, r[d].s)], pub |-> [d \in DOMAIN cs |-> X(r[d].pub, r[d].s)],
        x |-> LET s == Start(r) IN [i \in DOMAIN s |-> [d \in DOMAIN cs |-> X(s[i][d], r[d].s)]], tran |-> TRUE, orig |-> TRUE]
Arg(a, s) == IF a = None THEN "none" ELSE X(a, s)
Case(cs, how, extra, bad) ==
  [op |-> "make", a |-> [cs |-> [d \in DOMAIN cs |-> [lb |-> Arg(cs[d].lb, cs[d].s), ub |-> Arg(cs[d].ub, cs[d].s), plb |-> Arg(cs[d].plb, cs[d].s), pub |-> Arg(cs[d].pub, cs[d].s), x |-> [i \in DOMAIN cs[d].x |-> X(cs[d].x[i], cs[d].s)]]],
                         how |-> how, extra |-> extra, bad |-> bad], exp |-> Exp1(cs, extra)]

\* --- cases: fractions k/4000 of the range, so that the margin (4) is never hit exactly
Grid == {-100, 0, 2, 3, 5, 1000, 2000, 3000, 3995, 3997, 3998, 4000, 4100}
At(lb, k) == lb + 24 * k
Scales == {1, 4, 32, 4096, 65536}
Pt(lb, wild) == TLCEval(At(lb, Wt(IF wild THEN <<-100, 0, 0, 2, 3, 5, 1000, 2000, 3000, 3995, 3998, 4000, 4000, 4100>> ELSE <<0, 2, 3, 5, 700, 1000, 2000, 2500, 3000, 3995, 3997, 4000>>)))
Lo(lb, wild) == TLCEval(IF wild THEN Pt(lb, TRUE) ELSE At(lb, Wt(<<0, 2, 3, 5, 900, 1500>>)))
Hi(lb, wild) == TLCEval(IF wild THEN Pt(lb, TRUE) ELSE At(lb, Wt(<<2500, 3000, 3995, 3997, 4000>>)))
Coord(n, mp, mq, wild, xk) ==     \* n starting points; mp/mq: plausible bounds missing; xk: "none" | "same" | "some"
  LET w == 96000 o == Wt(<<0, -48000, -12, 168, -96000, 2400000>>)
      t == IF wild THEN Wt(<<"b", "b", "b", "u", "half", "fix", "rev">>) ELSE Wt(<<"b", "b", "u">>)
      lb == IF t = "u" THEN NInf ELSE IF t = "half" THEN Wt(<<o, NInf>>) ELSE IF t = "rev" THEN (o + w) ELSE o
      ub == IF t = "u" THEN Inf ELSE IF t = "half" THEN IF lb = NInf THEN (o + w) ELSE Inf ELSE IF t = "fix" THEN o ELSE IF t = "rev" THEN Wt(<<o, NInf>>) ELSE (o + w)
      x0 == Pt(o, wild)
      p0 == Lo(o, wild)
  IN [s |-> Rnd(Scales), lb |-> lb, ub |-> ub, plb |-> IF mp THEN None ELSE IF wild /\ Rnd(1..12) = 1 THEN NInf ELSE p0, pub |-> IF mq THEN None ELSE IF wild /\ Rnd(1..12) = 1 THEN p0 ELSE Hi(o, wild),
      x |-> IF xk = "none" THEN <<>> ELSE [i \in 1..n |-> IF xk = "same" THEN x0 ELSE IF wild /\ Rnd(1..20) = 1 THEN Wt(<<Inf, NInf>>) ELSE Pt(o, wild)]]
Init == hist = <<>> /\ done = FALSE
\* all of one coordinate with one starting point
One == /\ Mode = "grid" /\ hist = <<>>
       /\ \E x \in Grid, p \in Grid \cup {9999}, q \in Grid \cup {9999}, t \in {"b", "u", "lo", "hi"} :
            LET at(k) == IF k = 9999 THEN None ELSE At(0, k)
                c == [s |-> 1, lb |-> IF t \in {"b", "lo"} THEN 0 ELSE NInf, ub |-> IF t \in {"b", "hi"} THEN 96000 ELSE Inf, plb |-> at(p), pub |-> at(q), x |-> <<at(x)>>]
            IN hist' = <<Case(<<c>>, IF (x + p + q) % 2 = 0 THEN "row" ELSE "int", "", 0)>>
       /\ done' = TRUE
Many == /\ Mode = "sim" /\ ~done /\ Len(hist) < 8
        /\ \E D \in {TLCEval(Wt(<<1, 2, 2, 3>>))}, n \in {TLCEval(Wt(<<1, 1, 2, 3, 4>>))}, xk \in {TLCEval(Wt(<<"none", "some", "some", "some", "same">>))},
              mp \in {TLCEval(Rnd(1..4) = 1)}, mq \in {TLCEval(Rnd(1..4) = 1)}, wl \in {TLCEval(Rnd(0..3))},
              how \in {TLCEval(Wt(<<"row", "flat", "int", "mixed">>))}, extra \in {TLCEval(IF Rnd(1..12) = 1 THEN Wt(<<"complex", "size", "nobounds">>) ELSE "")} :
           LET m0 == extra = "nobounds" \/ xk # "none"
           IN \E cs \in {TLCEval([d \in 1..D |-> Coord(n, mp /\ m0, mq /\ m0, d = wl, IF extra = "nobounds" THEN "none" ELSE xk)])} :
                LET cc == IF extra = "nobounds" /\ \A d \in 1..D : cs[d].plb # None /\ cs[d].pub # None THEN [d \in 1..D |-> [cs[d] EXCEPT !.pub = None]] ELSE cs
                IN hist' = Append(hist, Case(cc, how, extra, Rnd(1..5)))
        /\ UNCHANGED done
Stop == ~done /\ Mode = "sim" /\ Len(hist) = 8 /\ done' = TRUE /\ UNCHANGED hist
Next == One \/ Many \/ Stop
Spec == Init /\ [][Next]_vars
Emit == done => PrintT(ToJson(hist))
=============================================================================

-------------------------------- MODULE Kde --------------------------------
(* Summary statistics of samples and of Gaussians.  Kernel density estimate: the
   samples are counted in bins around the points of an even mesh, and smoothed by a
   Gaussian reflected at the ends; its bandwidth solves the fixed-point equation of
   Botev et al., or is Scott's rule if that has no solution.  Divergence between
   Gaussians: the closed form, in both directions. *)
EXTENDS Term, FiniteSets, TLC, Json, SequencesExt
CONSTANTS Depth
VARIABLES hist, done
vars == <<hist, done>>
Rnd(S) == RandomElement(IF done THEN {} ELSE S)
Wt(q)  == q[Rnd(DOMAIN q)]
Sm(q)  == FoldLeft(LAMBDA a, b : a + b, 0, q)
Log1(op, a, defs, e) == hist' = Append(hist, [op |-> op, a |-> a, defs |-> defs, exp |-> e])
RECURSIVE Up(_, _)
Up(n, p) == IF p >= n THEN p ELSE Up(n, 2 * p)
Ran(q) == {q[i] : i \in DOMAIN q}

\* samples, bounds in tenths
LoOf(c) == IF c.lo # 9999 THEN c.lo ELSE 11 * Min(Ran(c.s)) - Max(Ran(c.s))       \* in tenths of the unit of c.s
HiOf(c) == IF c.hi # 9999 THEN c.hi ELSE 11 * Max(Ran(c.s)) - Min(Ran(c.s))
NOf(c)  == Up(c.n, 1)
\* derived quantities: twice the distance of a sample from the first edge of the first bin, in units of 1/(hi-lo)
Num(g, x) == 2 * (10 * x - g.lo) * (g.n - 1) + (g.hi - g.lo)
Inside(g, x) == 10 * x >= g.lo /\ 10 * x <= g.hi
Geo(c) == LET n == Up(c.n, 1) lo == LoOf(c) hi == HiOf(c) IN [n |-> n, lo |-> lo, hi |-> hi, dn |-> 2 * (hi - lo)]
Clear(c, g) == /\ g.hi > g.lo
               /\ \E i \in DOMAIN c.s : Inside(g, c.s[i])
               /\ \A i \in DOMAIN c.s : (Inside(g, c.s[i]) => Num(g, c.s[i]) % g.dn # 0)
Bins(c, g) == LET b == SelectSeq(c.s, LAMBDA x : Inside(g, x)) IN [i \in DOMAIN b |-> Num(g, b[i]) \div g.dn]
\* cosine coefficients, k = 1 .. n-1; cnt[b + 1] samples in bin b
Cos(k, i, n) == <<"cos", Mul("pi", Rat((k * (2 * i + 1)) % (4 * n), 2 * n))>>
A0(cnt, tot, k) == LET n == Len(cnt) bs == SelectSeq([b \in 1..n |-> b - 1], LAMBDA b : cnt[b + 1] > 0)
                   IN SumT([i \in DOMAIN bs |-> Mul(Rat(2 * cnt[bs[i] + 1], tot), Cos(k, bs[i], n))])
Nm(k) == "$a" \o ToString(k)
\* --- the fixed-point equation
Odd(s) == IF s = 2 THEN 3 ELSE IF s = 3 THEN 15 ELSE IF s = 4 THEN 105 ELSE IF s = 5 THEN 945 ELSE 10395
Fn(n, s, t) == ProdT(<<2, Pow("pi", 2 * s), SumT([k \in 1..(n - 1) |-> ProdT(<<Pow(k, 2 * s), Div(Sqr(Nm(k)), 4), Exp(Neg(ProdT(<<k * k, Pow("pi", 2), t>>)))>>)])>>)
Time(N, s, f) == Pow(Div(ProdT(<<2, Div(Add(1, Pow(Rat(1, 2), Rat(2 * s + 1, 2))), 3), Div(Odd(s), Sqrt(Mul(2, "pi")))>>), Mul(N, f)), Rat(2, 3 + 2 * s))
RECURSIVE Stage(_, _, _)
Stage(n, N, s) ==   \* with $f the functional of order s + 1
  IF s < 2 THEN Sub("$t", Pow(ProdT(<<2, N, Sqrt("pi"), "$f">>), Rat(-2, 5)))
  ELSE <<"let", "$h", Time(N, s, "$f"), <<"let", "$f", Fn(n, s, "$h"), Stage(n, N, s - 1)>>>>
Fixed(n, N) == <<"let", "$f", Fn(n, 7, "$t"), <<"if>=", 0, "$f", -1, Stage(n, N, 6)>>>>
First(N) == LET m == IF N < 50 THEN 50 ELSE IF N > 1050 THEN 1050 ELSE N IN Add(<<"/", 1, Pow(10, 12)>>, Rat(m - 50, 100000))
\* --- Scott's rule
Sorted(s) == SortSeq(s, LAMBDA a, b : a < b)
Quant(s, q) == LET L == Len(s) p == q * (L - 1) i == p \div 4 f == p % 4 r == Sorted(s)
               IN IF f = 0 THEN r[i + 1] ELSE Rat(r[i + 1] * (4 - f) + r[i + 2] * f, 4)
Scott(s) == LET L == Len(s) t1 == Sm(s) t2 == Sm([i \in 1..L |-> s[i] * s[i]])
            IN Mul(Min2(Sqrt(Rat(L * t2 - t1 * t1, L * (L - 1))), Div(Sub(Quant(s, 3), Quant(s, 1)), Sub(<<"ppf", Rat(3, 4)>>, <<"ppf", Rat(1, 4)>>))), Pow(L, Rat(-1, 5)))
Samples0 == LET L == Wt(<<2, 3, 5, 8, 12, 20, 30>>) w == Wt(<<1, 2, 3>>) IN
  TLCEval([i \in 1..L |-> TLCEval(IF w = 1 THEN Rnd(-20..20) ELSE IF w = 2 THEN (IF Rnd(1..2) = 1 THEN Rnd(-40..-30) ELSE Rnd(20..40)) ELSE Rnd({0, 1, 2, 3, 50}))])
Case0 == [s |-> TLCEval(Samples0), n |-> Wt(<<3, 4, 6, 8, 11, 16>>), lo |-> Wt(<<9999, 9999, -403, -255, -31, 0, 20, -350>>), hi |-> Wt(<<9999, 9999, 417, 218, 54, 30, 500, 250>>), col |-> Rnd({TRUE, FALSE})]
Estimate ==
  /\ ~done
  /\ \E c \in {TLCEval(Case0)} : \E g \in {TLCEval(Geo(c))} :
     IF ~Clear(c, g) THEN UNCHANGED hist
     ELSE \E bins \in {TLCEval(Bins(c, g))} : \E cnt \in {TLCEval([b \in 1..g.n |-> Cardinality({i \in DOMAIN bins : bins[i] = b - 1})])} :
          LET n == g.n N == Cardinality(Ran(c.s)) L == Rat(g.hi - g.lo, 10)
              defs == [k \in 1..(n - 1) |-> <<Nm(k), A0(cnt, Len(bins), k)>>] \o <<<<"$r", <<"firstroot", "$t", First(N), Fixed(n, N)>>>>, <<"$w", <<"ifnan", "$r", Scott(c.s), Mul(Sqrt("$r"), L)>>>>, <<"$v", Pow(Div("$w", L), 2)>>>>
              dens(j) == Max2(0, Div(Add(1, SumT([k \in 1..(n - 1) |-> ProdT(<<Nm(k), Exp(Neg(Half(ProdT(<<k * k, Pow("pi", 2), "$v">>)))), Cos(k, j - 1, n)>>)])), L))
          IN Log1("kde", [s |-> c.s, n |-> c.n, lo |-> c.lo, hi |-> c.hi, col |-> c.col, cnt |-> cnt, inside |-> Len(bins)], defs,
                  [bw |-> E("$w"), mesh |-> [j \in 1..n |-> E(Add(Rat(g.lo, 10), Mul(Rat(j - 1, n - 1), L)))], dens |-> [j \in 1..n |-> E(dens(j))], same |-> TRUE])
  /\ UNCHANGED done
BadArgs == /\ ~done
           /\ \E a \in {TLCEval(Wt(<<[n |-> 0, lo |-> -1, hi |-> 1], [n |-> -4, lo |-> -1, hi |-> 1], [n |-> 8, lo |-> 3, hi |-> 1], [n |-> 8, lo |-> 5, hi |-> 4]>>))} : Log1("badkde", a, <<>>, [any |-> TRUE])
           /\ UNCHANGED done
\* --- Gaussians with integer covariances
Minor(M, i, j) == LET D == Len(M) r == SelectSeq([k \in 1..D |-> k], LAMBDA k : k # i) q == SelectSeq([k \in 1..D |-> k], LAMBDA k : k # j)
                  IN [x \in DOMAIN r |-> [y \in DOMAIN q |-> M[r[x]][q[y]]]]
RECURSIVE Det(_)
Det(M) == IF Len(M) = 0 THEN 1 ELSE Sm([j \in 1..Len(M) |-> (IF j % 2 = 1 THEN 1 ELSE -1) * M[1][j] * Det(Minor(M, 1, j))])
Adj(M) == [i \in DOMAIN M |-> [j \in DOMAIN M |-> (IF (i + j) % 2 = 0 THEN 1 ELSE -1) * Det(Minor(M, j, i))]]
Cov0(D, sing) == LET T == TLCEval([i \in 1..D |-> TLCEval([j \in 1..D |-> TLCEval(IF j > i THEN 0 ELSE IF j = i THEN (IF sing /\ i = D THEN 0 ELSE Rnd(1..4)) ELSE Rnd(-2..2))])])
                 IN TLCEval([i \in 1..D |-> [j \in 1..D |-> Sm([k \in 1..D |-> T[i][k] * T[j][k]])]])
\* KL(1 || 2)
Kl(D, m1, S1, m2, S2) ==
  LET d2 == Det(S2) B == Adj(S2) tr == Sm([i \in 1..D |-> Sm([j \in 1..D |-> B[i][j] * S1[j][i]])])
      dm == [i \in 1..D |-> m2[i] - m1[i]] qf == Sm([i \in 1..D |-> Sm([j \in 1..D |-> dm[i] * B[i][j] * dm[j]])])
  IN IF Det(S1) = 0 \/ d2 = 0 THEN "inf" ELSE Half(Sub(Add(Rat(tr + qf, d2), Log(Rat(d2, Det(S1)))), D))
Gauss == /\ ~done
         /\ \E D \in {TLCEval(Rnd(1..3))}, z1 \in {TLCEval(Rnd(1..12) = 1)}, z2 \in {TLCEval(Rnd(1..12) = 1)} :
            \E m1 \in {TLCEval([i \in 1..D |-> TLCEval(Rnd(-3..3))])}, m2 \in {TLCEval([i \in 1..D |-> TLCEval(Rnd(-3..3))])}, S1 \in {TLCEval(Cov0(D, z1))}, S2 \in {TLCEval(Cov0(D, z2))} :
               Log1("kl", [m1 |-> m1, S1 |-> S1, m2 |-> m2, S2 |-> S2, col |-> Wt(<<"flat", "row", "col">>)], <<>>,
                    [kl |-> <<E(Kl(D, m1, S1, m2, S2)), E(Kl(D, m2, S2, m1, S1))>>, same |-> TRUE])
         /\ UNCHANGED done
Init == hist = <<>> /\ done = FALSE
Stop == /\ ~done /\ Len(hist) >= Depth /\ done' = TRUE /\ UNCHANGED hist
Next == IF Len(hist) >= Depth THEN Stop ELSE Estimate \/ BadArgs \/ Gauss
Spec == Init /\ [][Next]_vars
\* design: every sample inside the bounds is counted once; divergences of equal Gaussians vanish
Counted == \A i \in DOMAIN hist : hist[i].op = "kde" => Sm(hist[i].a.cnt) = hist[i].a.inside
Emit == done => PrintT(ToJson(hist))
=============================================================================

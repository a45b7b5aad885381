------------------------------ MODULE GPTrain ------------------------------
(* Surrogate training: the data it is given, the effort it makes, the starting points,
   the estimate of the noise, the bounds and priors of its hyperparameters; and selections
   of high-density points.
   Observations are pairs of a point id and a value (sixteenths), with noise SD in eighths;
   a repeated one is combined with the earlier.  flag: still in use. *)
EXTENDS Term, FiniteSets, TLC, Json, SequencesExt
CONSTANTS Depth, Sim, Mode
VARIABLES cf, obs, it, rc, hist, done
vars == <<cf, obs, it, rc, hist, done>>
Rnd(S) == RandomElement(IF done THEN {} ELSE S)
Wt(q)  == q[Rnd(DOMAIN q)]
Log1(op, a, e) == hist' = Append(hist, [op |-> op, a |-> a, exp |-> e])

Cfg0 == LET lvl == Rnd(0..2) D == Rnd(1..3) tw == Wt(<<0, 0, 2, 30, 4000>>) IN
  [D |-> D, lvl |-> lvl, nsmax |-> Wt(<<80, 80, 20, 8, 0>>), nswarm |-> Wt(<<8, 8, 3, 100>>), nsmain |-> Wt(<<1000, 12, 2>>), stableN |-> Wt(<<200, 14, 8, 6>>),
   stableK |-> Wt(<<1000, 1000, 4>>), stableS |-> Wt(<<0, 0, 2, 8>>), thin |-> Wt(<<5, 1, 3>>), n0 |-> Wt(<<1024, 64, 20>>), nf |-> Wt(<<64, 10, 4>>),
   retrain |-> Wt(<<1, 1, 10>>), maxfe |-> Wt(<<100, 400, 2000>>), fe0 |-> Wt(<<11, 5>>),
   tw |-> tw, rw |-> IF tw > 0 THEN 5 ELSE Wt(<<9, 9, 5, 10, 0>>), fe |-> Wt(<<5, 5, 1, 2>>), sw |-> Wt(<<5, 5, 2, 0>>), wcov |-> Wt(<<TRUE, TRUE, FALSE>>)]
\* --- observations: [id, ys (sequence of values), ss (their SDs), flag]
Obs1(lvl, id, n) == [id |-> id, ys |-> TLCEval([k \in 1..n |-> TLCEval(Rnd(-80..80))]), ss |-> TLCEval([k \in 1..n |-> IF lvl = 2 THEN TLCEval(Rnd(1..24)) ELSE 8]), flag |-> TLCEval(Rnd(1..4) > 1)]
Obs0(lvl, id) == Obs1(lvl, id, TLCEval(Wt(<<1, 1, 1, 2, 3>>)))
S2(lvl, o) == IF lvl = 2 THEN Div(1, SumT([k \in DOMAIN o.ss |-> Div(64, o.ss[k] * o.ss[k])])) ELSE Rat(1, Len(o.ys))
Y(lvl, o)  == IF lvl = 2 THEN Div(SumT([k \in DOMAIN o.ss |-> Mul(Rat(o.ys[k], 16), Div(64, o.ss[k] * o.ss[k]))]), SumT([k \in DOMAIN o.ss |-> Div(64, o.ss[k] * o.ss[k])]))
              ELSE Rat(FoldLeft(LAMBDA a, b : a + b, 0, o.ys), 16 * Len(o.ys))
Act(os) == SelectSeq(os, LAMBDA o : o.flag)
Data(os) == LET q == Act(os) IN [ids |-> [i \in DOMAIN q |-> q[i].id], y |-> [i \in DOMAIN q |-> E(Y(cf'.lvl, q[i]))],
                                  s2 |-> IF cf'.lvl = 0 THEN <<>> ELSE [i \in DOMAIN q |-> E(S2(cf'.lvl, q[i]))]]
\* --- effort; st: the state of the run: N, neff, warm-up, K, stop, iteration, reliability of the last one, full recomputation
Stopped(st) == st.stop > 0 \/ st.N >= cf.stableN \/ st.K >= cf.stableK
Cap(st)   == IF st.warm THEN cf.nswarm ELSE cf.nsmain
NsT(st)   == IF Stopped(st) THEN cf.stableS ELSE <<"round", Min2(Div(cf.nsmax, Sqrt(st.N)), Cap(st))>>
\* (the numbers are chosen such that nothing is half-way between integers)
\* whether that rounds to 0 (to the nearest; never half-way for these numbers)
NsZero(st) == IF Stopped(st) THEN cf.stableS = 0 ELSE cf.nsmax = 0 \/ 4 * cf.nsmax * cf.nsmax < st.N
Quick(st) == ~st.full /\ st.it > 1 /\ st.r < 4 * cf.retrain      \* r in quarters
InitNT(st) == LET mf == IF cf.maxfe < 1000 THEN cf.maxfe ELSE 1000
                  x == Rat(st.neff - cf.fe0, mf - cf.fe0) IN
              <<"max", <<"round", Sub(cf.n0, Mul(cf.n0 - cf.nf, Add(1, Mul(Sub(x, 1), Sqr(Sub(x, 1))))))>>, 9>>
InitN(st) == IF Quick(st) THEN 0 ELSE InitNT(st)
OptsN(st) == (IF Quick(st) THEN 0 ELSE 1) + (IF NsZero(st) THEN 1 ELSE 0)
Burn(st)  == IF st.full THEN Mul(cf.thin, NsT(st)) ELSE 3 * cf.thin
\* starting points: hyperparameter samples of the last half of the iterations, and the current one
Half1(n) == (n + 2) \div 2        \* first of the iterations used (from 1): ceil((n + 1) / 2)
Pool(st) == IF Quick(st) \/ st.it = 0 THEN <<>> ELSE FlattenSeq([k \in 1..(Len(st.hyps) - Half1(Len(st.hyps)) + 1) |-> st.hyps[Half1(Len(st.hyps)) + k - 1]])
\* proposal widths: the spread of the samples of the past iterations, each weighing less the older and the less similar the later
\* posteriors were (skl in sixteenths, in units of its tolerance; a weight below 1/tw ends the list), or else a running average rc
Fe     == cf.fe
DMult(k) == Max2(1, Log(Rat(k * Fe, 16)))
\* iterations counted, most recent first: skl[i] is the change at the i-th most recent one
CountedN(st) == IF cf.tw = 0 THEN st.it ELSE LET ok(i) == 2 ^ (Fe * (i - 1)) <= cf.tw IN Cardinality({i \in 1..st.it : \A j \in 1..i : Fe * (j - 1) > 20 \/ ok(j)} \ {i \in 1..st.it : Fe * (i - 1) > 20})
PastW(st, i) == IF i = 1 THEN 1 ELSE IF cf.rw = 10 THEN 1 ELSE IF cf.rw = 0 THEN 0 ELSE Pow(Rat(cf.rw, 10), Mul(Fe, SumT([j \in 1..(i - 1) |-> DMult(st.skl[j])])))
SumI(q)  == FoldLeft(LAMBDA x, y : x + y, 0, q)
Rows(st, i) == st.hyps[st.it + 1 - i]
WidthSd(st) ==
  LET n   == CountedN(st)
      w   == [i \in 1..n |-> PastW(st, i)]
      W   == SumT(w)
      mu  == Div(SumT([i \in 1..n |-> Mul(w[i], Rat(SumI(Rows(st, i)), Len(Rows(st, i))))]), W)
      sq  == Div(SumT([i \in 1..n |-> Mul(w[i], Rat(SumI([k \in DOMAIN Rows(st, i) |-> Rows(st, i)[k] * Rows(st, i)[k]]), Len(Rows(st, i))))]), W)
      nrm == Sub(1, Div(SumT([i \in 1..n |-> Div(Sqr(w[i]), Len(Rows(st, i)))]), Sqr(W)))
  IN Sqrt(Div(Sub(sq, Pow(mu, 2)), nrm))
\* a single sample has no spread
HasSpread(st) == IF cf.wcov THEN st.it > 0 /\ (Len(Rows(st, 1)) > 1 \/ (cf.rw > 0 /\ CountedN(st) > 1)) ELSE st.it > 0 /\ rc.has
Width(st) == IF cf.sw = 0 \/ ~HasSpread(st) THEN "nan"
             ELSE Mul(Max2(IF cf.wcov THEN WidthSd(st) ELSE Sqrt(rc.t), Rat(1, 1000)), Max2(cf.sw, Rat(st.r, 4)))
\* the running average after the samples h (of one coordinate, eighths), each rep times
NewRc(h, rep) ==
  LET m == Len(h)
      v == Div(Mul(rep, Sub(SumT([s \in 1..m |-> Rat(h[s][1] * h[s][1], 64)]), Div(Sqr(Rat(SumI([s \in 1..m |-> h[s][1]]), 8)), m))), rep * m - 1)
      w == IF cf.rw = 10 THEN 1 ELSE Pow(Rat(cf.rw, 10), Fe)
  IN IF rep * m = 1 THEN [has |-> FALSE, t |-> 0]
     ELSE IF ~rc.has \/ cf.rw = 0 THEN [has |-> TRUE, t |-> v] ELSE [has |-> TRUE, t |-> Add(Mul(Sub(1, w), v), Mul(w, rc.t))]
Rank(v, s) == Cardinality({k \in DOMAIN s : s[k] > v})
\* --- noise at the top fifth of the observations in use (by value): mean over samples of the predicted variance, median
NoiseAt(h, o) == SumT(<<Div(SumT([s \in DOMAIN h |-> Exp(Rat(h[s][1], 4))]), Len(h)),
                        IF cf.lvl = 0 THEN 0 ELSE IF cf.lvl = 2 THEN S2(2, o) ELSE Mul(Div(SumT([s \in DOMAIN h |-> Exp(Rat(h[s][2], 8))]), Len(h)), S2(1, o))>>)

Init == cf = [D |-> 0] /\ obs = <<>> /\ it = 0 /\ rc = [has |-> FALSE, t |-> 0] /\ hist = <<>> /\ done = FALSE
Setup == /\ ~done /\ cf.D = 0 /\ Mode = "train"
         /\ cf' = TLCEval(Cfg0) /\ UNCHANGED <<obs, it, rc, done>> /\ Log1("setup", [cf |-> cf'], [ok |-> TRUE])
Can == ~done /\ cf.D > 0 /\ Len(hist) < Depth
\* more observations (new points or repetitions within them), and a new choice of those in use
Grow == /\ Can /\ Len(obs) < 26
        /\ \E n \in {TLCEval(IF obs = <<>> THEN Rnd(3..10) ELSE Rnd(1..4))} :
           \E new \in {TLCEval([k \in 1..n |-> TLCEval(Obs0(cf.lvl, Len(obs) + k))])},
              all \in {TLCEval(IF Rnd(1..3) = 1 THEN [k \in DOMAIN obs |-> TLCEval([obs[k] EXCEPT !.flag = Rnd(1..3) > 1])] ELSE obs)} :
              /\ obs' = [k \in 1..(Len(obs) + n) |-> IF k = Len(obs) + n THEN [new[n] EXCEPT !.flag = TRUE] ELSE IF k <= Len(obs) THEN TLCEval(all[k]) ELSE new[k - Len(obs)]]
                /\ cf' = cf
                /\ Log1("grow", [new |-> [k \in 1..n |-> [id |-> new[k].id, ys |-> new[k].ys, ss |-> new[k].ss]], flags |-> [k \in DOMAIN obs' |-> obs'[k].flag]], [data |-> Data(obs'), n |-> Len(obs')])
        /\ UNCHANGED <<it, rc, done>>
St1(i) ==
  [it |-> i, N |-> Len(obs), neff |-> FoldLeft(LAMBDA a, o : a + Len(o.ys), 0, Act(obs)), warm |-> Rnd({TRUE, FALSE}), K |-> Rnd(2..6), stop |-> Wt(<<0, 0, 0, 5>>),
   r |-> Wt(<<1, 2, 3, 4, 5, 39, 41>>), full |-> Rnd({TRUE, FALSE}), cur |-> 900, skl |-> TLCEval([k \in 1..i |-> TLCEval(IF cf.tw > 0 THEN Rnd(1..8) ELSE Wt(<<1, 8, 30, 100, 256>>))]),
   hyps |-> TLCEval([k \in 1..i |-> TLCEval(SubSeq(<<10 * k + 1, 10 * k + 2, 10 * k + 3, 10 * k + 4, 10 * k + 5, 10 * k + 6, 10 * k + 7, 10 * k + 8>>, 1, Wt(<<1, 2, 8>>)))])]
Train == /\ Can /\ Len(Act(obs)) >= 2 /\ Rnd(1..2) = 1
         /\ \E st \in {TLCEval(St1(TLCEval(Rnd(0..7))))}, h \in {TLCEval(LET m == TLCEval(Wt(<<1, 2, 3>>)) IN SubSeq([s \in 1..3 |-> <<TLCEval(Rnd(-9..3)), TLCEval(Rnd(-5..5))>>], 1, m))}, rep \in {TLCEval(Wt(<<2, 2, 3, 1>>))} :
              LET pool == Pool(st) q == Act(obs) IN
              /\ it' = it + 1 /\ rc' = NewRc(h, rep)
              /\ UNCHANGED <<cf, obs>>
              /\ Log1("train", [st |-> st, h |-> h, rep |-> rep, pool |-> pool, initN |-> E(InitN(st)), ys |-> [k \in DOMAIN q |-> E(Y(cf.lvl, q[k]))], top |-> (Len(q) + 4) \div 5, noise |-> [k \in DOMAIN q |-> E(NoiseAt(h, q[k]))]],
                      [data |-> Data(obs), ns |-> E(NsT(st)), nsret |-> E(NsT(st)), initN |-> E(InitN(st)), optsN |-> OptsN(st), burn |-> E(Burn(st)), thin |-> cf.thin,
                       frominit |-> TRUE, log |-> TRUE, hyp |-> TRUE, wid |-> E(Width(st)), widths |-> TRUE, sn2 |-> "any"])
         /\ UNCHANGED done
\* the surrogate's data are brought up to date without training
Reup == /\ Can /\ it > 0 /\ UNCHANGED <<cf, obs, it, rc, done>> /\ Log1("reupdate", [n |-> 0], [data |-> Data(obs), fresh |-> TRUE, log |-> TRUE])
Stop == /\ ~done /\ Len(hist) >= Depth /\ done' = TRUE /\ UNCHANGED <<cf, obs, it, rc, hist>>
\* --- high-density selections (values with ties), fraction in sixteenths
Hpd == /\ ~done /\ Mode = "hpd"
       /\ \E N \in {TLCEval(Rnd(1..12))}, f \in {TLCEval(Wt(<<0, 2, 4, 7, 8, 12, 13, 14, 15, 16>>))} : \E ys \in {TLCEval([k \in 1..N |-> TLCEval(Rnd(-4..4))])}, D \in {TLCEval(Rnd(1..3))} :
            LET n2 == 2 * f * N       \* 32 times the number
                n == IF n2 % 32 = 16 THEN -1 ELSE (n2 + 16) \div 32
                sorted == SortSeq(ys, >)
                lo == n2 \div 32
            IN Log1("hpd", [ys |-> ys, f |-> f, D |-> D, n |-> IF n < 0 THEN <<lo, lo + 1>> ELSE <<n, n>>, sorted |-> sorted],
                    [n |-> TRUE, top |-> SubSeq(sorted, 1, IF n < 0 THEN lo ELSE n), last |-> TRUE, rows |-> TRUE, distinct |-> TRUE, range |-> TRUE, same |-> TRUE])
       /\ done' = (Len(hist') >= Depth) /\ UNCHANGED <<cf, obs, it, rc>>
\* --- bounds, priors and first guess of the surrogate's hyperparameters, from the densest observations and the plausible box.
\* values ys (sixteenths, distinct), points xs (eighths, distinct in each coordinate), widths ws (eighths), fraction f (sixteenths)
Tol(o)   == Rat(1, o.tol)
Noise(o) == IF o.noise = 0 THEN Tol(o) ELSE Max2(Rat(o.noise, 16), Tol(o))
HypExp(o, sorted, order, n) ==
  LET D == o.D
      rng(d) == LET v == [i \in 1..n |-> o.xs[order[i]][d]] IN (CHOOSE m \in Range(v) : \A k \in Range(v) : k <= m) - (CHOOSE m \in Range(v) : \A k \in Range(v) : k >= m)
      small == Log(Rat(1, 1000000))
      hi == Rat(sorted[1], 16) lo == Rat(sorted[n], 16)
      top == IF o.mean = "const" THEN lo ELSE IF o.qb THEN Add(hi, Max2(Rat(o.tolsd, 16), Min2(D, Sub(hi, lo)))) ELSE "nan"
  IN [mean |-> o.mean, cov |-> "se",
      noisepar |-> IF o.lvl = 0 THEN <<1, 0, 0>> ELSE IF o.lvl = 1 THEN <<1, 2, 0>> ELSE <<1, 1, 0>>,
      lenLB |-> [d \in 1..D |-> E(Add(Log(Rat(rng(d), 8)), small))],
      lenUB |-> [d \in 1..D |-> IF o.factor = 0 THEN E("nan") ELSE E(Log(Mul(Rat(o.factor, 4), Rat(o.ws[d], 8))))],
      outLB |-> E(Add(Log(Sub(hi, lo)), small)), outUB |-> E("nan"),
      noiseLB |-> E(Log(Tol(o))), noiseUB |-> E("inf"),
      meanLB |-> IF o.mean = "zero" \/ (o.mean = "negquad" /\ ~o.qb) THEN E("nan") ELSE E("-inf"), meanUB |-> IF o.mean = "zero" THEN E("nan") ELSE E(top),
      others |-> TRUE,
      lenP |-> [d \in 1..D |-> [mu |-> E(Log(Mul(Rat(o.lmean, 8), Rat(o.ws[d], 8)))), sd |-> E(Rat(o.lstd, 4)), df |-> 3]],
      noiseP |-> [mu |-> E(Log(IF o.lvl = 0 THEN Noise(o) ELSE Tol(o))), sd |-> E(IF o.lvl = 1 THEN Log(10) ELSE Half(1)), df |-> 3],
      multP |-> IF o.lvl # 1 THEN "none" ELSE [mu |-> E(IF o.noise = 0 THEN 0 ELSE Log(Noise(o))), sd |-> E(IF o.noise = 0 THEN Log(10) ELSE Half(Log(10))), df |-> 3],
      noise0 |-> E(Log(IF o.lvl = 0 THEN Noise(o) ELSE Tol(o))), guess |-> TRUE]
Fracs(N) == {f \in {4, 6, 8, 10, 13, 14, 16} : (2 * f * N) % 32 # 16 /\ (2 * f * N + 16) \div 32 >= 2}
Hyp == /\ ~done /\ Mode = "hyp"
       /\ \E N \in {TLCEval(Rnd(4..12))}, D \in {TLCEval(Rnd(1..3))} :
          \E f \in {TLCEval(Rnd(Fracs(N)))}, ys \in {TLCEval([k \in 1..N |-> TLCEval(16 * Rnd(-15..15) + k)])},
             xs \in {TLCEval([k \in 1..N |-> TLCEval([d \in 1..D |-> TLCEval(16 * Rnd(-4..4) + k)])])} :
          \E o \in {TLCEval([D |-> D, lvl |-> Rnd(0..2), mean |-> Wt(<<"negquad", "negquad", "const", "zero">>), f |-> f, ys |-> ys, xs |-> xs,
                     ws |-> TLCEval([d \in 1..D |-> TLCEval(Rnd(1..40))]), noise |-> Wt(<<0, 0, 1, 8, 40>>), tol |-> Wt(<<300, 40, 2>>), factor |-> Wt(<<0, 0, 2, 9, 40>>),
                     lmean |-> Wt(<<8, 3, 20>>), lstd |-> Wt(<<4, 13, 1>>), qb |-> Wt(<<TRUE, TRUE, FALSE>>), tolsd |-> Wt(<<2, 16, 100>>)])} :
            LET order == SortSeq([k \in 1..N |-> k], LAMBDA i, j : ys[i] > ys[j])
                n == (2 * f * N + 16) \div 32
            IN Log1("hyp", [o |-> o, top |-> SubSeq(order, 1, n)], HypExp(o, [k \in 1..N |-> ys[order[k]]], order, n))
       /\ done' = (Len(hist') >= Depth) /\ UNCHANGED <<cf, obs, it, rc>>
Next == Setup \/ Grow \/ Train \/ Reup \/ Stop \/ Hpd \/ Hyp
Spec == Init /\ [][Next]_vars
Emit == done => PrintT(ToJson(hist))
\* nothing is trained without data; the effort never exceeds the caps
Bounded == \A k \in DOMAIN hist : hist[k].op = "train" => Len(hist[k].exp.data.ids) >= 2 /\ (NsZero(hist[k].a.st) => hist[k].exp.optsN >= 1)
=============================================================================

------------------------------ MODULE VBMCLoop ------------------------------
(* The main loop of VBMC (VBMC.optimize): reparameterisation attempts, sampling
   requests, surrogate training, variational fits, reliability and termination,
   warm-up and trimming, choice and refinement of the final solution, and
   continuation of a finished or reloaded run.

   What the numerical stages return (function values, evidence bounds, divergences,
   numbers of hyperparameter samples, ...) is chosen by the environment and is
   part of the behaviour; the replay harness scripts the real stages accordingly.

   Units: bounds, their uncertainties and the lower confidence bound of the surrogate
   are integers counting quarters; divergences count multiples of tol_skl = 1/8;
   tol_sd = 1/4, so that the noise levels of NoiseTol give tolerances of 1, 2, 8
   and 10 quarters.  Objects (posteriors, surrogates, hyperparameter sets) are
   identified by tags, numbered in the order in which they are made. *)
EXTENDS Best, TLC, Json

CONSTANTS MaxSteps, WithReload, Moods, Sim,
          Force     \* options fixed for all behaviours (a record, possibly empty)

VARIABLES o,      \* options
          s,      \* the live state of the solver
          H,      \* history: one record per iteration
          saved,  \* state recorded at the end of each iteration
          pc, cur, ev, hist, done
vars == <<o, s, H, saved, pc, cur, ev, hist, done>>

\* a random draw must depend on the state, or TLC evaluates it once and for all
Rnd(S)  == RandomElement(IF done THEN {} ELSE S)
Wt(q)   == q[Rnd(DOMAIN q)]     \* weighted by repetition
Pick(S) == IF Sim THEN {Rnd(S)} ELSE S
INF == 99999
RLt(R, x) == R.d # 0 /\ R.n < x * R.d
RT(R) == IF R.d = 0 THEN "inf" ELSE E(QT(R))
NoiseTol == <<1, 2, 8, 10>>     \* sn2_hpd = 0, 1, 256, 65536
Range(f) == {f[i] : i \in DOMAIN f}
RECURSIVE SumSeq(_)
SumSeq(q) == IF q = <<>> THEN 0 ELSE Head(q) + SumSeq(Tail(q))
Sel(q, T(_)) == SelectSeq(q, T)
h(i) == H[i + 1]
It == s.iter

\* ------------------------------------------------------------------ options
Opts == [D |-> Wt(<<1, 2, 2, 2, 3, 3>>),
  fes |-> Rnd({4, 6, 10}), pre |-> Wt(<<0, 0, 1, 3>>), fper |-> Rnd({2, 3, 5}),
  maxf |-> Wt(<<12, 25, 40, 70, 70, 70>>), minf |-> Wt(<<0, 0, 0, 20, 35>>),
  maxi |-> Wt(<<3, 6, 9, 14, 18, 18>>), mini |-> Wt(<<0, 0, 2, 5>>),
  tsc |-> Rnd({11, 12, 15}), exc |-> Rnd(0..2),
  esw |-> Rnd({TRUE, FALSE}), tse |-> Rnd({3, 4}), efs |-> Rnd({1, 2, 3, 4}),
  detmin |-> Wt(<<1, 1, 3>>),
  warm |-> Wt(<<TRUE, TRUE, TRUE, TRUE, FALSE>>), tsw |-> Rnd({5, 9, 15}), swt |-> Rnd({1, 2, 8}),
  wcm |-> Wt(<<TRUE, TRUE, FALSE>>), ti |-> Rnd({1, 5, 19}), wni |-> Wt(<<6, 6, 12, 25>>),
  swr |-> Wt(<<1, 1, 2, 100>>), keep |-> Rnd({10, 40}), keepfa |-> Rnd({-1, 5, 100}),
  skipaw |-> Rnd({TRUE, FALSE}), vw |-> Rnd({TRUE, FALSE}), vm |-> Wt(<<TRUE, TRUE, TRUE, FALSE>>),
  we |-> Wt(<<0, 1, 1, 2, 3>>), winc |-> Rnd({TRUE, FALSE}), wmk |-> Wt(<<1, 1, 2, 4>>),
  wtr |-> Wt(<<1, 3, 50, 50>>), wuc |-> Wt(<<TRUE, TRUE, TRUE, FALSE>>), wti |-> Rnd({0, 1, 3}),
  wsm |-> Rnd({1, 2}), wsb |-> Rnd({0, 2}), wrot |-> Wt(<<TRUE, TRUE, TRUE, FALSE>>),
  boost |-> Wt(<<TRUE, TRUE, FALSE>>), mfc |-> Rnd({1, 3, 8, 20}),
  entb |-> Rnd({"none", "same", "more"}), finb |-> Rnd({"none", "same", "more"}),
  sgs |-> Rnd({0, 2}), eiw |-> Rnd({1, 3}), nel |-> Rnd({3, 8}), es |-> Rnd({1, 2, 4}),
  refit |-> Wt(<<FALSE, FALSE, TRUE>>), kw |-> Rnd({1, 2, 5}), kdiv |-> Rnd({1, 3, 6}),
  bonus |-> Rnd({0, 1, 2}), ssg |-> Wt(<<FALSE, FALSE, TRUE>>), ngp |-> Wt(<<TRUE, TRUE, FALSE>>),
  mood |-> Rnd(Moods)]

Start(op) ==
  [iter |-> -1, warm |-> op.warm, lastwarm |-> IF op.warm THEN INF ELSE 0, trims |-> <<>>,
   wcount |-> 0, lastwarp |-> -INF, lastsucc |-> -INF, skip |-> FALSE, recomp |-> TRUE,
   stopsamp |-> IF op.ngp THEN 0 ELSE INF,
   esw |-> op.esw /\ op.D >= op.detmin, omaxf |-> op.maxf,
   vpK |-> op.kw, N |-> 0, neff |-> 0, R |-> RInf,
   vp |-> [t |-> 0, K |-> op.kw, om |-> op.warm \/ op.vm, ow |-> op.warm \/ op.vw, pt |-> 0],
   gp |-> [t |-> 0, n |-> 0], hyp |-> [t |-> 0, rc |-> FALSE],
   log |-> <<>>, fc |-> 0, pt |-> 0, tag |-> 0, ent0 |-> FALSE]

NAct(lg)   == Cardinality({i \in DOMAIN lg : lg[i].act})
NEff(lg)   == SumSeq([i \in DOMAIN lg |-> IF lg[i].act THEN lg[i].n ELSE 0])

Init == /\ o = [D |-> 0] /\ s = [iter |-> -1] /\ H = <<>> /\ saved = <<>> /\ pc = "choose"
        /\ cur = [a |-> <<>>] /\ ev = <<>> /\ hist = <<>> /\ done = FALSE

Choose == /\ pc = "choose"
          /\ \E op \in {TLCEval(Force @@ Opts)} :
                /\ CeilDiv(op.tsc, op.fper) >= 3   \* the bound's slope needs two points
                /\ o' = op /\ s' = Start(op)
                /\ hist' = <<[op |-> "setup", o |-> op, exp |-> [D |-> op.D]]>>
          /\ pc' = "begin" /\ UNCHANGED <<H, saved, cur, ev, done>>

\* ---------------------------------------------------------- best solution
\* index of the solution returned among the first m+1 iterations
BestIdx(m, safe, fb4) == BestOf(H, m, safe, fb4)
RankBest(m, safe) == RankOf(H, m, safe)

\* --------------------------------------------------- start of an iteration
WarpDelay == IF o.winc THEN o.we * MaxI(1, s.wcount) ELSE o.we
DoWarp(st) == /\ o.wrot /\ st.iter > 0 /\ ~st.warm /\ st.iter - st.lastwarp > WarpDelay
              /\ st.vp.K >= o.wmk /\ RLt(h(st.iter - 1).R, o.wtr) /\ o.D > 1

Begin ==
  /\ pc = "begin"
  /\ LET force == s.esw /\ 4 * s.fc >= o.efs * s.omaxf
         it    == s.iter + 1
         s1    == [s EXCEPT !.iter = it, !.esw = @ /\ ~force]
         a     == (IF it = 0 /\ s.warm THEN <<"start warm-up">> ELSE <<>>)
                  \o (IF force THEN <<"entropy switch">> ELSE <<>>)
     IN /\ s' = s1 /\ ev' = <<>>
        /\ cur' = [a |-> a, vpold |-> s.vp, scr |-> [w |-> FALSE]]
        /\ pc' = IF DoWarp(s1) THEN "warp" ELSE "sample"
  /\ UNCHANGED <<o, H, saved, hist, done>>

\* values scripted for a variational fit: small changes of the bound are common
PickFit == [de |-> Rnd(IF o.mood = "calm" THEN {-1, 0, 1} ELSE IF o.mood = "climb" THEN {0, 1, 2, 9} ELSE {-30, -4, -1, 0, 1, 3, 25}),
            sd |-> Rnd(IF o.mood = "wild" THEN {0, 1, 4, 9} ELSE {0, 1}),
            pr |-> Wt(<<0, 0, 0, 1, 2>>)]
LastE == IF It = 0 THEN -40 ELSE h(It - 1).e
NFast == o.nel * s.vp.K

Warp ==
  /\ pc = "warp"
  /\ \E f \in {TLCEval(PickFit)}, gain \in Pick({0, 2}) :
     LET best == BestIdx(It - 1, 5, 1)
         e    == LastE + f.de + gain
         t    == s.tag
         K    == s.vp.K
         \* the new posterior, in the new coordinates
         vpw  == [s.vp EXCEPT !.t = t + 1, !.pt = t + 1]
         gpw  == [t |-> t + 2, n |-> NAct(s.log)]
         \* a fixed-means posterior takes the means of the surrogate's inputs
         pr   == IF s.vp.om THEN MinI(f.pr, K - 1) ELSE 0
         Kw   == IF s.vp.om THEN K ELSE gpw.n
         vpf  == [vpw EXCEPT !.t = t + 3, !.K = Kw - pr]
         \* warm start lost: the state after a warp that is kept
         sw   == [s EXCEPT !.vp = IF o.wuc THEN vpf ELSE vpw,
                           !.gp = IF o.wuc THEN gpw ELSE @,
                           !.hyp = IF o.wuc THEN [t |-> t + 2, rc |-> TRUE] ELSE [t |-> t + 1, rc |-> s.hyp.rc],
                           !.pt = t + 1,
                           !.recomp = TRUE, !.skip = TRUE, !.wcount = @ + 1, !.lastwarp = It, !.lastsucc = It,
                           !.vpK = IF o.wuc THEN vpf.K ELSE @,
                           !.tag = IF o.wuc THEN t + 3 ELSE t + 1]
         worse == e < h(It - 1).e + o.wti \/ f.sd > h(It - 1).sd * o.wsm + o.wsb
         undo  == o.wuc /\ worse
         su    == [s EXCEPT !.wcount = @ + 2, !.lastwarp = It, !.tag = t + 3]
         \* a fixed-means posterior asks for its own number of components
         evs == <<<<"warp_in", h(best).vp.t>>, <<"warp", s.vp.t, s.gp.t>>>>
                \o (IF o.wuc THEN <<<<"train", t + 1, s.hyp.rc, NAct(s.log), "negquad">>,
                                    <<"optvp", t + 1, NFast, o.es, Kw, t + 2, s.vp.om, s.vp.ow, s.esw, FALSE>>>>
                    ELSE <<>>)
     IN /\ s' = IF undo THEN su ELSE sw
        /\ ev' = ev \o evs
        /\ cur' = [cur EXCEPT !.a = @ \o <<"rotoscale">> \o (IF undo THEN <<"undo rotoscale">> ELSE <<>>),
                              !.scr = [w |-> TRUE, e |-> e, sd |-> f.sd, pr |-> pr, undo |-> undo]]
  /\ pc' = "sample" /\ UNCHANGED <<o, H, saved, hist, done>>

\* ---------------------------------------------------------------- sampling
\* a batch of observations: new points, provided values (first batch only),
\* and repeated measurements of a point already in the log (same value)
YVals == IF o.mood = "wild" THEN -300..20 ELSE -70..10
RECURSIVE Batch(_, _, _)
Batch(lg, n, k) ==
  IF k = n THEN <<>>
  ELSE LET dup == lg # <<>> /\ Rnd(1..12) = 1
       IN <<IF dup THEN <<"dup", Rnd({i \in DOMAIN lg : lg[i].act})>> ELSE <<"new", Rnd(YVals)>>>> \o Batch(lg, n, k + 1)
\* what the optional provided values cover is recorded as not called
RECURSIVE Apply(_, _)
Apply(lg, b) ==
  IF b = <<>> THEN lg
  ELSE LET r == Head(b)
       IN Apply(IF r[1] = "new" THEN Append(lg, [y |-> r[2], n |-> 1, act |-> TRUE])
                ELSE [lg EXCEPT ![r[2]] = [@ EXCEPT !.n = @ + 1]], Tail(b))

Sample ==
  /\ pc = "sample"
  /\ \E b \in {TLCEval(IF s.skip THEN <<>> ELSE Batch(s.log, IF It = 0 THEN o.fes ELSE o.fper, 0))} :
     LET n    == IF It = 0 THEN o.fes ELSE o.fper
         pre  == IF It = 0 THEN o.pre ELSE 0
         \* a separate search surrogate is trained in odd iterations
         sep  == ~s.skip /\ o.ssg /\ s.gp.t # 0 /\ It % 2 = 1
         t    == s.tag
         t1   == IF sep THEN t + 1 ELSE t
         hy1  == IF sep THEN [t |-> t1, rc |-> TRUE] ELSE s.hyp
         lg   == TLCEval(Apply(s.log, b))
         t2   == IF s.skip THEN t1 ELSE t1 + 1         \* sampling returns new hyperparameters
         hy2  == IF s.skip THEN hy1 ELSE [t |-> t2, rc |-> hy1.rc]
         evs  == (IF sep THEN <<<<"train", s.hyp.t, s.hyp.rc, NAct(s.log), "const">>>> ELSE <<>>)
                 \o (IF s.skip THEN <<>>
                     ELSE <<<<"sample", n, IF sep THEN t1 ELSE s.gp.t, s.vp.t, s.vp.pt, NAct(s.log), hy1.t>>>>)
     IN /\ s' = [s EXCEPT !.skip = FALSE, !.log = lg, !.fc = @ + (IF s.skip THEN 0 ELSE n - pre),
                          !.N = Len(lg), !.neff = NEff(lg), !.hyp = hy2, !.tag = t2]
        /\ ev' = ev \o evs
        /\ cur' = cur @@ [batch |-> b, pre |-> pre]
  /\ pc' = "train" /\ UNCHANGED <<o, H, saved, hist, done>>

\* -------------------------------------------------- surrogate, components
Train ==
  /\ pc = "train"
  /\ \E sn \in Pick({1, 1, 2, 3, 4}), ns \in Pick({0, 1, 2, 5}) :
       LET t  == s.tag + 1
           na == NAct(s.log)
       IN /\ s' = [s EXCEPT !.gp = [t |-> t, n |-> na], !.hyp = [t |-> t, rc |-> TRUE], !.tag = t,
                            !.stopsamp = IF ns = o.sgs /\ @ = 0 THEN s.N ELSE @]
          /\ ev' = ev \o <<<<"train", s.hyp.t, s.hyp.rc, na, "negquad">>>>
          /\ cur' = cur @@ [sn |-> sn, ns |-> ns]
  /\ pc' = "fit" /\ UNCHANGED <<o, H, saved, hist, done>>

\* requested number of components (update_K)
ElcboW(i) == h(i).e - o.eiw * h(i).sd
RequestedK ==
  IF s.warm \/ It = 0 THEN s.vpK
  ELSE LET recent == CeilDiv(o.tsc, 2 * o.fper)
           lo     == MaxI(0, It - recent)
           idx    == SelectSeq([j \in 1..(It - lo) |-> lo + j - 1], LAMBDA i : ~h(i).warm)
           \* the first two iterations considered do not count
           cand   == {idx[j] : j \in 3..Len(idx)}
           improv == Len(idx) >= 3 /\ \A i \in cand : ElcboW(It - 1) >= ElcboW(i)
           lo2    == MaxI(0, It - CeilDiv(recent, 2))
           one    == IF h(It - 1).pruned = 0 /\ improv THEN 1 ELSE 0
           bon    == IF RLt(h(It - 1).R, 1) /\ ~s.recomp /\ improv /\ \A i \in lo2..(It - 1) : h(i).pruned = 0
                     THEN o.bonus ELSE 0
       IN MaxI(s.vpK, MinI(s.vpK + one + bon, CeilDiv(s.neff, o.kdiv)))

\* slope of the bound over the recent iterations, as <<numerator, denominator>>
Slope(Hn, tsi) ==
  LET n0  == MaxI(0, It - CeilDiv(tsi, 2) + 1)
      ids == n0..It
      n   == It - n0 + 1
      xs  == [i \in 1..n |-> Hn[n0 + i].fc]
      ys  == [i \in 1..n |-> Hn[n0 + i].e - o.eiw * Hn[n0 + i].sd]
  IN <<n * SumSeq([i \in 1..n |-> xs[i] * ys[i]]) - SumSeq(xs) * SumSeq(ys),
       n * SumSeq([i \in 1..n |-> xs[i] * xs[i]]) - SumSeq(xs) * SumSeq(xs)>>

Fit ==
  /\ pc = "fit"
  /\ \E f \in {TLCEval(PickFit)},
        k \in Pick(IF o.mood = "wild" THEN {-1, 0, 1, 4, 30} ELSE {0, 1, 2}),
        dl \in Pick(IF o.mood = "calm" THEN {-1, 0, 1} ELSE {-6, 0, 2, 9}) :
     LET lcb   == (IF It = 0 THEN 0 ELSE h(It - 1).lcb) + dl
         e     == LastE + f.de
         fixed == ~s.vp.om
         K     == IF fixed THEN s.gp.n ELSE RequestedK
         full  == s.recomp \/ o.refit
         \* the number of fast starts is set by the posterior before the fit
         nf    == IF full THEN NFast ELSE CeilDiv(NFast, 4)
         pr    == IF fixed THEN 0 ELSE MinI(f.pr, K - 1)
         t     == s.tag + 1
         vp2   == [s.vp EXCEPT !.t = t, !.K = K - pr]
         tol   == NoiseTol[cur.sn]
         Rn    == (IF It < 2 THEN 0 ELSE AbsI(e - h(It - 1).e)) + f.sd + MaxI(0, k) * tol
         R     == IF It < 2 THEN RInf ELSE [n |-> Rn, d |-> 3 * tol]
         rec   == [e |-> e, sd |-> f.sd, k |-> MaxI(0, k), pruned |-> pr, fc |-> s.fc, neff |-> s.neff,
                   lcb |-> lcb, ns |-> cur.ns, R |-> R, vp |-> vp2]
         H1    == Append(H, rec @@ [st |-> FALSE, warm |-> s.warm, gpn |-> s.gp.n, N |-> s.N])
         \* termination
         tsi   == IF s.esw THEN o.tse ELSE CeilDiv(o.tsc, o.fper)
         sl    == IF It < 2 THEN <<0, 0>> ELSE Slope(H1, tsi)
         relOK == It + 1 >= tsi /\ RLt(R, 1)
         good  == Cardinality({i \in (It - tsi + 1)..(It - 1) : i >= 0 /\ RLt(H1[i + 1].R, 1)})
         most  == relOK /\ good >= tsi - ((tsi * o.exc) \div 4) - 1
         flat  == 2 * sl[1] < o.ti * sl[2]
         verd  == most /\ flat
         sw    == verd /\ s.esw
         stab  == verd /\ ~s.esw
         far   == 3 * (It - s.lastsucc) >= tsi
         over  == s.fc >= o.maxf
         overi == It + 1 >= o.maxi
         fin   == (over \/ overi \/ (stab /\ far)) /\ ~(s.fc < o.minf) /\ ~(It < o.mini)
         msg   == IF stab /\ far THEN "stable" ELSE IF overi THEN "max_iter" ELSE IF over THEN "max_fun_evals" ELSE ""
         a2    == cur.a \o (IF sw THEN <<"entropy switch">> ELSE IF stab THEN <<"stable">> ELSE <<>>)
     IN \* verdicts that hinge on rounding are left out
        /\ (tol = 10 => Rn % 30 # 0)
        /\ (most => sl[2] > 0 /\ 2 * sl[1] # o.ti * sl[2])
        /\ H' = Append(H, [rec EXCEPT !.vp = vp2] @@ [st |-> stab, warm |-> s.warm, gpn |-> s.gp.n, N |-> s.N,
                                                   msg |-> msg, slope |-> IF sl[2] > 0 THEN sl ELSE <<0, 0>>])
        /\ s' = [s EXCEPT !.vp = vp2, !.vpK = vp2.K, !.R = R, !.recomp = FALSE, !.tag = t,
                          !.esw = @ /\ ~sw]
        /\ ev' = ev \o <<<<"optvp", s.vp.t, nf, IF full THEN o.es ELSE 1, K, s.gp.t, s.vp.om, s.vp.ow, s.esw, s.warm>>,
                         <<"kl", t, cur.vpold.t>>>>
        /\ cur' = [cur EXCEPT !.a = a2] @@ [fit |-> [e |-> e, sd |-> f.sd, k |-> k, pr |-> pr, lcb |-> lcb], fin |-> fin]
  /\ pc' = "warmup" /\ UNCHANGED <<o, saved, hist, done>>

\* ----------------------------------------------------- warm-up, trimming
ElcboH(i) == ElcboW(i)
WarmupOver ==
  LET tolw   == CeilDiv(o.tsw, o.fper)
      nH     == It + 1
      cut    == MaxI(3, nH - tolw)
      now    == cut..(nH - 1)
      before == {i \in 2..(cut - 1) : i < nH}
      nowS   == {i \in now : i < nH}
      stable == /\ It > tolw /\ nowS # {} /\ before # {}
                /\ SetMax({ElcboH(i) : i \in nowS}) - SetMax({ElcboH(i) : i \in before}) < o.swt * o.fper
      rp     == MaxI(1, It - (tolw + 1))
      impro  == IF ~o.wcm THEN 0
                ELSE MaxI(0, SetMax({h(i).lcb : i \in rp..It}) - SetMax({h(i).lcb : i \in 0..(rp - 1)}))
      noRec  == impro < o.swt * o.fper
      top    == SetMax({h(i).lcb : i \in 0..It})
      first  == SetMin({i \in 0..It : 2 * h(i).lcb > 2 * top - o.ti})
      noLong == s.fc - h(first).fc > o.wni
      noTrim == s.trims = <<>> \/ s.N - s.trims[Len(s.trims)] >= 10
  IN ((stable /\ noRec) \/ noLong) /\ noTrim

\* the points kept: within the threshold of the best, at least the best D+1
Kept(lg, thr) ==
  LET top  == TLCEval(SetMax({lg[i].y : i \in DOMAIN lg}))
      near == {i \in DOMAIN lg : top - lg[i].y < thr}
      need == o.D + 1
      \* the D+1 largest values
      bestN == {i \in DOMAIN lg : Cardinality({j \in DOMAIN lg : lg[j].y > lg[i].y}) < need}
  IN IF Cardinality(near) < need THEN near \cup bestN ELSE near
NoTie(lg, thr) ==
  LET top  == TLCEval(SetMax({lg[i].y : i \in DOMAIN lg}))
      near == {i \in DOMAIN lg : top - lg[i].y < thr}
  IN Cardinality(near) < o.D + 1 =>
       Cardinality({i \in DOMAIN lg : Cardinality({j \in DOMAIN lg : lg[j].y > lg[i].y}) < o.D + 1}) = MinI(o.D + 1, Len(lg))

StateView(st) ==
  [iter |-> st.iter, warmup |-> st.warm, last_warmup |-> IF st.lastwarm = INF THEN "inf" ELSE E(st.lastwarm),
   trims |-> st.trims, wcount |-> st.wcount,
   lastwarp |-> IF st.lastwarp = -INF THEN "-inf" ELSE E(st.lastwarp),
   lastsucc |-> IF st.lastsucc = -INF THEN "-inf" ELSE E(st.lastsucc),
   skip |-> st.skip, recomp |-> st.recomp, stopsamp |-> IF st.stopsamp = INF THEN "inf" ELSE E(st.stopsamp),
   esw |-> st.esw, vpK |-> st.vpK, N |-> st.N, neff |-> st.neff, R |-> RT(st.R),
   hyp |-> st.hyp.t, rc |-> st.hyp.rc]

Warmup ==
  /\ pc = "warmup"
  /\ \E trim \in {TLCEval(s.warm /\ It > 0 /\ WarmupOver)} :
     \E end \in {trim /\ (RLt(s.R, o.swr) \/ Len(s.trims) >= 1)} :
     \E thr \in {(Len(s.trims) + 1) * (IF end THEN o.keep ELSE IF o.keepfa = -1 THEN o.keep ELSE o.keepfa)} :
     \E kept \in {TLCEval(IF trim THEN Kept(s.log, thr) ELSE {})} :
     \E lg \in {TLCEval(IF trim THEN [i \in DOMAIN s.log |-> [s.log[i] EXCEPT !.act = @ /\ i \in kept]] ELSE s.log)} :
     LET t    == IF trim THEN s.tag + 1 ELSE s.tag
         gp2  == IF trim THEN [t |-> t, n |-> NAct(lg)] ELSE s.gp
         vp2  == IF end THEN [s.vp EXCEPT !.om = o.vm, !.ow = o.vw] ELSE s.vp
         stbl == cur.ns = o.sgs /\ h(MaxI(0, It - 1)).ns > o.sgs
         a2   == cur.a \o (IF end THEN <<"end warm-up">> ELSE IF trim THEN <<"trim data">> ELSE <<>>)
                 \o (IF ~stbl THEN <<>> ELSE IF cur.ns = 0 THEN <<"switch to GP opt">> ELSE <<"stable GP sampling">>)
         s2   == [s EXCEPT !.log = lg, !.warm = @ /\ ~end, !.lastwarm = IF end THEN It ELSE @,
                           !.trims = IF trim /\ ~end THEN Append(@, s.N) ELSE @,
                           !.skip = IF trim THEN o.skipaw ELSE @, !.recomp = IF trim THEN TRUE ELSE @,
                           !.gp = gp2, !.vp = vp2, !.tag = t,
                           !.hyp = IF end THEN [@ EXCEPT !.rc = FALSE] ELSE @]
         ev2  == ev \o (IF trim THEN <<<<"reupdate", s.gp.t, NAct(lg)>>>> ELSE <<>>)
         r    == [H[It + 1] EXCEPT !.warm = s2.warm, !.vp = vp2, !.gpn = gp2.n]
         H2   == [H EXCEPT ![It + 1] = r]
         acts == [i \in DOMAIN lg |-> lg[i].act]
     IN /\ (trim => NoTie(s.log, thr))
        /\ s' = s2 /\ H' = H2 /\ saved' = Append(saved, s2)
        /\ cur' = [cur EXCEPT !.a = a2]
        /\ hist' = Append(hist,
             [op |-> "iter", scr |-> [batch |-> cur.batch, pre |-> cur.pre, sn |-> cur.sn, ns |-> cur.ns,
                                      fit |-> cur.fit, warp |-> cur.scr],
              exp |-> [ev |-> ev2, act |-> a2, r |-> RT(r.R),
                       impro |-> IF r.slope[2] > 0 THEN E(Div(Rat(r.slope[1], r.slope[2]), 4)) ELSE IF It < 2 THEN "nan" ELSE "any",
                       stable |-> r.st, warmup |-> r.warm, N |-> s2.N, neff |-> r.neff, fc |-> r.fc,
                       elbo |-> E(Rat(r.e, 4)), elbo_sd |-> E(Rat(r.sd, 4)), sKL |-> E(Rat(r.k, 8)),
                       lcb |-> E(Rat(r.lcb, 4)), pruned |-> r.pruned, ns |-> r.ns,
                       vp |-> <<r.vp.t, r.vp.K, r.vp.om, r.vp.ow, r.vp.pt>>, gp |-> <<gp2.t, gp2.n>>,
                       log |-> [act |-> acts, n |-> [i \in DOMAIN lg |-> lg[i].n], y |-> [i \in DOMAIN lg |-> lg[i].y]],
                       consistent |-> TRUE,
                       st |-> StateView(s2)]])
        /\ pc' = IF cur.fin THEN "final" ELSE "begin"
  /\ ev' = <<>> /\ UNCHANGED <<o, done>>

\* ------------------------------------------------------------ end of a run
EntCount(K, kind) == IF kind = "more" THEN 20 * K ELSE 10 * K
FinCount(K, kind) == IF kind = "more" THEN 80 * K ELSE 40 * K
Final ==
  /\ pc = "final"
  /\ \E f \in {TLCEval(PickFit)} :
     LET m    == Len(H) - 1
         b    == BestIdx(m, 5, 1)
         v    == h(b).vp
         K    == MaxI(v.K, o.mfc)
         do   == o.boost /\ (v.K < o.mfc \/ EntCount(K, o.entb) # 10 * K \/ FinCount(K, o.finb) # 40 * K)
         t    == s.tag + 1
         Kb   == IF o.vm THEN K ELSE K
         vpb  == [v EXCEPT !.t = t, !.K = Kb, !.om = o.vm, !.ow = o.vw]
         e    == IF do THEN h(b).e + f.de ELSE h(b).e
         sd   == IF do THEN f.sd ELSE h(b).sd
         evs  == IF do THEN <<<<"boost", v.t, CeilDiv(o.nel * K, 4), 1, K, saved[b + 1].gp.t, o.vm, o.vw, saved[Len(saved)].esw,
                                EntCount(K, o.entb), 0, FinCount(K, o.finb), 0>>, <<"kl", t, cur.vpold.t>>>>
                 ELSE <<>>
     IN /\ hist' = Append(hist,
             [op |-> "final", scr |-> [e |-> e, sd |-> sd, do |-> do],
              exp |-> [ev |-> evs, best |-> b, iters |-> m, fc |-> s.fc, train |-> h(b).neff,
                       comp |-> IF do THEN Kb ELSE v.K, r |-> RT(h(b).R), status |-> IF h(b).st THEN "probable" ELSE "no",
                       success |-> h(b).st, stable |-> h(b).st, elbo |-> E(Rat(e, 4)), elbo_sd |-> E(Rat(sd, 4)),
                       msg |-> h(m).msg, vp |-> IF do THEN t ELSE v.t,
                       hvps |-> [i \in 1..(m + 1) |-> <<H[i].vp.t, H[i].vp.K>>],
                       independent |-> TRUE, unaltered |-> TRUE, lens |-> m + 1,
                       best2 |-> [i \in 1..(m + 1) |-> <<BestIdx(i - 1, 5, 1), BestIdx(i - 1, 1, 2), BestIdx(i - 1, 0, 4),
                                                         IF i + 4 > m THEN RankBest(i - 1, 5) ELSE -1,
                                                         IF i + 4 > m THEN RankBest(i - 1, 1) ELSE -1>>]]])
        /\ s' = [s EXCEPT !.tag = IF do THEN t ELSE @, !.vp = IF do THEN vpb ELSE v, !.warm = @ /\ ~do]
  /\ pc' = IF WithReload /\ Len(hist) < MaxSteps THEN "reload" ELSE "end"
  /\ UNCHANGED <<o, H, saved, cur, ev, done>>

\* ------------------------------------- continuing, or reloading and continuing
Continue ==
  /\ pc = "reload"
  /\ \E k \in Pick({-1} \cup 0..(Len(H) - 1)), mi \in Pick({2, 4}), mf \in Pick({10, 30}) :
       LET n  == IF k = -1 THEN Len(H) - 1 ELSE k
           \* everything comes from the record, except that continuing in place
           \* keeps the live log, surrogate and hyperparameters (which are equal)
           s0 == [saved[n + 1] EXCEPT !.tag = s.tag]
       IN /\ s' = s0 /\ H' = SubSeq(H, 1, n + 1) /\ saved' = SubSeq(saved, 1, n + 1)
          /\ o' = IF k = -1 THEN o ELSE [o EXCEPT !.maxi = n + 1 + mi, !.maxf = s0.fc + mf]
          /\ hist' = Append(hist, [op |-> IF k = -1 THEN "continue" ELSE "reload", k |-> n, maxi |-> n + 1 + mi, maxf |-> s0.fc + mf,
                                   exp |-> [len |-> n + 1, vp |-> s0.vp.t, gp |-> s0.gp.t, nact |-> NAct(s0.log), fc |-> s0.fc,
                                            st |-> StateView(s0)]])
  /\ pc' = "begin" /\ UNCHANGED <<cur, ev, done>>

Stop == /\ ((pc = "reload" /\ (~Sim \/ Rnd(1..3) = 1)) \/ pc = "end") /\ ~done /\ done' = TRUE /\ pc' = "end"
        /\ UNCHANGED <<o, s, H, saved, cur, ev, hist>>

Next == Choose \/ Begin \/ Warp \/ Sample \/ Train \/ Fit \/ Warmup \/ Final \/ (~done /\ Continue) \/ Stop
Spec == Init /\ [][Next]_vars

\* ------------------------------------------------- properties of the design
Running == pc \notin {"choose", "end"}
\* P02: an iteration starts only below the budgets (or below the minima)
Budget == pc = "begin" /\ Len(H) > 0 /\ (hist # <<>> /\ hist[Len(hist)].op = "iter")
            => \/ s.fc < o.maxf /\ It + 1 < o.maxi
               \/ s.fc < o.minf \/ It < o.mini
NeverShort == pc = "final" => s.fc >= o.minf /\ It >= o.mini
\* P06
AtLeastKept == Running /\ Len(s.log) >= o.D + 1 => NAct(s.log) >= MinI(o.D + 1, Len(s.log))
WarmupOnce  == \A i, j \in 1..Len(H) : i < j /\ pc # "warmup" /\ H[j].warm => H[i].warm
TrimSpacing == Running => \A i \in 1..(Len(s.trims) - 1) : s.trims[i + 1] - s.trims[i] >= 10
OneFalseAlarm == Running => Len(s.trims) <= 1
\* P05
StableMeans == \A i \in 1..Len(H) : H[i].st => RLt(H[i].R, 1)
\* P09
Complete == pc = "begin" => Len(H) = It + 1 /\ Len(saved) = It + 1 /\ (It >= 0 => saved[It + 1].fc = H[It + 1].fc /\ saved[It + 1].vp = H[It + 1].vp)
\* P12: after an undone warp only the counters differ
WarpCount == Running => s.wcount >= 0 /\ (s.lastsucc <= s.lastwarp)
\* P16
KBounds == pc \in {"begin", "final"} /\ Len(H) > 0 => s.vp.K >= 1 /\ s.vpK = H[Len(H)].vp.K
Emit == done => PrintT(ToJson(hist))
=============================================================================

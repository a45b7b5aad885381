------------------------------ MODULE RunTrace ------------------------------
(* Whole real runs.  In mode "plan" the specification draws problems and options; the
   harness runs the real solver on them, with all its numerical stages, and records a
   trace.  In mode "check" the trace of a run is read back and the specification follows
   it: what the numerical stages returned (bounds, divergences, reliability inputs,
   values of the target) is taken from the trace, everything else is predicted, iteration
   by iteration, and compared with what was recorded.

   Reals of the trace come as integers, in 1/10000 (clamped), used in decisions; a
   decision that could hinge on rounding is followed, not predicted.  The exact values are
   known to the harness under names ("$e3": the bound of iteration 3), used in terms. *)
EXTENDS Term, FiniteSets, TLC, Json, SequencesExt
CONSTANTS Mode, Sim
VARIABLES run, i, s, hist, done
vars == <<run, i, s, hist, done>>
Rnd(S) == RandomElement(IF done THEN {} ELSE S)
Wt(q)  == q[Rnd(DOMAIN q)]
CeilDiv(a, b) == (a + b - 1) \div b
MaxI(a, b) == IF a >= b THEN a ELSE b
MinI(a, b) == IF a <= b THEN a ELSE b
SetMax(S) == CHOOSE x \in S : \A y \in S : y <= x
SetMin(S) == CHOOSE x \in S : \A y \in S : x <= y
RECURSIVE SumSeq(_)
SumSeq(q) == IF q = <<>> THEN 0 ELSE Head(q) + SumSeq(Tail(q))
INF == 99999

\* ------------------------------------------------------------------- plans
Plan == LET D == Wt(<<1, 2, 2, 2, 3>>) nx == Wt(<<1, 1, 2, 3>>) IN
 [D |-> D, tgt |-> Wt(<<"gauss", "gauss", "curved", "bimodal">>), bnd |-> Wt(<<"none", "box", "mixed">>), lvl |-> Wt(<<0, 0, 0, 0, 1, 2>>),
  nx |-> nx, pre |-> Wt(<<0, 0, nx>>), seed |-> Rnd(1..10000), fes |-> Rnd({6, 8}), fper |-> Rnd({2, 3}), prior |-> Rnd(BOOLEAN),
  maxf |-> Wt(<<18, 24, 200, 200>>), minf |-> Wt(<<0, 0, 22>>), maxi |-> Wt(<<5, 8, 11, 11, 14>>), mini |-> Wt(<<0, 0, 5>>),
  tsc |-> Wt(<<9, 11>>), exc |-> Rnd(0..2), ti |-> Wt(<<2, 20, 100, 400>>), tsd |-> Wt(<<10, 50, 400>>), tskl |-> Wt(<<12, 50, 400>>),
  esw |-> Wt(<<TRUE, FALSE, FALSE, FALSE, FALSE, FALSE>>), tse |-> 4, efs |-> Rnd(1..4), detmin |-> 1,
  warm |-> Wt(<<TRUE, TRUE, FALSE>>), tsw |-> Wt(<<3, 5, 8>>), swt |-> Wt(<<5, 20, 100>>), wcm |-> Wt(<<TRUE, FALSE>>), wni |-> Wt(<<5, 9, 30>>),
  swr |-> Wt(<<1, 5, 1000>>), keep |-> Wt(<<2, 5, 10>>), keepfa |-> Wt(<<-1, 3, 100>>), skipaw |-> Rnd(BOOLEAN), vw |-> Wt(<<TRUE, TRUE, FALSE>>),
  we |-> Wt(<<1, 1, 2>>), winc |-> Rnd(BOOLEAN), wmk |-> Wt(<<1, 2>>), wtr |-> Wt(<<10, 1000>>), wuc |-> Wt(<<TRUE, TRUE, FALSE>>),
  wti |-> Wt(<<-10000, 10, 1000>>), wrot |-> Wt(<<TRUE, TRUE, FALSE>>),
  boost |-> Wt(<<TRUE, TRUE, FALSE>>), mfc |-> Rnd({2, 6}), entb |-> Rnd({"none", "same", "more"}),
  sgs |-> Wt(<<0, 1>>), sgN |-> Wt(<<16, 22, 200>>), nsgp |-> Wt(<<0, 7, 7>>), nsw |-> Wt(<<1, 2>>), eiw |-> Wt(<<1, 3>>), kw |-> Rnd({1, 2, 3}),
  kdiv |-> Rnd({2, 4}), bonus |-> Rnd(0..2), twt |-> Wt(<<1, 10, 30>>), srch |-> Wt(<<"none", "none", "cmaes">>), mean |-> Wt(<<"negquad", "negquad", "const">>),
  mood |-> Wt(<<"any", "stable", "warp", "warmup">>)]
\* some combinations that make particular situations frequent
Mood(p) ==
  CASE p.mood = "stable" -> [p EXCEPT !.tgt = "gauss", !.lvl = 0, !.tsd = 400, !.tskl = 400, !.ti = 400, !.maxi = 14, !.maxf = 200, !.exc = 2]
    [] p.mood = "warp" -> [p EXCEPT !.D = MaxI(2, p.D), !.warm = FALSE, !.wrot = TRUE, !.wtr = 1000, !.wmk = 1, !.maxi = 8, !.maxf = 200]
    [] p.mood = "warmup" -> [p EXCEPT !.warm = TRUE, !.tsw = 3, !.wni = 5, !.maxi = 11, !.maxf = 200]
    [] OTHER -> p
PlanStep == /\ Mode = "plan" /\ ~done /\ done' = TRUE
            /\ \E p \in {TLCEval(Plan)} : hist' = <<[op |-> "plan", a |-> Mood(p)]>>
            /\ UNCHANGED <<run, i, s>>

\* ------------------------------------------------------------------ traces
T == IF Mode = "check" THEN JsonDeserialize("trace.json") ELSE <<>>
o == T[run].cfg
tr == T[run].t           \* one record per iteration
t(k) == tr[k + 1]
NIt == Len(tr)
G == 10                  \* margin for decisions on rounded values
Nm(a, k) == "$" \o a \o ToString(k)

Start0(c) ==
  [warm |-> c.warm, lastwarm |-> IF c.warm THEN INF ELSE 0, trims |-> <<>>, wcount |-> 0, lastwarp |-> -INF, lastsucc |-> -INF,
   skip |-> FALSE, recomp |-> TRUE, stopsamp |-> IF c.nsgp > 0 THEN 0 ELSE INF, esw |-> c.esw /\ c.D >= c.detmin, vpK |-> c.kw,
   N |-> 0, fc |-> 0, act |-> <<>>, ne |-> <<>>, calls |-> <<>>, ow |-> ~c.warm /\ c.vw, wh |-> <<>>]

Init == /\ i = -1 /\ hist = <<>> /\ done = FALSE
        /\ IF Mode = "plan" THEN run = 0 /\ s = [x |-> 0]
           ELSE /\ run \in 1..Len(T)
                /\ s = Start0(T[run].cfg)

\* a criterion with a margin is decided if both signs of the margin agree
Decide(lo, hi, obs) == IF lo = hi THEN hi ELSE obs
Certain(lo, hi) == lo = hi
E1(k) == t(k).e - o.eiw * t(k).sd
WarmAt(k) == s.wh[k + 1]      \* warm-up flag recorded for iteration k
RLt(k, x, g) == t(k).r < x * 10000 + g

\* ---- reparameterisation
Delay == IF o.winc THEN o.we * MaxI(1, s.wcount) ELSE o.we
WarpG(it, g) == /\ o.wrot /\ it > 0 /\ ~s.warm /\ it - s.lastwarp > Delay /\ (it > 0 => t(it - 1).K >= o.wmk) /\ o.D > 1
                /\ (it > 0 => RLt(it - 1, o.wtr, g))
\* kept only if the bound improves by the tolerance without the uncertainty blowing up; values of the new fit, where known
WarpKeep(it, g) == LET x == t(it).wfit p == t(it - 1) IN
   ~(x.e < p.e + 100 * o.wti - g \/ x.sd > 2 * p.sd + 10000 + g)

\* ---- components
NEff(a) == SumSeq([k \in DOMAIN a.act |-> IF a.act[k] THEN a.ne[k] ELSE 0])
ReqK(it, g, a) ==
  IF a.warm \/ it = 0 THEN a.vpK
  ELSE LET recent == CeilDiv(o.tsc, 2 * o.fper)
           lo     == MaxI(0, it - recent)
           idx    == SelectSeq([j \in 1..(it - lo) |-> lo + j - 1], LAMBDA k : ~WarmAt(k))
           cand   == {idx[j] : j \in 3..Len(idx)}
           improv == Len(idx) >= 3 /\ \A k \in cand : k = it - 1 \/ E1(it - 1) + g >= E1(k)
           lo2    == MaxI(0, it - CeilDiv(recent, 2))
           one    == IF t(it - 1).pruned = 0 /\ improv THEN 1 ELSE 0
           bon    == IF RLt(it - 1, 1, g) /\ ~a.recomp /\ improv /\ \A k \in lo2..(it - 1) : t(k).pruned = 0 THEN o.bonus ELSE 0
       IN MaxI(a.vpK, MinI(a.vpK + one + bon, CeilDiv(NEff(a), o.kdiv)))

\* ---- reliability and stability
TolSd(it) == LET sn == Sqrt(Nm("n", it)) td == Rat(o.tsd, 100) IN
             Min2(Max2(td, Mul(Sqrt(Div(sn, td)), td)), Mul(10, td))
RTerm(it) == IF it < 2 THEN "inf"
             ELSE E(Div(SumT(<<Div(Abs(Sub(Nm("e", it), Nm("e", it - 1))), TolSd(it)), Div(Nm("s", it), TolSd(it)),
                              Div(Nm("k", it), Rat(o.tskl, 100))>>), 3))
Tsi(sw) == IF sw THEN o.tse ELSE CeilDiv(o.tsc, o.fper)
SlopeT(it, tsi) ==
  LET n0 == MaxI(0, it - CeilDiv(tsi, 2) + 1) n == it - n0 + 1
      x(k) == t(n0 + k - 1).fc
      y(k) == Sub(Nm("e", n0 + k - 1), Mul(o.eiw, Nm("s", n0 + k - 1)))
      Sx == SumSeq([k \in 1..n |-> x(k)]) Sxx == SumSeq([k \in 1..n |-> x(k) * x(k)])
      den == n * Sxx - Sx * Sx
  IN IF it < 2 THEN "nan" ELSE IF den = 0 THEN "any"
     ELSE E(Div(SumT([k \in 1..n |-> Mul(n * x(k) - Sx, y(k))]), den))
StableG(it, tsi, g) ==
  /\ it + 1 >= tsi /\ it >= 2 /\ RLt(it, 1, g) /\ t(it).sl < 100 * o.ti + g
  /\ Cardinality({k \in (it - tsi + 1)..(it - 1) : k >= 0 /\ RLt(k, 1, g)}) >= tsi - ((tsi * o.exc) \div 4) - 1

\* ---- warm-up
WarmupG(it, g, a) ==
  LET tolw   == CeilDiv(o.tsw, o.fper)
      nH     == it + 1
      cut    == MaxI(3, nH - tolw)
      now    == {k \in cut..(nH - 1) : k < nH}
      before == {k \in 2..(cut - 1) : k < nH}
      thr    == 1000 * o.swt * o.fper
      stable == it > tolw /\ now # {} /\ before # {} /\ SetMax({E1(k) : k \in now}) - SetMax({E1(k) : k \in before}) < thr + g
      rp     == MaxI(1, it - (tolw + 1))
      impro  == IF ~o.wcm THEN 0 ELSE MaxI(0, SetMax({t(k).lcb : k \in rp..it}) - SetMax({t(k).lcb : k \in 0..(rp - 1)}))
      top    == SetMax({t(k).lcb : k \in 0..it})
      first  == SetMin({k \in 0..it : t(k).lcb > top - 100 * o.ti - g})
      noLong == a.fc - t(first).fc > o.wni
      noTrim == a.trims = <<>> \/ a.N - a.trims[Len(a.trims)] >= 10
  IN ((stable /\ impro < thr + g) \/ noLong) /\ noTrim
\* points kept: near the best, at least the D+1 best
NearG(y, thr, g) == LET top == SetMax({y[k] : k \in DOMAIN y}) IN {k \in DOMAIN y : top - y[k] < 10000 * thr + g}
BestN(y, g) == {k \in DOMAIN y : Cardinality({j \in DOMAIN y : y[j] > y[k] + g}) < o.D + 1}
KeptG(y, thr, g) == IF Cardinality(NearG(y, thr, g)) < o.D + 1 THEN NearG(y, thr, g) \cup BestN(y, g) ELSE NearG(y, thr, g)

\* k-th new observation (p of them given, not evaluated): a repeated point keeps its row.  T[run].rows
\* names the row of the point of each call, counting distinct points in the order they came up.
Observe(a, k, p, fc0) ==
  LET c == fc0 + k - p rep == k > p /\ c <= Len(T[run].rows) /\ T[run].rows[c] <= a.N
      r == T[run].rows[c]
  IN IF rep THEN [a EXCEPT !.ne[r] = @ + 1]
     ELSE [a EXCEPT !.N = @ + 1, !.act = Append(@, TRUE), !.ne = Append(@, 1), !.calls = Append(@, IF k <= p THEN 0 ELSE c)]
Stopped(a) == a.stopsamp > 0 \/ a.N >= o.sgN
NsT(a) == IF Stopped(a) THEN o.sgs ELSE E(<<"round", Min2(Div(o.nsgp, Sqrt(a.N)), IF a.warm THEN o.nsw ELSE 2)>>)
ActIdx(act) == SelectSeq([k \in DOMAIN act |-> k], LAMBDA k : act[k])

Iter ==
  /\ Mode = "check" /\ ~done /\ i + 1 < NIt
  /\ \E it \in {i + 1} :
     LET ob     == t(it)
         force  == s.esw /\ 4 * s.fc >= o.efs * o.maxf
         esw1   == s.esw /\ ~force
         wsure  == Certain(WarpG(it, -G), WarpG(it, G))
         warp   == Decide(WarpG(it, -G), WarpG(it, G), ob.warp)
         ksure  == warp /\ (~o.wuc \/ (ob.wfit.known /\ Certain(WarpKeep(it, -G), WarpKeep(it, G))))
         kept   == warp /\ (IF ~o.wuc THEN TRUE ELSE IF ksure THEN WarpKeep(it, G) ELSE ob.kept)
         a1     == IF ~warp THEN s
                   ELSE IF kept THEN [s EXCEPT !.wcount = @ + 1, !.lastwarp = it, !.lastsucc = it, !.skip = TRUE, !.recomp = TRUE,
                                               !.vpK = IF o.wuc THEN ob.wfit.K ELSE @]
                   ELSE [s EXCEPT !.wcount = @ + 2, !.lastwarp = it]
         \* sampling
         pre    == IF it = 0 THEN MinI(o.pre, o.fes) ELSE 0
         new    == IF a1.skip THEN 0 ELSE IF it = 0 THEN o.fes ELSE o.fper
         a2     == FoldLeft(LAMBDA a, k : Observe(a, k, pre, s.fc), [a1 EXCEPT !.skip = FALSE, !.fc = @ + new - pre], [k \in 1..new |-> k])
         \* surrogate
         a3     == [a2 EXCEPT !.stopsamp = IF ob.ns = o.sgs /\ @ = 0 THEN a2.N ELSE @]
         \* components
         Klo    == ReqK(it, -G, a3)
         Khi    == ReqK(it, G, a3)
         Kok    == Klo = Khi /\ a1.vpK > 0
         K      == IF Kok THEN Klo ELSE ob.K + ob.pruned
         full   == a3.recomp
         \* verdicts
         tsi    == Tsi(esw1)
         ssure  == Certain(StableG(it, tsi, -G), StableG(it, tsi, G))
         verd   == Decide(StableG(it, tsi, -G), StableG(it, tsi, G), ob.st \/ (esw1 /\ ~ob.esw))
         stab   == verd /\ ~esw1
         far    == 3 * (it - a3.lastsucc) >= tsi
         over   == a3.fc >= o.maxf
         overi  == it + 1 >= o.maxi
         fin    == (over \/ overi \/ (stab /\ far)) /\ ~(a3.fc < o.minf) /\ ~(it < o.mini)
         msg    == IF stab /\ far THEN "stable" ELSE IF overi THEN "max_iter" ELSE IF over THEN "max_fun_evals" ELSE ""
         a4     == [a3 EXCEPT !.esw = esw1 /\ ~verd, !.recomp = FALSE, !.vpK = ob.K]
         \* warm-up
         tsure  == a4.warm /\ it > 0 => Certain(WarmupG(it, -G, a4), WarmupG(it, G, a4))
         trim   == a4.warm /\ it > 0 /\ Decide(WarmupG(it, -G, a4), WarmupG(it, G, a4), ob.trim)
         early  == RLt(it, o.swr, -G) \/ Len(a4.trims) >= 1
         late   == RLt(it, o.swr, G) \/ Len(a4.trims) >= 1
         end    == trim /\ Decide(early, late, ~ob.warm)
         thr    == (Len(a4.trims) + 1) * (IF end THEN o.keep ELSE IF o.keepfa = -1 THEN o.keep ELSE o.keepfa)
         lo     == IF trim THEN KeptG(ob.y, thr, -G) ELSE {}
         hi     == IF trim THEN KeptG(ob.y, thr, G) ELSE {}
         fsure  == lo = hi /\ (trim => tsure)
         act    == IF ~trim THEN a4.act ELSE IF fsure THEN [k \in DOMAIN a4.act |-> a4.act[k] /\ k \in hi] ELSE ob.act
         stbl   == ob.ns = o.sgs /\ t(MaxI(0, it - 1)).ns > o.sgs
         a5     == [a4 EXCEPT !.act = act, !.warm = @ /\ ~end, !.lastwarm = IF end THEN it ELSE @,
                              !.trims = IF trim /\ ~end THEN Append(@, a4.N) ELSE @, !.skip = IF trim THEN o.skipaw ELSE @,
                              !.recomp = @ \/ trim, !.ow = IF end THEN o.vw ELSE @, !.wh = Append(@, a4.warm /\ ~end)]
         acts   == (IF it = 0 /\ s.warm THEN <<"start warm-up">> ELSE <<>>) \o (IF force THEN <<"entropy switch">> ELSE <<>>)
                   \o (IF warp THEN <<"rotoscale">> \o (IF kept THEN <<>> ELSE <<"undo rotoscale">>) ELSE <<>>)
                   \o (IF verd THEN (IF stab THEN <<"stable">> ELSE <<"entropy switch">>) ELSE <<>>)
                   \o (IF end THEN <<"end warm-up">> ELSE IF trim THEN <<"trim data">> ELSE <<>>)
                   \o (IF ~stbl THEN <<>> ELSE IF ob.ns = 0 THEN <<"switch to GP opt">> ELSE <<"stable GP sampling">>)
         nact   == NEff(a4)
     IN /\ s' = a5 /\ i' = it
        /\ hist' = Append(hist,
             [op |-> "iter", a |-> [it |-> it],
              exp |-> [acts |-> acts, warp |-> warp, kept |-> kept,
                       N |-> a5.N, fc |-> a5.fc, neff |-> nact, calls |-> a5.calls, inside |-> TRUE, lognow |-> TRUE, keptlog |-> TRUE,
                       act |-> act, gpidx |-> ActIdx(act), gps2 |-> TRUE, coords |-> TRUE, pt |-> IF kept THEN "any" ELSE FALSE,
                       ns |-> NsT(a2),
                       K |-> IF Kok THEN E(Sub(K, Nm("p", it))) ELSE "any", shapes |-> TRUE,
                       weights |-> TRUE, pruned |-> IF a1.ow THEN "any" ELSE E(0),
                       fit |-> IF ob.fit.known THEN [K |-> IF Kok THEN K ELSE "any", ns |-> IF full THEN 2 ELSE 1, om |-> TRUE, ow |-> a1.ow] ELSE "any",
                       elbo |-> E(Add(Nm("g", it), Nm("h", it))), elbo_sd |-> E(Sqrt(Add(Sqr(Nm("gs", it)), Sqr(Nm("hs", it))))),
                       elj |-> E(Nm("gw", it)), eljnow |-> TRUE, stat |-> E(Nm("e", it)), statsd |-> E(Nm("s", it)),
                       lcb |-> IF trim THEN "any" ELSE E(Nm("l", it)),
                       r |-> RTerm(it), slope |-> SlopeT(it, tsi), stable |-> stab, last |-> fin,
                       warmup |-> a5.warm, trims |-> a5.trims, last_warmup |-> IF a5.lastwarm = INF THEN "inf" ELSE E(a5.lastwarm),
                       wcount |-> a5.wcount, lastwarp |-> IF a5.lastwarp = -INF THEN "-inf" ELSE E(a5.lastwarp),
                       lastsucc |-> IF a5.lastsucc = -INF THEN "-inf" ELSE E(a5.lastsucc),
                       skip |-> a5.skip, recomp |-> a5.recomp, esw |-> a5.esw, vpK |-> a5.vpK,
                       stopsamp |-> IF a5.stopsamp = INF THEN "inf" ELSE E(a5.stopsamp), agree |-> TRUE,
                       msg |-> IF fin THEN msg ELSE "any"]])
  /\ UNCHANGED <<run, done>>

\* ---- end: the best solution, its refinement and the summary
\* decided only if the winner is clear
Elcbo5(k) == t(k).e - 5 * t(k).sd
Best == LET m == NIt - 1 IN
  IF t(m).st THEN {m}
  ELSE LET st == {k \in 0..m : t(k).st}
           lo == IF st = {} THEN MaxI(0, CeilDiv(3 * m, 4)) ELSE SetMax(st)
           top == SetMax({Elcbo5(k) : k \in lo..m})
       IN {k \in lo..m : Elcbo5(k) >= top - G}
Final ==
  /\ Mode = "check" /\ ~done /\ i + 1 = NIt
  /\ LET f  == T[run].f
         b  == IF Cardinality(Best) = 1 THEN CHOOSE k \in Best : TRUE ELSE f.best
         v  == t(b)
         K  == MaxI(v.K, o.mfc)
         do == o.boost /\ (v.K < o.mfc \/ o.entb = "more")
     IN hist' = Append(hist,
          [op |-> "final", a |-> [best |-> b],
           exp |-> [best |-> b, iters |-> NIt - 1, fc |-> s.fc, calls |-> s.fc, train |-> E(Nm("ne", b)), K |-> IF do THEN K ELSE v.K, rK |-> IF do THEN K ELSE v.K,
                    r |-> IF b < 2 THEN "inf" ELSE E(Nm("r", b)), status |-> IF v.st THEN "probable" ELSE "no", success |-> v.st, stable |-> v.st,
                    problem |-> IF o.bnd = "none" THEN "unconstrained" ELSE "bounded",
                    elbo |-> E(Nm("fe", 0)), elbo_sd |-> E(Nm("fs", 0)), same |-> IF do THEN "any" ELSE TRUE, lens |-> NIt,
                    boost |-> IF ~f.bk THEN "any" ELSE IF do THEN [done |-> TRUE, K |-> K, start |-> b, gp |-> b, tolw |-> TRUE] ELSE [done |-> FALSE],
                    independent |-> TRUE, state |-> TRUE, elbosum |-> TRUE]])
  /\ done' = TRUE /\ UNCHANGED <<run, i, s>>

Next == PlanStep \/ Iter \/ Final
Spec == Init /\ [][Next]_vars
\* properties of the specification along the traces
TrimKeeps  == Mode = "check" /\ i >= 0 /\ s.N >= o.D + 1 => Cardinality({k \in DOMAIN s.act : s.act[k]}) >= o.D + 1
OneAlarm   == Mode = "check" => Len(s.trims) <= 1
WarmOnce   == Mode = "check" => \A a, b \in DOMAIN s.wh : a < b /\ s.wh[b] => s.wh[a]
LogLen     == Mode = "check" => Len(s.act) = s.N /\ Len(s.ne) = s.N /\ Len(s.calls) = s.N
Emit == done => PrintT(ToJson(<<[op |-> "run", a |-> [run |-> run], exp |-> [ok |-> TRUE]]>> \o hist))
=============================================================================

------------------------------- MODULE Active -------------------------------
(* Acquisition of data: the initial design (mode "init"), active sampling steps (mode
   "active") and the search sets (mode "search").
   Coordinates are given in eighths of original units.  Kinds: "u" unbounded (plausible box
   -1..1: transformed coordinate = x / 2), "b" bounded to -3.5..3.5, "i" bounded likewise and
   integer.  Acquisition values, outcomes of the local search and function values are
   scripted; ties are avoided. *)
EXTENDS Term, FiniteSets, TLC, Json, SequencesExt
CONSTANTS Depth, Sim, Mode
VARIABLES cf, obs, box, hist, done
vars == <<cf, obs, box, hist, done>>
Rnd(S) == RandomElement(IF done THEN {} ELSE S)
Wt(q)  == q[Rnd(DOMAIN q)]
Log1(op, a, e) == hist' = Append(hist, [op |-> op, a |-> a, exp |-> e])
Bit(n, d) == Rnd(1..d) <= n

\* --- the log: observations [x, ys, ss] in order
Add1(os, x, y, s) == LET k == {i \in DOMAIN os : os[i].x = x} IN
  IF k = {} THEN Append(os, [x |-> x, ys |-> <<y>>, ss |-> <<s>>]) ELSE [os EXCEPT ![CHOOSE i \in k : TRUE] = [@ EXCEPT !.ys = Append(@, y), !.ss = Append(@, s)]]
Wgt(s) == Div(64, s * s)          \* noise SD in eighths
View2(c, os) == LET yy(o) == IF c.lvl = 0 THEN Rat(FoldLeft(LAMBDA a, b : a + b, 0, o.ys), 16 * Len(o.ys))
                              ELSE Div(SumT([k \in DOMAIN o.ys |-> Mul(Rat(o.ys[k], 16), Wgt(o.ss[k]))]), SumT([k \in DOMAIN o.ss |-> Wgt(o.ss[k])]))
  IN [x |-> [i \in DOMAIN os |-> [d \in 1..c.D |-> E(Rat(os[i].x[d], 8))]], y |-> [i \in DOMAIN os |-> E(yy(os[i]))],
      s2 |-> IF c.lvl = 0 THEN <<>> ELSE [i \in DOMAIN os |-> E(Div(1, SumT([k \in DOMAIN os[i].ss |-> Wgt(os[i].ss[k])])))], n |-> [i \in DOMAIN os |-> Len(os[i].ys)]]
Pt2(c, x) == [d \in 1..c.D |-> E(Rat(x[d], 8))]
View(os) == View2(cf, os)
Pt(x) == [d \in 1..cf.D |-> E(Rat(x[d], 8))]
Sd(lvl) == IF lvl = 2 THEN Rnd(1..24) ELSE 8

Cfg0(D) == [D |-> D, lvl |-> Wt(<<0, 0, 1, 2>>), ty |-> TLCEval([d \in 1..D |-> TLCEval(IF Mode = "init" THEN Wt(<<"u", "b">>) ELSE Wt(<<"u", "u", "b", "i">>))]),
            tol |-> Wt(<<"wide", "std">>)]
Init == cf = [D |-> 0] /\ obs = <<>> /\ box = <<>> /\ hist = <<>> /\ done = FALSE

\* --- initial design
Xs0(D, n) == [i \in 1..n |-> TLCEval([d \in 1..D |-> TLCEval(Rnd(-7..7))])]
InitDesign ==
  /\ ~done /\ Mode = "init" /\ Len(hist) < Depth
  /\ \E D \in {TLCEval(Rnd(1..3))}, np \in {TLCEval(Wt(<<1, 1, 2, 3, 5, 8>>))}, n0 \in {TLCEval(Wt(<<1, 2, 4, 7, 10, 200>>))} :
     \E c \in {TLCEval(Cfg0(D))}, xs \in {TLCEval(Xs0(D, np))}, given \in {TLCEval(Wt(<<"none", "none", "some", "all", "bad">>))}, design \in {TLCEval(Wt(<<"plausible", "plausible", "narrow", "other">>))} :
     \E vals \in {TLCEval([i \in 1..np |-> TLCEval([has |-> given = "all" \/ (given = "some" /\ Rnd(1..2) = 1), y |-> Rnd(-80..80)])])}, rep \in {TLCEval(Bit(1, 4))},
        ev \in {TLCEval([i \in 1..np |-> TLCEval([y |-> Rnd(-80..80), s |-> Sd(c.lvl)])])} :
        LET pts == IF rep /\ np > 1 THEN [xs EXCEPT ![np] = xs[1]] ELSE xs
            m == IF np < n0 THEN np ELSE n0
            used == SubSeq(pts, 1, m)
            bad == given = "bad"
            unk == design = "other" /\ np < n0
            \* a value for a repeated point enters the log as a repetition
            calls == SelectSeq([i \in 1..m |-> i], LAMBDA i : ~vals[i].has)
            os == FoldLeft(LAMBDA r, i : Add1(r, pts[i], IF vals[i].has THEN vals[i].y ELSE ev[i].y, IF vals[i].has THEN 8 ELSE ev[i].s), <<>>, [i \in 1..m |-> i])
        IN /\ cf' = c
           /\ Log1("init", [cf |-> c, xs |-> pts, vals |-> vals, given |-> given, design |-> design, n0 |-> n0, ev |-> ev],
                   IF bad THEN [err |-> "ValueError", at |-> "construction"]
                   ELSE IF unk THEN [err |-> "ValueError", at |-> "sampling", calls |-> 0]
                   ELSE [calls |-> [j \in DOMAIN calls |-> Pt2(c, pts[calls[j]])], rest |-> n0 - m, inside |-> TRUE, spread |-> TRUE, narrow |-> TRUE,
                         log |-> View2(c, os), total |-> Len(os) + n0 - m, evals |-> Len(calls) + n0 - m, added |-> m - Len(calls), cache |-> 0, x0 |-> TRUE])
  /\ done' = (Len(hist') >= Depth) /\ UNCHANGED <<obs, box>>

\* --- active sampling
Setup == /\ ~done /\ Mode \in {"active", "search", "full"} /\ cf.D = 0
         /\ \E D \in {TLCEval(Rnd(1..2))} : \E c \in {TLCEval(Cfg0(D))} : \E n \in {TLCEval(Rnd(3..5))} :
            \E pts \in {TLCEval([i \in 1..n |-> TLCEval([d \in 1..D |-> TLCEval(IF c.ty[d] = "i" THEN 8 * Rnd(-2..2) ELSE Rnd(-12..12))])])}, ev \in {TLCEval([i \in 1..n |-> TLCEval([y |-> Rnd(-80..80), s |-> Sd(c.lvl)])])} :
              LET os == FoldLeft(LAMBDA r, i : Add1(r, pts[i], ev[i].y, ev[i].s), <<>>, [i \in 1..n |-> i]) IN
              /\ Len(os) >= 2 /\ (\A d \in 1..D : \E i, j \in DOMAIN os : os[i].x[d] # os[j].x[d])
              /\ cf' = c /\ obs' = os
              /\ box' = [d \in 1..D |-> [lo |-> -40, hi |-> 40, n |-> 16]]     \* search region, transformed coordinates: lo/n .. hi/n
              /\ Log1("start", [cf |-> c, pts |-> pts, ev |-> ev], [log |-> View2(c, os)])
         /\ UNCHANGED done
\* the location of a candidate: integers rounded (never half-way), clipped to the search region (unbounded coordinates)
RdI(x) == LET a == AbsI(x) r == (a + 4) \div 8 IN IF x >= 0 THEN 8 * r ELSE -8 * r
Loc(x) == [d \in 1..cf.D |-> IF cf.ty[d] = "i" THEN RdI(x[d]) ELSE x[d]]
\* original eighths of an unbounded coordinate -> transformed: x / 16
InBox(b, x) == \A d \in 1..cf.D : cf.ty[d] # "u" \/ (b[d].lo <= x[d] * (b[d].n \div 16) /\ x[d] * (b[d].n \div 16) <= b[d].hi)
\* admissible: within the shrunk hard bounds (tolerance a tenth of the width when "wide")
Adm(x) == \A d \in 1..cf.D : cf.ty[d] = "u" \/ cf.tol = "std" \/ (5 * AbsI(x[d]) <= 112)
\* the search region grows when a chosen point is near its edge
NearLo(b, t) == 20 * AbsI(t - b.lo) < b.hi - b.lo
NearHi(b, t) == 20 * AbsI(t - b.hi) < b.hi - b.lo
Grow(b, x) == [d \in 1..cf.D |-> IF cf.ty[d] # "u" THEN b[d]
   ELSE LET t == x[d] * (b[d].n \div 16) w == b[d].hi - b[d].lo nl == NearLo(b[d], t) nh == NearHi(b[d], t) IN
        IF ~nl /\ ~nh THEN b[d] ELSE [lo |-> 20 * b[d].lo - (IF nl THEN w ELSE 0), hi |-> 20 * b[d].hi + (IF nh THEN w ELSE 0), n |-> 20 * b[d].n]]
\* points that keep the numbers small: few enlargements, or none
Tame(b, k, x) == \A d \in 1..cf.D : cf.ty[d] # "u" \/ b[d].n <= (CASE k = 1 -> 128000 [] k = 2 -> 6400 [] k = 3 -> 320 [] OTHER -> 16)
                    \/ (LET t == x[d] * (b[d].n \div 16) IN ~NearLo(b[d], t) /\ ~NearHi(b[d], t))
CandX(c) == [d \in 1..c.D |-> IF c.ty[d] = "u" THEN Rnd(-40..40) ELSE IF c.ty[d] = "b" THEN Rnd(-26..26) ELSE Wt(<<-21, -17, -14, -9, -8, -5, -1, 0, 3, 6, 8, 11, 16, 18, 23>>)]
NextTo(c, x) == [d \in 1..c.D |-> IF c.ty[d] = "u" /\ Bit(1, 2) THEN (IF x[d] < 0 THEN -40 + Rnd(-6..5) ELSE 40 - Rnd(-6..5)) ELSE x[d]]
\* one sample: the best admissible candidate, or the outcome of the local search if strictly better
Best(cs, vs) == LET A == {k \in DOMAIN cs : Adm(cs[k])} IN CHOOSE k \in A : \A j \in A : vs[k] <= vs[j]
Sorted(cs, vs) == \* candidates in the order of their values (inadmissible ones last: their order is immaterial here)
   LET v(k) == IF Adm(cs[k]) THEN vs[k] ELSE 100000 + k IN SortSeq([k \in DOMAIN cs |-> k], LAMBDA a, b : v(a) < v(b))
\* a sampling request: k samples, candidates cs, for each sample the values vs[i], local search outcome and function value
One(acc, r) ==
  LET b == Best(acc.cs, r.vs)
      pick == IF r.opt.on /\ Adm(r.opt.x) /\ r.opt.v < r.vs[b] THEN r.opt.x ELSE acc.cs[b]
      o2 == Add1(acc.os, pick, r.y, r.s)
  IN [cs |-> acc.cs, os |-> o2, box |-> Grow(acc.box, pick), bnd |-> Append(acc.bnd, acc.box), calls |-> Append(acc.calls, pick), seen |-> Append(acc.seen, acc.os)]
OptOf(opt, lc, k, raw, v) == IF opt = "none" \/ ~Tame(box, k, Loc(raw)) \/ (\E j \in DOMAIN lc : lc[j] = Loc(raw)) THEN [on |-> FALSE, raw |-> raw, x |-> Loc(raw), v |-> 0] ELSE [on |-> TRUE, raw |-> raw, x |-> Loc(raw), v |-> v]
BoxV(b) == [d \in 1..cf.D |-> IF cf.ty[d] = "u" THEN <<E(Rat(b[d].lo, b[d].n)), E(Rat(b[d].hi, b[d].n))>> ELSE <<>>]
Step == /\ ~done /\ Mode = "active" /\ cf.D > 0 /\ Len(hist) < Depth
        /\ \E k \in {TLCEval(Wt(<<1, 2, 3, 4>>))}, n \in {TLCEval(Rnd(1..6))}, again \in {TLCEval(Bit(1, 5))}, near \in {TLCEval(Bit(1, 3))}, full \in {TLCEval(Bit(1, 3))}, opt \in {TLCEval(Wt(<<"none", "search", "search">>))} :
           \E raw0 \in {TLCEval([i \in 1..n |-> TLCEval(IF near THEN NextTo(cf, CandX(cf)) ELSE CandX(cf))])} :
           \E raw \in {TLCEval(IF again THEN Append(raw0, obs[Rnd(DOMAIN obs)].x) ELSE raw0)} :
           \E cs \in {TLCEval(FoldLeft(LAMBDA r, x : IF InBox(box, Loc(x)) /\ Tame(box, k, Loc(x)) /\ ~\E j \in DOMAIN r : Loc(r[j]) = Loc(x) THEN Append(r, x) ELSE r, <<>>, raw))} :
             LET lc == [i \in DOMAIN cs |-> Loc(cs[i])] IN
             IF lc = <<>> \/ ~\E i \in DOMAIN lc : Adm(lc[i]) THEN UNCHANGED <<obs, box, hist>>
             ELSE \E raws \in {TLCEval([i \in 1..k |-> TLCEval(CandX(cf))])} : \E rs \in {TLCEval([i \in 1..k |-> TLCEval([vs |-> TLCEval([j \in DOMAIN cs |-> 10 * TLCEval(Rnd(-40..40)) + j]), y |-> TLCEval(Rnd(-80..80)), s |-> TLCEval(Sd(cf.lvl)),
                        opt |-> TLCEval(OptOf(opt, lc, k, raws[i], TLCEval(10 * Rnd(-60..40) + 9)))])])} :
                  LET acc == FoldLeft(One, [cs |-> lc, os |-> obs, box |-> box, bnd |-> <<>>, calls |-> <<>>, seen |-> <<>>], rs) IN
                  /\ obs' = acc.os /\ box' = acc.box
                  /\ Log1("step", [k |-> k, cs |-> cs, lc |-> lc, rs |-> rs, opt |-> opt, full |-> full],
                          [calls |-> [i \in 1..k |-> Pt(acc.calls[i])], log |-> View(acc.os),
                           gp |-> [i \in 1..k |-> View(acc.seen[i])], box |-> BoxV(acc.box), bnd |-> IF opt = "none" \/ cf.D = 1 THEN <<>> ELSE [i \in 1..k |-> BoxV(acc.bnd[i])], inside |-> TRUE, intok |-> TRUE, noise |-> TRUE, fresh |-> TRUE])
        /\ UNCHANGED <<cf, done>>
\* --- updates between the samples of one request: surrogate retrained (or only refreshed), posterior re-optimised, both with the
\* settings for active sampling; afterwards settings and state are as before, and the earlier posterior comes back if its bound is higher
CeilDiv(a, b) == -((-a) \div b)
Full == /\ ~done /\ Mode = "full" /\ cf.D > 0 /\ Len(hist) < Depth
        /\ \E k \in {TLCEval(Wt(<<1, 2, 2, 3, 4>>))}, gpu \in {TLCEval(Rnd({TRUE, FALSE}))}, vpu \in {TLCEval(Bit(2, 3))}, past \in {TLCEval(Rnd(0..3))}, gap \in {TLCEval(Rnd(0..4))}, thr \in {TLCEval(Rnd(1..4))}, r \in {TLCEval(Rnd({0, 1, 2, 3, 4, 5}))},
              alpha \in {TLCEval(Wt(<<0, 0, 1, 2>>))}, rand \in {TLCEval(Bit(1, 4))}, rec \in {TLCEval(Rnd({TRUE, FALSE}))}, K \in {TLCEval(Rnd(1..4))}, e0 \in {TLCEval(Rnd(-20..20))}, fine \in {TLCEval(Rnd({3, 10, 40}))}, incr \in {TLCEval(Rnd({1, 3, 10}))} :
           \E es \in {TLCEval([i \in 1..k |-> TLCEval(Rnd({-20, -8, -3, 2, 7, 20} \ {e0}))])}, ev \in {TLCEval([i \in 1..k |-> TLCEval([y |-> Rnd(-80..80), s |-> Sd(cf.lvl)])])},
              raw \in {TLCEval([i \in 1..k |-> TLCEval(CandX(cf))])} :
             LET cs0 == FoldLeft(LAMBDA q, x : IF (\A d \in 1..cf.D : AbsI(x[d]) < 16) /\ ~(\E j \in DOMAIN q : Loc(q[j]) = Loc(x)) /\ Adm(Loc(x)) THEN Append(q, x) ELSE q, <<>>, raw)
                 full == (gpu \/ vpu) /\ (gap <= past \/ r > thr)
                 m == IF full THEN k - 1 ELSE 0
                 last == IF full /\ vpu /\ m > 0 THEN m ELSE 0
                 upd(i) == <<IF gpu THEN "train" ELSE "refresh">> \o (IF vpu THEN <<"fit">> ELSE <<>>)
                 os == FoldLeft(LAMBDA q, i : Add1(q, Loc(cs0[i]), ev[i].y, ev[i].s), obs, [i \in DOMAIN cs0 |-> i])
             IN IF Len(cs0) < k THEN UNCHANGED <<obs, hist>>
                ELSE /\ obs' = os
                     /\ Log1("full", [k |-> k, cs |-> cs0, lc |-> [i \in 1..k |-> Loc(cs0[i])], gpu |-> gpu, vpu |-> vpu, past |-> past, gap |-> gap, thr |-> thr, r |-> r, alpha |-> alpha, rand |-> rand, rec |-> rec, K |-> K, e0 |-> e0, es |-> es, ev |-> ev, fine |-> fine, incr |-> incr],
                             [calls |-> [i \in 1..k |-> Pt(Loc(cs0[i]))], log |-> View(os),
                              events |-> IF ~full THEN <<>> ELSE FlattenSeq([i \in 1..m |-> upd(i)]),
                              \* the settings in force during the updates, and the numbers of quick starts and of slow optimisations
                              settings |-> IF ~full \/ m = 0 THEN <<>> ELSE <<"active">>,
                              starts |-> IF last = 0 THEN <<>> ELSE <<CeilDiv(incr * 7 * K, 10), 1>>,
                              alphas |-> TRUE, gpn |-> [i \in 1..m |-> TRUE],
                              compared |-> IF last = 0 THEN <<>> ELSE <<0, K, CeilDiv(fine, K)>>,
                              vp |-> IF last = 0 \/ e0 > es[last] THEN 0 ELSE last,
                              rec |-> rec, alpha |-> alpha, options |-> TRUE, inside |-> TRUE])
        /\ UNCHANGED <<cf, box, done>>
\* --- search sets
Frac(S) == Rnd(S)
Search == /\ ~done /\ Mode = "search" /\ cf.D > 0 /\ Len(hist) < Depth
          /\ \E n \in {TLCEval(Wt(<<1, 3, 16, 16, 32, 64>>))}, nc \in {TLCEval(Wt(<<0, 0, 3, 40>>))}, f \in {TLCEval([i \in 1..5 |-> TLCEval(Wt(<<0, 0, 1, 2, 4, 8>>))])} :
             \* fractions in sixteenths: search cache, heavy tails, normal, high density, box
             LET r(i) == (f[i] * n + 8) \div 16
                 half == \E i \in 1..5 : (f[i] * n) % 16 = 8
                 cache == IF nc < r(1) THEN nc ELSE r(1)
                 tot == cache + r(2) + r(3) + r(4) + r(5)
             IN IF half THEN UNCHANGED hist
                ELSE Log1("search", [n |-> n, nc |-> nc, f |-> f],
                     IF tot > n THEN [err |-> "ValueError"]
                     ELSE [shape |-> <<n, cf.D>>, cache |-> cache, heavy |-> r(2), vp |-> n - tot, inside |-> TRUE, idx |-> TRUE, log |-> TRUE])
          /\ UNCHANGED <<cf, obs, box, done>>
Stop == /\ ~done /\ Len(hist) >= Depth /\ done' = TRUE /\ UNCHANGED <<cf, obs, box, hist>>
Next == Setup \/ InitDesign \/ Step \/ Full \/ Search \/ Stop
Spec == Init /\ [][Next]_vars
Emit == done => PrintT(ToJson(hist))
\* the log never shrinks and holds every call; the region never shrinks
Grows == \A k \in DOMAIN hist : hist[k].op = "step" => Len(hist[k].exp.calls) = hist[k].a.k
=============================================================================

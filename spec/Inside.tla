------------------------------- MODULE Inside -------------------------------
(* Where the target is evaluated: bounds of any geometry, candidates and search results
   anywhere (also at and beyond the edge of what the transform can represent).
   A bounded coordinate has lower bound so * 2^eo and width 2^ew.  Positions are given as
   the distance from one of the hard bounds, in units of a millionth of the width (the
   admissible region starts at 10 of these), or as extreme values of the transformed
   coordinate.  Values are scripted. *)
EXTENDS Term, FiniteSets, TLC, Json, SequencesExt
CONSTANTS Depth, Sim, Mode
VARIABLES cf, hist, done
vars == <<cf, hist, done>>
Rnd(S) == RandomElement(IF done THEN {} ELSE S)
Wt(q)  == q[Rnd(DOMAIN q)]
Bit(n, d) == Rnd(1..d) <= n
Log1(op, a, e) == hist' = Append(hist, [op |-> op, a |-> a, exp |-> e])
Init == cf = [D |-> 0] /\ hist = <<>> /\ done = FALSE

Geo(j) == LET eo == Wt(<<0, 0, 10, 20, 30, -20>>) IN
  [k |-> Wt(<<"u", "b", "b", "b">>), so |-> Wt(<<0, 1, -1, 1>>), eo |-> eo,
   \* the width stays well above the resolution at the bounds
   dw |-> Wt(<<-24, -10, -3, 0, 4, 20, 70>>),
   \* plausible box, in 4096ths of the width (0 and 4096: the hard bounds themselves)
   pl |-> Wt(<<0, 5, 400, 1600>>), pu |-> Wt(<<2300, 2500, 3800, 4090, 4096>>)]
Setup == /\ ~done /\ cf.D = 0
         /\ \E D \in {TLCEval(Rnd(1..3))}, tr \in {TLCEval(Wt(<<"logit", "probit", "student4">>))}, lvl \in {TLCEval(Wt(<<0, 0, 2>>))} :
            \E g \in {TLCEval([j \in 1..D |-> TLCEval(Geo(j))])}, nx \in {TLCEval(Wt(<<1, 2, 3>>))}, n0 \in {TLCEval(Wt(<<4, 6, 10>>))}, seed \in {TLCEval(Rnd(1..9999))},
               des \in {TLCEval(Wt(<<"plausible", "plausible", "narrow">>))}, rot \in {TLCEval(Wt(<<"none", "none", "scale", "rotate">>))} :
            \E x0 \in {TLCEval([i \in 1..nx |-> TLCEval([j \in 1..D |-> TLCEval(Wt(<<0, 1, 400, 2000, 2100, 3900, 4095, 4096>>))])])} :
               /\ cf' = [D |-> D, tr |-> tr, lvl |-> lvl, g |-> g, rot |-> IF D = 1 /\ rot = "rotate" THEN "scale" ELSE rot]
               /\ Log1("setup", [cf |-> cf', x0 |-> x0, n0 |-> n0, seed |-> seed, des |-> des], [calls |-> n0, inside |-> TRUE])
         /\ UNCHANGED done
\* --- candidates: per coordinate a distance from the lower (e = 0) or upper (e = 1) bound, or an extreme value
Pos(c, j) == IF Bit(1, 8) THEN [z |-> Wt(<<-1000000, -1000, -40, 40, 1000, 1000000>>), e |-> 0, m |-> 0]
            ELSE [z |-> 0, e |-> Rnd(0..1), m |-> Wt(<<0, 1, 4, 8, 13, 30, 200, 5000, 100000, 300000, 450000>>)]
Mid(j) == [z |-> 0, e |-> Rnd(0..1), m |-> Wt(<<13, 30, 200, 5000, 100000, 300000, 450000>>)]
Cand(c) == IF Bit(1, 3) THEN [j \in 1..c.D |-> TLCEval(Mid(j))] ELSE [j \in 1..c.D |-> TLCEval(Pos(c, j))]
Extreme(x) == \E j \in 1..cf.D : x[j].z # 0
\* a point whose coordinates are all given by distances; extreme values of unbounded coordinates are fine as well
Ordinary(x) == \A j \in 1..cf.D : x[j].z = 0
Adm(x) == \A j \in 1..cf.D : cf.g[j].k = "u" \/ (x[j].z = 0 /\ x[j].m > 10)
\* extreme values mix with the others when rotated: left out there
Usable(x) == cf.rot # "rotate" \/ \A j \in 1..cf.D : x[j].z = 0 /\ (cf.g[j].k = "u" \/ x[j].m > 0)
Where(x) == [j \in 1..cf.D |-> IF cf.g[j].k = "u" THEN 0 ELSE IF x[j].e = 0 THEN x[j].m ELSE -x[j].m]
Key(x) == [j \in 1..cf.D |-> IF x[j].z # 0 THEN <<2, x[j].z>> ELSE IF x[j].m = 0 /\ cf.g[j].k = "b" THEN <<2, IF x[j].e = 0 THEN -1000000 ELSE 1000000>> ELSE <<x[j].e, x[j].m>>]
Step == /\ ~done /\ Mode = "step" /\ cf.D > 0 /\ Len(hist) < Depth
        /\ \E n \in {TLCEval(Rnd(1..6))}, k \in {TLCEval(Wt(<<1, 1, 2, 3>>))}, opt \in {TLCEval(Wt(<<"none", "search", "search">>))} :
           \E raw \in {TLCEval([i \in 1..n |-> TLCEval(Cand(cf))])}, ox \in {TLCEval(Cand(cf))} :
             LET cs == FoldLeft(LAMBDA r, x : IF Usable(x) /\ ~\E i \in DOMAIN r : Key(r[i]) = Key(x) THEN Append(r, x) ELSE r, <<>>, raw)
                 uo == opt # "none" /\ Usable(ox) /\ ~\E i \in DOMAIN cs : Key(cs[i]) = Key(ox)
             IN IF cs = <<>> THEN UNCHANGED hist
                ELSE \E vs \in {TLCEval([i \in DOMAIN cs |-> 10 * TLCEval(Rnd(-40..40)) + i])}, ov \in {TLCEval(10 * Rnd(-60..40) + 9)} :
                  LET A == {i \in DOMAIN cs : Adm(cs[i])}
                      b == IF A = {} THEN 0 ELSE CHOOSE i \in A : \A j \in A : vs[i] <= vs[j]
                      win == uo /\ Adm(ox) /\ (b = 0 \/ ov < vs[b])
                      w == IF win THEN Where(ox) ELSE IF b = 0 THEN <<>> ELSE Where(cs[b])
                  IN Log1("step", [cs |-> cs, vs |-> vs, k |-> k, opt |-> [on |-> uo, x |-> ox, v |-> ov], any |-> w = <<>>],
                          [calls |-> k, inside |-> TRUE, at |-> [i \in 1..k |-> w], log |-> k])
        /\ UNCHANGED <<cf, done>>
\* --- a whole run whose target pushes towards an edge
Run == /\ ~done /\ Mode = "run" /\ cf.D > 0 /\ Len(hist) < Depth
       /\ \E s \in {TLCEval(Rnd(1..9999))}, push \in {TLCEval([j \in 1..cf.D |-> TLCEval(Wt(<<-8, -2, 0, 1, 8>>))])}, acq \in {TLCEval(Wt(<<"AcqFcnLog", "AcqFcn", "AcqFcnVanilla">>))},
             so \in {TLCEval(Wt(<<"cmaes", "none">>))}, warp \in {TLCEval(Bit(1, 2))} :
            Log1("run", [seed |-> s, push |-> push, acq |-> acq, so |-> so, warp |-> warp], [inside |-> TRUE, count |-> TRUE])
       /\ UNCHANGED <<cf, done>>
Stop == /\ ~done /\ Len(hist) >= Depth /\ done' = TRUE /\ UNCHANGED <<cf, hist>>
Next == Setup \/ Step \/ Run \/ Stop
Spec == Init /\ [][Next]_vars
Emit == done => PrintT(ToJson(hist))
\* an admissible candidate is never passed over for an inadmissible one
Safe == \A h \in DOMAIN hist : hist[h].op = "step" => LET a == hist[h].a IN
          (\E i \in DOMAIN a.cs : Adm(a.cs[i])) => \A i \in DOMAIN hist[h].exp.at : \A j \in DOMAIN hist[h].exp.at[i] : cf.g[j].k = "u" \/ AbsI(hist[h].exp.at[i][j]) > 10
=============================================================================

------------------------------ MODULE FuncLog ------------------------------
(* The log of target evaluations (FunctionLogger).  One action per public call.
   An entry holds the point, the sum of weights and the weighted sum of values:
   exact observations have weight 1 each, a noisy one with standard deviation s
   has weight 1/s^2 (kept in quarters: s = 1 -> 4, s = 2 -> 1).  *)
EXTENDS Transform, FiniteSets, TLC, Json

CONSTANTS Levels, Spaces, Caps, NP, Vals, Depth, WithBad, WithMisc, Sim

VARIABLES level, space, cap, log, fc, cc, ymax, hist, done
\* in random simulation one argument is drawn per step instead of enumerating all
\* (the draw must depend on the state, or TLC evaluates it once and for all)
Pick(S) == IF Sim THEN {RandomElement(IF done THEN {} ELSE S)} ELSE S
vars == <<level, space, cap, log, fc, cc, ymax, hist, done>>

\* ---- the spaces and the points (rational original coordinates)
Unb      == [t |-> "unb", lb |-> QI(0), ub |-> QI(0), plb |-> QI(-1), pub |-> QI(3), pl |-> TRUE]
Bnd(t)   == [t |-> t, lb |-> QI(-2), ub |-> QI(6), plb |-> QI(0), pub |-> QI(4), pl |-> TRUE]
Coords   == CASE space = "none" -> <<[Unb EXCEPT !.pl = FALSE], [Unb EXCEPT !.pl = FALSE]>>
              [] space = "one"  -> <<Bnd("logit")>>
              [] space = "mix"  -> <<Bnd("probit"), Unb>>
              [] space = "rot"  -> <<[Bnd("student4") EXCEPT !.pl = FALSE], [Unb EXCEPT !.pl = FALSE]>>
Rot      == IF space = "rot" THEN <<<<Rat(3, 5), Rat(-4, 5)>>, <<Rat(4, 5), Rat(3, 5)>>>> ELSE <<>>
Scl      == IF space = "rot" THEN <<2, Rat(1, 2)>> ELSE <<>>
Dim      == Len(Coords)
Pt(p)    == LET all == <<<<QI(0), QI(2)>>, <<QI(4), QI(-1)>>, <<Q(1, 2), QI(2)>>, <<QI(4), QI(5)>>>>
            IN [i \in 1..Dim |-> all[p][i]]
XU(p)    == ToU(Coords, Rot, Scl, Pt(p))
LJ(p)    == IF space = "none" THEN 0 ELSE LogJac(Coords, Rot, Scl, Pt(p))
Points   == 1..(IF Dim = 1 /\ NP > 3 THEN 3 ELSE NP)

Noisy    == level > 0
W(s)     == IF s = 1 THEN 4 ELSE 1
SDs      == {1, 2}

\* ---- entries
YOrig(e) == IF Noisy THEN Q(e.swy, e.sw) ELSE Q(e.swy, e.n)
SNow(e)  == Sqrt(Rat(4, e.sw))
Find(p)  == {i \in 1..Len(log) : log[i].p = p}
Put(p, v, s) ==
  IF Find(p) = {} THEN Append(log, [p |-> p, sw |-> W(s), n |-> 1, act |-> TRUE,
                                    swy |-> IF Noisy THEN W(s) * v ELSE v])
  ELSE LET i == CHOOSE i \in Find(p) : TRUE
       IN [log EXCEPT ![i] = [@ EXCEPT !.sw = @ + W(s), !.n = @ + 1,
                              !.swy = @ + IF Noisy THEN W(s) * v ELSE v]]
IdxOf(l, p) == CHOOSE i \in 1..Len(l) : l[i].p = p
ActIdx(l) == SelectSeq([i \in 1..Len(l) |-> i], LAMBDA i : l[i].act)
\* the running maximum is the largest transformed value among these active entries
MaxOf(l) == LET ids == ActIdx(l) IN [k \in 1..Len(ids) |-> [p |-> l[ids[k]].p, yo |-> YOrig(l[ids[k]])]]

\* ---- what is observable after every operation
View(l, f, c, m) ==
  [p  |-> [i \in 1..Len(l) |-> l[i].p],
   yo |-> [i \in 1..Len(l) |-> YOrig(l[i])],
   s  |-> IF Noisy THEN [i \in 1..Len(l) |-> E(SNow(l[i]))] ELSE <<>>,
   n  |-> [i \in 1..Len(l) |-> l[i].n],
   act |-> [i \in 1..Len(l) |-> l[i].act],
   fc |-> f, cc |-> c, ymax |-> m, raised |-> FALSE]

Step(r)  == hist' = Append(hist, r)

Init == /\ level \in Levels /\ space \in Spaces /\ cap \in Caps
        /\ log = <<>> /\ fc = 0 /\ cc = 0 /\ ymax = <<>> /\ done = FALSE
        /\ hist = <<[op |-> "new", level |-> level, space |-> space, cap |-> cap, D |-> Dim,
                     coords |-> [i \in 1..Dim |-> [t |-> Coords[i].t, lb |-> Coords[i].lb, ub |-> Coords[i].ub,
                                                   plb |-> Coords[i].plb, pub |-> Coords[i].pub, pl |-> Coords[i].pl]],
                     rot |-> [i \in 1..Len(Rot) |-> [j \in 1..Dim |-> E(Rot[i][j])]],
                     scl |-> [i \in 1..Len(Scl) |-> E(Scl[i])],
                     pts |-> [p \in Points |-> [xo |-> [j \in 1..Dim |-> E(QT(Pt(p)[j]))],
                                                x  |-> [j \in 1..Dim |-> E(XU(p)[j])],
                                                lj |-> E(LJ(p))]],
                     exp |-> View(<<>>, 0, 0, <<>>)]>>

Record(op, p, v, s, shp) ==
  LET l2 == Put(p, v, s)
      i  == IdxOf(l2, p)
      m2 == MaxOf(l2)
      f2 == IF op = "call" THEN fc + 1 ELSE fc
      c2 == IF op = "call" THEN cc ELSE cc + 1
  IN /\ log' = l2 /\ fc' = f2 /\ cc' = c2 /\ ymax' = m2
     /\ Step([op |-> op, p |-> p, v |-> v, s |-> s, shape |-> shp,
              exp |-> View(l2, f2, c2, m2) @@
                      [ret |-> [p |-> p, yo |-> YOrig(l2[i]), i |-> i - 1,
                                sd |-> IF ~Noisy THEN "none" ELSE IF op = "call" /\ level = 1 THEN E(1) ELSE E(s)]]])
     /\ UNCHANGED <<level, space, cap, done>>

Live == ~done /\ Len(hist) < Depth

Call == Live /\ \E p \in Pick(Points), v \in Pick(Vals) :
          \E s \in Pick(IF level = 2 THEN SDs ELSE {1}) : \E shp \in Pick({"flat", "row"}) : Record("call", p, v, s, shp)
AddV == Live /\ \E p \in Pick(Points), v \in Pick(Vals) :
          \E s \in Pick(IF Noisy THEN SDs ELSE {1}) : \E shp \in Pick({"flat", "row"}) : Record("add", p, v, s, shp)

\* a rejected observation: an error, and nothing changes
BadValues == {"nan", "inf", "-inf", "complex", "vector", "none", "text"}
BadSDs    == {"zero", "negative", "nan", "inf", "vector"}
Same(op, r) == /\ UNCHANGED <<level, space, cap, log, fc, cc, ymax, done>>
               /\ Step([op |-> op] @@ r @@ [exp |-> [View(log, fc, cc, ymax) EXCEPT !.raised = TRUE]])
BadCall == Live /\ WithBad /\ \E p \in Pick(Points) :
             \/ \E b \in Pick(BadValues \cup {"raise"}) : Same("badcall", [p |-> p, bad |-> b])
             \/ level = 2 /\ \E b \in Pick(BadSDs) : Same("badsd", [p |-> p, bad |-> b])
BadAdd  == Live /\ WithBad /\ \E p \in Pick(Points) :
             \/ \E b \in Pick(BadValues) : Same("badadd", [p |-> p, bad |-> b])
             \/ Noisy /\ \E b \in Pick(BadSDs) : Same("badaddsd", [p |-> p, bad |-> b])

\* trimming switches an entry off; it stays in the log and can be measured again
Off == /\ Live /\ WithMisc /\ Len(log) > 0
       /\ \E i \in Pick(1..Len(log)) :
            /\ log[i].act /\ Cardinality({j \in 1..Len(log) : log[j].act}) > 1
            /\ LET l2 == [log EXCEPT ![i] = [@ EXCEPT !.act = FALSE]]
               IN /\ log' = l2
                  /\ Step([op |-> "off", i |-> i - 1, exp |-> View(l2, fc, cc, ymax)])
       /\ UNCHANGED <<level, space, cap, fc, cc, ymax, done>>
Misc == /\ Live /\ WithMisc
        /\ \E o \in Pick({"finalize", "copy"}) : Step([op |-> o, exp |-> View(log, fc, cc, ymax)])
        /\ UNCHANGED <<level, space, cap, log, fc, cc, ymax, done>>

End == ~done /\ Len(hist) = Depth /\ done' = TRUE /\ UNCHANGED <<level, space, cap, log, fc, cc, ymax, hist>>

Next == Call \/ AddV \/ BadCall \/ BadAdd \/ Off \/ Misc \/ End
Spec == Init /\ [][Next]_vars

\* ---- properties of the design
OneEntryPerPoint == \A i, j \in 1..Len(log) : log[i].p = log[j].p => i = j
RECURSIVE SumN(_, _)
SumN(l, k)       == IF k = 0 THEN 0 ELSE l[k].n + SumN(l, k - 1)
NothingLost      == SumN(log, Len(log)) = fc + cc
Monotone         == [][Len(log') >= Len(log) /\ fc' >= fc /\ cc' >= cc
                       /\ \A i \in 1..Len(log) : log'[i].p = log[i].p /\ log'[i].n >= log[i].n
                                                 /\ (log'[i].act => log[i].act)]_vars
Emit             == done => PrintT(ToJson(hist))
NoHist           == <<level, space, cap, log, fc, cc, Len(hist), done>>
=============================================================================

------------------------------ MODULE BestVp ------------------------------
(* The choice of the best solution on arbitrary histories: iterations are appended
   one by one and the choice is asked for with every parameter setting. *)
EXTENDS Best, TLC, Json
CONSTANTS Es, Sds, Sts, Rs, Depth, Sim
VARIABLES H, hist, done
vars == <<H, hist, done>>
Pick(S) == IF Sim THEN {RandomElement(IF done THEN {} ELSE S)} ELSE S
Asks(Hq) == LET m == Len(Hq) - 1
            IN [i \in 1..(m + 1) |-> <<BestOf(Hq, i - 1, 5, 1), BestOf(Hq, i - 1, 1, 2), BestOf(Hq, i - 1, 0, 4), BestOf(Hq, i - 1, 3, 0),
                                      RankOf(Hq, i - 1, 5), RankOf(Hq, i - 1, 1)>>]
Init == H = <<>> /\ done = FALSE /\ hist = <<>>
Iter == /\ ~done /\ Len(H) < Depth
       /\ \E e \in Pick(Es), sd \in Pick(Sds), st \in Pick(Sts), r \in Pick(Rs) :
            H' = Append(H, [e |-> e, sd |-> sd, st |-> st, R |-> IF Len(H) < 2 THEN RInf ELSE [n |-> r, d |-> 4]])
       /\ UNCHANGED <<hist, done>>
Ask == /\ ~done /\ Len(H) = Depth /\ done' = TRUE
       /\ hist' = <<[op |-> "best", H |-> [i \in 1..Depth |-> <<H[i].e, H[i].sd, H[i].st, IF H[i].R.d = 0 THEN -1 ELSE H[i].R.n>>],
                     exp |-> [idx |-> Asks(H), own |-> TRUE]]>>
       /\ UNCHANGED H
Next == Iter \/ Ask
Spec == Init /\ [][Next]_vars
\* the choice is an iteration not before the last stable one, and itself stable if that is the last
Sane == Len(H) > 0 =>
          LET m == Len(H) - 1
              b == BestOf(H, m, 5, 1)
          IN /\ b \in 0..m /\ (H[m + 1].st => b = m)
             /\ \A i \in 0..m : H[i + 1].st => b >= i
Emit == done => PrintT(ToJson(hist))
===========================================================================

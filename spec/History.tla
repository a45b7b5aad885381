------------------------------ MODULE History ------------------------------
(* The iteration history: a table of named sequences.  Live objects change in place
   (their version increases); a recording keeps the version of that moment. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Keys, Objs, Iters, Depth, Sim
VARIABLES tab,    \* key -> "none" or a sequence of cells; a cell is 0 (empty) or <<object, version>>
          ver,    \* object -> version
          hist, done
vars == <<tab, ver, hist, done>>
Rnd(S)  == RandomElement(IF done THEN {} ELSE S)
Pick(S) == IF Sim THEN {Rnd(S)} ELSE S
None == <<<<-1, -1>>>>
Empty == <<0, 0>>
Put(q, i, c) ==      \* iteration i is position i + 1
  LET old == IF q = None THEN <<>> ELSE q
      n   == IF Len(old) > i + 1 THEN Len(old) ELSE i + 1
  IN [j \in 1..n |-> IF j = i + 1 THEN c ELSE IF j <= Len(old) THEN old[j] ELSE Empty]
View(t) == [k \in Keys |-> IF t[k] = None THEN <<-1>> ELSE [j \in 1..Len(t[k]) |-> 1000 * t[k][j][1] + t[k][j][2]]]
Step(op, a, err, t) == /\ tab' = t
                       /\ hist' = Append(hist, [op |-> op, a |-> a, exp |-> [err |-> err, tab |-> View(t), n |-> Cardinality(Keys)]])
                       /\ done' = FALSE
Init == /\ tab = [k \in Keys |-> None] /\ ver = [x \in Objs |-> 0] /\ hist = <<>> /\ done = FALSE

Record == \E k \in Pick(Keys), x \in Pick(Objs), i \in Pick(Iters) :
            /\ Step("record", <<k, x, i>>, "", [tab EXCEPT ![k] = Put(@, i, <<x, ver[x]>>)]) /\ UNCHANGED ver
Many == \E x \in Pick(Objs), y \in Pick(Objs), i \in Pick(Iters) :
            \E ks \in Pick(SUBSET Keys \ {{}}) :
               /\ Step("many", <<[k \in ks |-> IF k = "a" THEN x ELSE y], i>>, "",
                       [k \in Keys |-> IF k \in ks THEN Put(tab[k], i, LET z == IF k = "a" THEN x ELSE y IN <<z, ver[z]>>) ELSE tab[k]])
               /\ UNCHANGED ver
Change == \E x \in Pick(Objs) : /\ ver' = [ver EXCEPT ![x] = @ + 1] /\ Step("change", <<x>>, "", tab)
\* replacing a whole column: nothing, or what was recorded in the first n iterations
Set == \E k \in Pick(Keys), n \in Pick({-1} \cup Iters) :
          /\ (n >= 0 => tab[k] # None)
          /\ Step("set", <<k, n>>, "", [tab EXCEPT ![k] = IF n = -1 THEN None ELSE SubSeq(@, 1, IF n + 1 < Len(@) THEN n + 1 ELSE Len(@))])
          /\ UNCHANGED ver
Refused == \E r \in Pick({"record key", "many key", "set key", "record neg", "many neg"}), k \in Pick(Keys), x \in Pick(Objs) :
          /\ Step("refused", <<r, k, x>>, "ValueError", tab) /\ UNCHANGED ver
Copy == \E r \in Pick({"pickle", "deepcopy"}) : Step("copy", <<r>>, "", tab) /\ UNCHANGED ver
Next == /\ ~done
        /\ IF Len(hist) < Depth THEN Record \/ Many \/ Change \/ Set \/ Refused \/ Copy
           ELSE done' = TRUE /\ UNCHANGED <<tab, ver, hist>>
Spec == Init /\ [][Next]_vars
\* nothing recorded is ever newer than the object, columns are lengthened only as needed
Sound == \A k \in Keys : tab[k] # None => \A j \in DOMAIN tab[k] : tab[k][j] = Empty \/ tab[k][j][2] <= ver[tab[k][j][1]]
\* a recorded cell changes only by a recording for it or by replacing the column
Isolated == [][\A k \in Keys : tab[k] # None /\ tab'[k] # None =>
                 Cardinality({j \in DOMAIN tab[k] \cap DOMAIN tab'[k] : tab[k][j] # tab'[k][j]}) <= 1]_vars
Emit == done => PrintT(ToJson(hist))
=============================================================================

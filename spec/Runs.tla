-------------------------------- MODULE Runs --------------------------------
(* Whole runs as deterministic functions of the solver's state and of the global
   random state.  An iteration takes the pair (state, random state) to a new state,
   and leaves a random state determined by it; so does the final refinement.  States
   are numbered; equal pairs give equal numbers, whatever instance, file or order of
   operations they are reached by.  The replay binds the numbers to digests of what
   the code records, and requires that a number always means the same record. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Slots, Files, Probs, Depth, MaxRuns, Prefer, Sim
VARIABLES nodes, inst, file, vf, rng, runs, hist, done
vars == <<nodes, inst, file, vf, rng, runs, hist, done>>
Rnd(S)  == RandomElement(IF done THEN {} ELSE S)
Pick(S) == IF Sim THEN {Rnd(S)} ELSE S
None == [p |-> 0, root |-> 0, h |-> <<>>, maxi |-> 0, fin |-> FALSE]

Find(ns, key) == IF \E i \in DOMAIN ns : ns[i] = key THEN CHOOSE i \in DOMAIN ns : ns[i] = key ELSE Len(ns) + 1
With(ns, key) == IF Find(ns, key) = Len(ns) + 1 THEN Append(ns, key) ELSE ns
\* n iterations from state s with random state r
RECURSIVE Iterate(_, _, _, _, _)
Iterate(ns, s, r, n, acc) ==
  IF n = 0 THEN <<ns, acc>>
  ELSE LET key == <<"iteration", s, r>> id == Find(ns, key)
       IN Iterate(With(ns, key), id, id, n - 1, Append(acc, id))
LastOf(x) == IF x.h = <<>> THEN x.root ELSE x.h[Len(x.h)]
View == [slots |-> [a \in Slots |-> inst'[a].h], rng |-> rng', files |-> [f \in Files |-> file'[f].p # 0], inputs |-> TRUE]
Log(op, a, more) == hist' = Append(hist, [op |-> op, a |-> a, exp |-> more @@ View])
Ok == [err |-> ""]
Keep == UNCHANGED <<nodes, inst, file, rng, runs, done>>

\* construction draws the starting components
New(a, p, m) == /\ LET key == <<"new", p, rng>>
                   IN nodes' = With(nodes, key) /\ rng' = Find(nodes, key)
                /\ inst' = [inst EXCEPT ![a] = [p |-> p, root |-> rng', h |-> <<>>, maxi |-> m, fin |-> FALSE]]
                /\ UNCHANGED <<file, runs, done>> /\ Log("new", <<a, p, m>>, Ok)
Seed(k) == rng' = -100 - k /\ UNCHANGED <<nodes, inst, file, runs, done>> /\ Log("seed", <<k>>, Ok)
\* back to the random state of the start, to repeat the first construction
Again == rng' = -100 - hist[1].a[1] /\ UNCHANGED <<nodes, inst, file, runs, done>> /\ Log("again", <<hist[1].a[1]>>, Ok)
\* a run goes on to the maximum number of iterations, but makes at least one
Run(a) == /\ inst[a].p # 0 /\ runs < MaxRuns
          /\ LET x  == inst[a]
                 n  == IF x.maxi > Len(x.h) THEN x.maxi - Len(x.h) ELSE 1
             IN /\ n <= 8
                /\ \E r \in {TLCEval(Iterate(nodes, LastOf(x), rng, n, <<>>))} :
                   LET s   == r[2][Len(r[2])]
                       key == <<"final", s, s>>
                       h2  == x.h \o r[2]
                   IN /\ nodes' = With(r[1], key) /\ rng' = Find(r[1], key)
                      /\ inst' = [inst EXCEPT ![a] = [@ EXCEPT !.h = h2, !.fin = TRUE]]
                      /\ runs' = runs + 1 /\ UNCHANGED <<file, done>>
                      /\ Log("run", <<a>>, [err |-> "", res |-> rng', iters |-> Len(h2) - 1, calls |-> TRUE])
Save(a, f, ow) == /\ inst[a].p # 0
                  /\ LET bad == file[f].p # 0 /\ ~ow
                     IN /\ file' = IF bad THEN file ELSE [file EXCEPT ![f] = inst[a]]
                        /\ UNCHANGED <<nodes, inst, rng, runs, done>>
                        /\ Log("save", <<a, f, ow>>, [err |-> IF bad THEN "FileExistsError" ELSE "", whole |-> TRUE])
\* k: 0 = the last iteration, else iteration k - 1
Load(f, a, k, m, set) ==
  LET x == file[f]
      n == IF k = 0 THEN Len(x.h) ELSE k
      e == IF x.p = 0 THEN "FileNotFoundError" ELSE IF n > Len(x.h) THEN "ValueError" ELSE ""
  IN /\ (set /\ e = "" => n > 0)
     /\ inst' = IF e # "" THEN inst ELSE [inst EXCEPT ![a] = [x EXCEPT !.h = SubSeq(@, 1, n), !.maxi = IF m = 0 THEN @ ELSE m]]
     /\ rng' = IF set /\ e = "" THEN x.h[n] ELSE rng
     /\ UNCHANGED <<nodes, file, runs, done>>
     /\ Log("load", <<f, a, k, m, set>>,
            [err |-> e, live |-> TRUE, iter |-> IF e = "" THEN n - 1 ELSE -9, maxi |-> IF e # "" THEN -9 ELSE IF m = 0 THEN x.maxi ELSE m])
\* posteriors have files of their own; a file holds what was saved in it last, known by the step that saved it
VpSave(a, f, ow) == LET bad == vf[f] # 0 /\ ~ow t == IF bad THEN 0 ELSE Len(hist) + 1 IN
                    /\ vf' = IF bad THEN vf ELSE [vf EXCEPT ![f] = t]
                    /\ UNCHANGED <<nodes, inst, file, rng, runs, done>>
                    /\ Log("vpsave", <<a, f, ow>>, [err |-> IF bad THEN "FileExistsError" ELSE "", vp |-> t])
VpLoad(f) == /\ UNCHANGED <<vf, nodes, inst, file, rng, runs, done>>
             /\ Log("vpload", <<f>>, [err |-> IF vf[f] = 0 THEN "FileNotFoundError" ELSE "", vp |-> vf[f]])
BadLoad(f, a) == Load(f, a, 40, 0, FALSE)

Init == /\ nodes = <<>> /\ inst = [a \in Slots |-> None] /\ file = [f \in Files |-> None] /\ vf = [f \in Files |-> 0] /\ rng = -100 /\ runs = 0
        /\ hist = <<>> /\ done = FALSE
Have  == {a \in Slots : inst[a].p # 0}
HaveF == {f \in Files : file[f].p # 0}
Some(S, T) == IF S = {} THEN T ELSE S
Last == hist[Len(hist)]
Resumed == hist # <<>> /\ Last.op \in {"load", "new"} /\ Last.exp.err = ""
CanRun == Have # {} /\ runs < MaxRuns
Ops == (IF Prefer = "resume" THEN <<>> ELSE <<"seed", "again", "again">>) \o <<"new">>
       \o (IF CanRun THEN <<"run", "run">> ELSE <<>>) \o (IF Have # {} THEN <<"save">> ELSE <<>>)
       \o (IF Have # {} /\ HaveF = {} THEN <<"save", "save", "save">> ELSE <<>>)
       \o (IF HaveF # {} THEN <<"load", "load", "load", "load">> ELSE <<>>) \o <<"bad">>
       \o (IF Have # {} THEN <<"vpsave">> ELSE <<>>) \o (IF \E f \in Files : vf[f] # 0 THEN <<"vpload", "vpload">> ELSE <<>>)
\* "again": the random state goes back to that before the first construction
Next ==
  /\ ~done
  /\ IF Len(hist) >= Depth \/ (runs >= MaxRuns /\ Last.op = "run")
     THEN done' = TRUE /\ UNCHANGED <<nodes, inst, file, vf, rng, runs, hist>>
     ELSE \E op \in {IF hist = <<>> THEN "seed" ELSE IF Len(hist) = 1 THEN "new" ELSE IF Len(hist) = 2 THEN "run"
                     ELSE IF Last.op = "again" \/ (Last.op = "seed" /\ Rnd(1..2) = 1) THEN "new"
                     ELSE IF Resumed /\ CanRun /\ Rnd(1..5) > 1 THEN "run" ELSE Ops[Rnd(DOMAIN Ops)]},
             p \in Pick(Probs), m \in Pick(2..6), set \in {Rnd(1..5) > 1}, ow \in Pick({TRUE, FALSE}), sd \in Pick({1, 2}) :
          \E a \in Pick(IF op = "run" /\ Resumed /\ Rnd(1..4) > 1 THEN {IF Last.op = "new" THEN Last.a[1] ELSE Last.a[2]}
                         ELSE IF op \in {"run", "save", "vpsave"} THEN Have ELSE Slots),
             f \in Pick(IF op \in {"load", "bad"} /\ Rnd(1..6) > 1 THEN Some(HaveF, Files) ELSE Files) :
          \E k \in Pick(0..(Len(file[f].h) + (IF Rnd(1..6) = 1 THEN 1 ELSE 0))) :
          /\ (op \in {"vpsave", "vpload"} \/ vf' = vf)
          /\ CASE op = "new"  -> New(a, IF Last.op = "again" THEN hist[2].a[2] ELSE p, m)
               [] op = "seed" -> Seed(sd)
               [] op = "again" -> Again
               [] op = "run"  -> Run(a)
               [] op = "save" -> Save(a, f, ow)
               [] op = "load" -> Load(f, a, k, (IF k = 0 THEN Len(file[f].h) ELSE k) + m - 2, set)
               [] op = "vpsave" -> VpSave(a, f, ow)
               [] op = "vpload" -> VpLoad(f)
               [] op = "bad"  -> BadLoad(f, a)
Spec == Init /\ [][Next]_vars
\* histories are made of iterations, each following the one before it
Chain == \A a \in Slots : \A i \in 2..Len(inst[a].h) : nodes[inst[a].h[i]][2] = inst[a].h[i - 1]
OneToOne == \A i, j \in DOMAIN nodes : nodes[i] = nodes[j] => i = j
Emit == done /\ runs > 0 => PrintT(ToJson(hist))
=============================================================================

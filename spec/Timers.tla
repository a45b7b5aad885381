------------------------------- MODULE Timers -------------------------------
(* Named timers over a clock that only advances when told to. *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS Names, Ticks, Depth, Sim
VARIABLES now, run, dur, hist, done
vars == <<now, run, dur, hist, done>>
Pick(S) == IF Sim THEN {RandomElement(IF done THEN {} ELSE S)} ELSE S
\* run[n]: the time of the start that counts, or -1; dur[n]: accumulated, or -1 if none
Init == now = 0 /\ run = [n \in Names |-> -1] /\ dur = [n \in Names |-> -1] /\ hist = <<>> /\ done = FALSE
Log(op, a, d) == hist' = Append(hist, [op |-> op, a |-> a, exp |-> d])
Start(n) == /\ run' = IF run[n] = -1 THEN [run EXCEPT ![n] = now] ELSE run
            /\ UNCHANGED <<now, dur>> /\ Log("start", n, dur)
Stop(n)  == /\ IF run[n] = -1 THEN UNCHANGED <<run, dur>>
               ELSE /\ run' = [run EXCEPT ![n] = -1]
                    /\ dur' = [dur EXCEPT ![n] = (IF @ = -1 THEN 0 ELSE @) + now - run[n]]
            /\ UNCHANGED now /\ Log("stop", n, dur')
Reset    == /\ run' = [n \in Names |-> -1] /\ dur' = [n \in Names |-> -1]
            /\ UNCHANGED now /\ Log("reset", "", dur')
Tick(d)  == now' = now + d /\ UNCHANGED <<run, dur>> /\ Log("tick", d, dur)
Op(o, n, d) == IF o = "start" THEN Start(n) ELSE IF o = "stop" THEN Stop(n) ELSE IF o = "reset" THEN Reset ELSE Tick(d)
Ops == IF Sim THEN {<<"start", "start", "start", "stop", "stop", "stop", "tick", "tick", "tick", "reset">>[RandomElement(IF done THEN {} ELSE 1..10)]}
       ELSE {"start", "stop", "tick", "reset"}
Step == /\ ~done /\ Len(hist) < Depth
        /\ \E o \in Ops : CASE o \in {"start", "stop"} -> \E n \in Pick(Names) : Op(o, n, 0)
                            [] o = "reset" -> Op(o, "", 0)
                            [] OTHER -> \E d \in Pick(Ticks) : Op(o, "", d)
        /\ UNCHANGED done
End  == ~done /\ Len(hist) = Depth /\ done' = TRUE /\ UNCHANGED <<now, run, dur, hist>>
Next == Step \/ End
Spec == Init /\ [][Next]_vars
\* a timer never shows more than the time that has passed; a start changes no duration
Sane == \A n \in Names : dur[n] <= now /\ run[n] <= now
Emit == done => PrintT(ToJson(hist))
\* timers do not influence each other, durations only grow (but for a reset)
Separate == [][\A n \in Names : \/ dur'[n] = dur[n] \/ dur'[n] > dur[n] \/ \A m \in Names : dur'[m] = -1 /\ run'[m] = -1]_vars
=============================================================================

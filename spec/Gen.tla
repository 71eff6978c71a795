-------------------------------- MODULE Gen ---------------------------------
(***************************************************************************)
(* Generation of tests from the semantics: TLC explores every configuration *)
(* of an automaton on a grid of clock values (each clock up to cap, beyond  *)
(* which its value no longer matters) and prints, for every transition of   *)
(* that graph (a letter or a delay in some configuration), a history that   *)
(* ends with it, together with the acceptance required after every event.   *)
(* The histories are then fed to the real system under learning.            *)
(***************************************************************************)
EXTENDS Exec, Json, IOUtils

Cases == ndJsonDeserialize(IOEnv.CASES)

VARIABLES c, q, v, path
vars == <<c, q, v, path>>

A == Cases[c].auts[1]
MinI(a, b) == IF a < b THEN a ELSE b
Capped(val) == TLCEval([i \in DOMAIN val |-> MinI(val[i], Cases[c].cap)])

Init == /\ c \in DOMAIN Cases
        /\ q = Cases[c].auts[1].init
        /\ v = [i \in 1..Cases[c].n |-> 0]
        /\ path = <<>>

\* events are printed as strings: "d<k>+" or "a<letter>-" (+ accepted, - rejected)
Verdict(s) == IF Accepting(A, s) THEN "+" ELSE "-"

Delay(k) == LET f == DelayV(A, q, v, Cases[c].delays[k])
            IN /\ q' = f.q /\ v' = Capped(f.v)
               /\ path' = Append(path, "d" \o ToString(Cases[c].delays[k]) \o Verdict(f.q))
               /\ UNCHANGED c
Letter(k) == LET f == FireV(A, q, Cases[c].sigma[k], v)
             IN /\ q' = f.q /\ v' = Capped(f.v)
                /\ path' = Append(path, "a" \o Cases[c].sigma[k] \o Verdict(f.q))
                /\ UNCHANGED c

Next == /\ (q # 0 \/ (path # <<>> /\ Len(path) < 2))
        /\ \/ \E k \in DOMAIN Cases[c].delays : Delay(k)
           \/ \E k \in DOMAIN Cases[c].sigma : Letter(k)
Spec == Init /\ [][Next]_vars

\* Two histories leading to the same configuration are one state
View == <<c, q, v>>

\* evaluated for every transition of the graph
Emit == PrintT(<<"T", Cases[c].id, path'>>)

InputOk == path = <<>> => WellFormed(A)
=============================================================================

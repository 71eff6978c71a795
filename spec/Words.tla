------------------------------- MODULE Words -------------------------------
(***************************************************************************)
(* Execution of timed automata on concrete timed words, over exactly        *)
(* represented (scaled integer) clock values.  Each case is a behaviour     *)
(* recorded from the implementation: a sequence of events                   *)
(*    [e |-> "pre"]            a new run starts                             *)
(*    [e |-> "d", v, res]      v time units pass                            *)
(*    [e |-> "a", a, res]      the letter a is read                         *)
(* where res[i] is what the implementation answered for automaton i after   *)
(* the event (0 no, 1 yes, -1 not recorded).  TLC replays the behaviour     *)
(* step by step and compares every answer; at the end of each run the       *)
(* relation rel must hold ("acc": all accept, "rej": all reject, "neq": the *)
(* two automata disagree, "any").                                           *)
(***************************************************************************)
EXTENDS Exec, Json, IOUtils

Cases == ndJsonDeserialize(IOEnv.CASES)

VARIABLES c, p, q, v
vars == <<c, p, q, v>>

As == Cases[c].auts
Ev == Cases[c].ev

RECURSIVE Each(_, _, _, _)
Each(i, e, qq, vv) ==
  IF i > Len(As) THEN [q |-> qq, v |-> vv]
  ELSE LET f == IF e.e = "a" THEN FireV(As[i], qq[i], e.a, vv) ELSE DelayV(As[i], qq[i], vv, e.v)
       IN Each(i + 1, e, [qq EXCEPT ![i] = f.q], f.v)

Start == [i \in DOMAIN As |-> As[i].init]
ZeroV == [i \in 1..Cases[c].n |-> 0]

Init == c \in DOMAIN Cases /\ p = 1 /\ q = Start /\ v = ZeroV

Next ==
  /\ p <= Len(Ev)
  /\ IF Ev[p].e = "pre" THEN q' = Start /\ v' = ZeroV
     ELSE LET f == Each(1, Ev[p], q, v) IN q' = f.q /\ v' = f.v
  /\ p' = p + 1
  /\ UNCHANGED c

Spec == Init /\ [][Next]_vars

Acc(i) == Accepting(As[i], q[i])

\* The implementation's answer to the last event is the specification's
Answers ==
  (p > 1 /\ Ev[p - 1].e # "pre") =>
     \A i \in DOMAIN Ev[p - 1].res :
        Ev[p - 1].res[i] = -1 \/ Ev[p - 1].res[i] = (IF Acc(i) THEN 1 ELSE 0)

EndOfRun == p > 1 /\ (p > Len(Ev) \/ Ev[p].e = "pre")

Final ==
  EndOfRun =>
    CASE Cases[c].rel = "acc" -> \A i \in DOMAIN As : Acc(i)
      [] Cases[c].rel = "rej" -> \A i \in DOMAIN As : ~Acc(i)
      [] Cases[c].rel = "neq" -> Acc(1) # Acc(2)
      [] Cases[c].rel = "any" -> TRUE

\* Durations are not negative and letters belong to the alphabet
InWord ==
  (p > 1) =>
    /\ Ev[p - 1].e = "d" => Ev[p - 1].v >= 0
    /\ Ev[p - 1].e = "a" => \E k \in DOMAIN Cases[c].sigma : Cases[c].sigma[k] = Ev[p - 1].a

InputOk == p = 1 => \A i \in DOMAIN As : WellFormed(As[i])
=============================================================================

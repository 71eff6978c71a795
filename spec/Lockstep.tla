------------------------------ MODULE Lockstep ------------------------------
(***************************************************************************)
(* Lock-step execution of several timed automata on the same timed word.    *)
(* Each case gives a sequence of automata and the         *)
(* relation their acceptance must satisfy after every timed word.  TLC      *)
(* explores every reachable region of the product, which decides the        *)
(* relation for ALL timed words (the region construction is exact).         *)
(*   rel = "eq"     : same acceptance                                       *)
(*   rel = "neg"    : opposite acceptance                                   *)
(*   rel = "and"    : A[3] accepts iff A[1] and A[2] accept                 *)
(*   rel = "empty2" : never both A[1] and A[2]                              *)
(*   rel = "none"   : A[1] accepts nothing                                  *)
(*   rel = "any"    : no relation (determinism / totality only)             *)
(* The automata listed in det must never enable two transitions with         *)
(* different effects on the same letter; those listed in tot must always     *)
(* enable one.                                                               *)
(***************************************************************************)
EXTENDS TimedAutomata

CONSTANT Cases

VARIABLES c,     \* case
          q,     \* current states
          r,     \* current region of all the clocks
          act    \* the last event (only for reading counterexamples)
vars == <<c, q, r, act>>

As == Cases[c].auts

RECURSIVE CapOfAll(_, _, _)
CapOfAll(AA, qq, i) ==
  IF i = 0 THEN <<>> ELSE CapOfAll(AA, qq, i - 1) \o CapAt(AA[i], qq[i])

\* Canonical region for the states qq
Norm(AA, qq, rr) == Canon(rr, TLCEval(CapOfAll(AA, qq, Len(qq))))

Init ==
  /\ c \in DOMAIN Cases
  /\ q = [i \in DOMAIN Cases[c].auts |-> Cases[c].auts[i].init]
  /\ r = Norm(Cases[c].auts, q, ZeroRegion(Cases[c].n))
  /\ act = "start"

\* Run automaton i, i+1, ... on letter a (the clocks of different automata are disjoint)
RECURSIVE FireAll(_, _, _, _)
FireAll(i, a, qq, rr) ==
  IF i > Len(As) THEN [q |-> qq, r |-> rr]
  ELSE LET f == Fire(As[i], qq[i], a, rr)
       IN FireAll(i + 1, a, [qq EXCEPT ![i] = f.q], f.r)

RECURSIVE EpsAll(_, _, _, _)
EpsAll(i, qq, rr, fuel) ==
  IF i > Len(As) THEN [q |-> qq, r |-> rr]
  ELSE LET f == EpsClosure(As[i], qq[i], rr, fuel)
       IN EpsAll(i + 1, [qq EXCEPT ![i] = f.q], f.r, fuel)

Dead == \A i \in DOMAIN q : q[i] = 0

\* Time passes until the next region.  Unobservable transitions enabled at the
\* start fire first; one enabled on arrival fires immediately.
Delay ==
  /\ ~Dead
  /\ LET s == EpsAll(1, q, r, 8)
         t == TimeSucc(Norm(As, s.q, s.r))
         u == EpsAll(1, s.q, t, 1)
     IN q' = u.q /\ r' = Norm(As, u.q, u.r)
  /\ act' = "delay"
  /\ UNCHANGED c

Letter(a) ==
  /\ ~Dead
  /\ LET f == FireAll(1, a, q, r) IN q' = f.q /\ r' = Norm(As, f.q, f.r)
  /\ act' = a
  /\ UNCHANGED c

Next == Delay \/ \E k \in DOMAIN Cases[c].sigma : Letter(Cases[c].sigma[k])
Spec == Init /\ [][Next]_vars

Acc(i) == Accepting(As[i], q[i])

Related ==
  CASE Cases[c].rel = "eq"     -> \A i \in 2..Len(As) : Acc(1) = Acc(i)
    [] Cases[c].rel = "neg"    -> Acc(1) # Acc(2)
    [] Cases[c].rel = "and"    -> Acc(3) = (Acc(1) /\ Acc(2))
    [] Cases[c].rel = "empty2" -> ~(Acc(1) /\ Acc(2))
    [] Cases[c].rel = "none"   -> ~Acc(1)
    [] Cases[c].rel = "any"    -> TRUE

Deterministic ==
  \A m \in DOMAIN Cases[c].det :
    LET i == Cases[c].det[m]
    IN q[i] # 0 => \A k \in DOMAIN Cases[c].sigma :
                     Cardinality({<<As[i].st[q[i]][e].t, As[i].st[q[i]][e].u>> :
                                    e \in Enabled(As[i], q[i], Cases[c].sigma[k], r)}) <= 1

Total ==
  \A m \in DOMAIN Cases[c].tot :
    LET i == Cases[c].tot[m]
    IN /\ q[i] # 0
       /\ \A k \in DOMAIN Cases[c].sigma : Enabled(As[i], q[i], Cases[c].sigma[k], r) # {}

\* The input is what the specification expects (an error of the harness otherwise)
InputOk == act = "start" => \A i \in DOMAIN As : WellFormed(As[i]) /\ CapsOk(As[i])

\* For deciding that automata differ: report each case in which a difference is reachable
\* and do not search behind the difference (Product_diff.cfg)
ReportDiff == Related \/ PrintT(<<"DIFF", Cases[c].id>>)

ViewNoAct == <<c, q, r>>
=============================================================================

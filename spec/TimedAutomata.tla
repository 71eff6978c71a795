--------------------------- MODULE TimedAutomata ---------------------------
(***************************************************************************)
(* Timed automata as the library represents them, and their operational     *)
(* semantics over regions.  An automaton is a record                        *)
(*   init : initial state          acc[s] : is s accepting                  *)
(*   off, n : its clocks are off+1 .. off+n of the product                  *)
(*   st[s] : sequence of transitions [a, t, g, u] leaving s, in order       *)
(*     a letter ("" = unobservable), t target, g sequence of constraints    *)
(*     <<clock, op, constant>>, u simultaneous assignment (see Regions)     *)
(*   cap[s] : caps of its clocks in s (used to keep the state space finite; *)
(*     checked, not trusted: see CapsOk)                                    *)
(* States are 1, 2, ...; 0 is the implicit rejecting sink.                  *)
(***************************************************************************)
EXTENDS Regions

EPS == ""

GuardHolds(r, g) == \A k \in DOMAIN g : Holds(r, g[k][1], g[k][2], g[k][3])

\* Transitions of A leaving s on letter a which are enabled in r
Enabled(A, s, a, r) ==
  {k \in DOMAIN A.st[s] : A.st[s][k].a = a /\ GuardHolds(r, A.st[s][k].g)}

FirstOf(S) == CHOOSE x \in S : \A y \in S : x <= y

\* One discrete step: [q, r] after reading a from state s in region r
Fire(A, s, a, r) ==
  IF s = 0 THEN [q |-> 0, r |-> r]
  ELSE LET en == Enabled(A, s, a, r)
       IN IF en = {} THEN [q |-> 0, r |-> r]
          ELSE LET e == A.st[s][FirstOf(en)]
               IN [q |-> e.t, r |-> Assign(r, A.off, e.u)]

\* Urgent unobservable transitions: fire (at most fuel times) while one is enabled
RECURSIVE EpsClosure(_, _, _, _)
EpsClosure(A, s, r, fuel) ==
  IF ~A.eps \/ s = 0 \/ fuel = 0 THEN [q |-> s, r |-> r]
  ELSE IF Enabled(A, s, EPS, r) = {} THEN [q |-> s, r |-> r]
  ELSE LET f == Fire(A, s, EPS, r) IN EpsClosure(A, f.q, f.r, fuel - 1)

Accepting(A, s) == s # 0 /\ A.acc[s]

CapAt(A, s) == IF s = 0 THEN [x \in 1..A.n |-> -1] ELSE A.cap[s]

(***************************************************************************)
(* The caps are sound when they bound every constant tested in a state and  *)
(* are inductive: the cap of a clock bounds the caps, at the target, of the *)
(* clocks which receive its value.                                          *)
(***************************************************************************)
CapsOk(A) ==
  \A s \in DOMAIN A.st : \A k \in DOMAIN A.st[s] :
    LET e == A.st[s][k]
    IN /\ \A m \in DOMAIN e.g : A.cap[s][e.g[m][1] - A.off] >= e.g[m][3]
       /\ e.t # 0 => \A y \in 1..A.n :
            e.u[y][1] = 1 => A.cap[s][e.u[y][2] - A.off] >= A.cap[e.t][y]

WellFormed(A) ==
  /\ A.init \in DOMAIN A.st \cup {0}
  /\ \A s \in DOMAIN A.st : \A k \in DOMAIN A.st[s] :
        LET e == A.st[s][k]
        IN /\ e.t \in DOMAIN A.st \cup {0}
           /\ Len(e.u) = A.n
           /\ \A m \in DOMAIN e.g : e.g[m][1] \in (A.off + 1)..(A.off + A.n)
           /\ \A y \in 1..A.n : e.u[y][1] = 1 => e.u[y][2] \in (A.off + 1)..(A.off + A.n)
=============================================================================

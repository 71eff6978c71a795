----------------------------- MODULE Determinism -----------------------------
(***************************************************************************)
(* Well-formedness and determinism of timed automata as the library hands    *)
(* them out.  A guard restricts every clock on its own and only compares     *)
(* with integers, hence two guards can hold together exactly if for every    *)
(* clock some half integer (up to the largest constant + 1) satisfies both:  *)
(* nothing is approximated here.                                             *)
(*                                                                           *)
(* A case is a history of automata (the hypotheses of a learning run and its *)
(* result, or single automata given to the determinism check); the states    *)
(* of this specification are the automata of the history, one after another, *)
(* and in each of them the states of the automaton.                          *)
(*   must = 1 : the automaton is one that the library itself handed out as   *)
(*              a hypothesis, so it has to be deterministic                  *)
(*   flag     : recorded answer of the determinism check                     *)
(* A case with a field "merges" records calls which make the branching of    *)
(* one state deterministic: transitions before, transitions after.           *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

Cases == ndJsonDeserialize(IOEnv.CASES)

VARIABLES c, h   \* case and position in its history
vars == <<c, h>>
Init == c \in DOMAIN Cases /\ h = 1
Next == h < Len(Cases[c].history) /\ h' = h + 1 /\ UNCHANGED c
Spec == Init /\ [][Next]_vars

Item == Cases[c].history[h]

\* A transition is [a, t, g, r]: g constraints <<clock, op, constant>> with clocks 0.., r assignments
\* <<clock, kind, value>> where kind = 1 copies clock value and kind = 0 assigns a constant.
Hold(v, op, k) == CASE op = "<" -> v < 2 * k [] op = "<=" -> v <= 2 * k [] op = ">=" -> v >= 2 * k [] op = ">" -> v > 2 * k
Largest(g) == IF g = <<>> THEN 0 ELSE CHOOSE m \in {g[k][3] : k \in DOMAIN g} : \A k \in DOMAIN g : g[k][3] <= m
\* The half integers at which every constraint of g on clock x holds
On(g, x, top) == {v \in 0..(2 * top + 2) : \A k \in DOMAIN g : g[k][1] = x => Hold(v, g[k][2], g[k][3])}
Clocks(g) == {g[k][1] : k \in DOMAIN g}
Max2(i, j) == IF i > j THEN i ELSE j
Together(g, f) ==
  LET top == Max2(Largest(g), Largest(f))
  IN \A x \in Clocks(g) \cup Clocks(f) : On(g, x, top) \cap On(f, x, top) # {}
Possible(g) == \A x \in Clocks(g) : On(g, x, Largest(g)) # {}

\* No two transitions of the sequence with the same letter can be enabled together
Branching(ts) == \A i \in DOMAIN ts : \A j \in 1..(i - 1) : ts[i].a = ts[j].a => ~Together(ts[i].g, ts[j].g)

DetAut(A) == \A s \in DOMAIN A.st : Branching(A.st[s])

Structure(A) ==
  /\ Len(A.init) <= 1
  /\ A.st # <<>> => Len(A.init) = 1
  /\ \A k \in DOMAIN A.init : A.init[k] \in DOMAIN A.st
  /\ \A s \in DOMAIN A.st : \A k \in DOMAIN A.st[s] :
       LET e == A.st[s][k]
       IN /\ e.t \in DOMAIN A.st
          /\ \A m \in DOMAIN e.g : e.g[m][1] \in 0..(A.n - 1) /\ e.g[m][3] >= 0
          /\ \A m \in DOMAIN e.r : e.r[m][1] \in 0..(A.n - 1) /\ (e.r[m][2] = 1 => e.r[m][3] \in 0..(A.n - 1))
          \* at most one value for each clock
          /\ \A m \in DOMAIN e.r : \A l \in 1..(m - 1) : e.r[m][1] # e.r[l][1]

Declared(A) ==
  \A s \in DOMAIN A.st : \A k \in DOMAIN A.st[s] : \A m \in DOMAIN A.st[s][k].g :
    A.st[s][k].g[m][3] <= A.mc[A.st[s][k].g[m][1] + 1]

IsAut == "aut" \in DOMAIN Item
IsMerge == "before" \in DOMAIN Item

(***************************************************************************)
WellFormed == (IsAut /\ Item.must = 1) => Structure(Item.aut)
ConstantsDeclared == (IsAut /\ Item.must = 1) => Declared(Item.aut)
Deterministic == (IsAut /\ Item.must = 1) => DetAut(Item.aut)
CheckExact == IsAut => (Item.flag = 1) = DetAut(Item.aut)

\* Making the branching of the first state deterministic: it is deterministic afterwards, every transition
\* left leads where one of the original ones led, and (unless some clocks are to be kept precise, which
\* drops the transitions that do not) nothing that was enabled before is disabled.
Before == Item.before.st[1]
After == Item.after.st[1]
MergedDeterministic == IsMerge => Branching(After)
Enabled(ts, a, v) == \E k \in DOMAIN ts : ts[k].a = a /\ \A m \in DOMAIN ts[k].g : Hold(v[ts[k].g[m][1]], ts[k].g[m][2], ts[k].g[m][3])
Grid(n) == [0..(n - 1) -> 0..(2 * Item.max + 1)]
MergedCovers ==
  (IsMerge /\ Item.precise = 0) =>
    \A v \in Grid(Item.n) : \A a \in {Before[k].a : k \in DOMAIN Before} : Enabled(Before, a, v) => Enabled(After, a, v)
MergedOrigin ==
  IsMerge => \A k \in DOMAIN After : \E l \in DOMAIN Before :
                Before[l].a = After[k].a /\ Before[l].t = After[k].t /\ Before[l].r = After[k].r
=============================================================================

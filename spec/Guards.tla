------------------------------- MODULE Guards -------------------------------
(***************************************************************************)
(* Guards of timed automata: finite conjunctions of comparisons of a clock  *)
(* with an integer, written <<clock, op, c>> with clocks 1..n.  A guard     *)
(* denotes a set of clock valuations; since it can neither compare two      *)
(* clocks nor see anything but integers, the half-integer points up to the  *)
(* largest constant + 1 distinguish any two guards.  Every case is a list   *)
(* of recorded evaluations of the guard algebra of the implementation.      *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

VARIABLES c, p

Cases == ndJsonDeserialize(IOEnv.CASES)

\* Values are half integers: v stands for v / 2
Hold(v, op, k) == CASE op = "<" -> v < 2 * k [] op = "<=" -> v <= 2 * k [] op = ">=" -> v >= 2 * k [] op = ">" -> v > 2 * k
In(v, g) == \A k \in DOMAIN g : Hold(v[g[k][1]], g[k][2], g[k][3])
InSome(v, gs) == \E k \in DOMAIN gs : In(v, gs[k])

G1 == [1..1 -> 0..9]
G2 == [1..2 -> 0..9]
G3 == [1..3 -> 0..7]
\* Cases with larger constants or more clocks say how far the grid has to reach (tops is what occurs)
Tops == {<<Cases[k].n, Cases[k].top>> : k \in {j \in DOMAIN Cases : Cases[j].top > 0}}
Wide == TLCEval([t \in Tops |-> TLCEval([1..t[1] -> 0..t[2]])])
Top(n) == IF Cases[c].top > 0 THEN Cases[c].top ELSE IF n = 3 THEN 7 ELSE 9
Grid(n) == IF Cases[c].top > 0 THEN Wide[<<n, Cases[c].top>>] ELSE CASE n = 1 -> G1 [] n = 2 -> G2 [] n = 3 -> G3

Set(n, g) == {v \in Grid(n) : In(v, g)}
Below(n, v, g) == \E w \in Grid(n) : (\A i \in 1..n : w[i] >= v[i]) /\ In(w, g)

\* Projections to one clock (a satisfiable guard is the product of its projections)
Proj(S, i) == {v[i] : v \in S}
\* The least interval with integer bounds, given by the half-integer points in it
Hull1(V) == LET lo == CHOOSE x \in V : \A y \in V : x <= y
                hi == CHOOSE x \in V : \A y \in V : x >= y
            IN lo..hi

Init == c \in DOMAIN Cases /\ p = 1
Next == p < Len(Cases[c].steps) /\ p' = p + 1 /\ UNCHANGED c
Spec == Init /\ [][Next]_<<c, p>>

Infinite == 1000000
\* x is bounded from above by b = <<constant, closed>> within the grid
Upper(b, v) == b[1] = Infinite \/ v < 2 * b[1] \/ (v = 2 * b[1] /\ b[2] = 1)
Lower(b, v) == v > 2 * b[1] \/ (v = 2 * b[1] /\ b[2] = 1)

\* The waiting time w (in quarters): v + w satisfies the guard
After(v, w, g) == \A k \in DOMAIN g :
  LET x == 2 * v[g[k][1]] + w
  IN CASE g[k][2] = "<" -> x < 4 * g[k][3] [] g[k][2] = "<=" -> x <= 4 * g[k][3]
       [] g[k][2] = ">=" -> x >= 4 * g[k][3] [] g[k][2] = ">" -> x > 4 * g[k][3]

Agree(s) ==
  LET n == Cases[c].n
  IN CASE s.op = "satisfy" -> \A v \in 0..(Len(s.res) - 1) : (s.res[v + 1] = 1) = Hold(v, s.g[1][2], s.g[1][3])
       \* three-way comparison: 0 if satisfied, 1 if the value is too large, -1 if it is too small
       [] s.op = "compare" -> \A v \in 0..(Len(s.res) - 1) : s.res[v + 1] =
              (IF Hold(v, s.g[1][2], s.g[1][3]) THEN 0 ELSE IF s.g[1][2] \in {"<", "<="} THEN 1 ELSE -1)
       [] s.op = "negate1" -> \A v \in Grid(n) : In(v, s.out) = ~In(v, s.g)
       [] s.op = "negateAll" -> \A v \in Grid(n) : InSome(v, [k \in DOMAIN s.out |-> <<s.out[k]>>]) = ~In(v, s.g)
       [] s.op = "conjunction" -> \A v \in Grid(n) : In(v, s.out) = (In(v, s.g) /\ In(v, s.h))
       [] s.op = "simplify" -> \A v \in Grid(n) : In(v, s.out) = In(v, s.g)
       [] s.op = "satisfiable" -> (s.res = 1) = (\E v \in Grid(n) : In(v, s.g))
       \* never claimed wrongly; on simplified guards exact
       [] s.op = "weaker" ->
            LET inc == \A v \in Grid(n) : In(v, s.h) => In(v, s.g)
            IN /\ s.res = 1 => inc
               /\ (s.norm = 1 /\ \E v \in Grid(n) : In(v, s.h)) => (s.res = 1) = inc
       [] s.op = "hull" ->
            LET S == [k \in DOMAIN s.gs |-> TLCEval(Set(n, s.gs[k]))]
                U == TLCEval(UNION {S[k] : k \in DOMAIN S})
                H == TLCEval([i \in 1..n |-> Hull1(Proj(U, i))])
            IN (\A k \in DOMAIN S : S[k] # {}) =>
                  \A v \in Grid(n) : In(v, s.out) = (\A i \in 1..n : v[i] \in H[i])
       \* guards which differ in at most one clock are only reported adjacent if their hull is their union
       [] s.op = "adjacent" ->
            LET A == TLCEval(Set(n, s.g)) B == TLCEval(Set(n, s.h))
                diff == {i \in 1..n : Proj(A, i) # Proj(B, i)}
                H == TLCEval([i \in 1..n |-> Hull1(Proj(A \cup B, i))])
            IN (A # {} /\ B # {} /\ Cardinality(diff) <= 1 /\ s.res = 1) =>
                  \A v \in Grid(n) : (\A i \in 1..n : v[i] \in H[i]) => (v \in A \/ v \in B)
       \* .. and two consecutive pieces of one clock always are
       [] s.op = "touching" -> s.res = 1
       [] s.op = "bounds" ->
            LET S == TLCEval(Set(n, s.g))
            IN S # {} => \A i \in 1..n : \A x \in 0..Top(n) :
                  (i <= Len(s.up)) => ((x \in Proj(S, i)) = (Upper(s.up[i], x) /\ Lower(s.lo[i], x)))
       [] s.op = "simple" ->
            LET S == TLCEval(Set(n, s.g))
            IN S # {} => {s.res[k] : k \in DOMAIN s.res} = {i \in 1..n : Cardinality(Proj(S, i)) = 1}
       [] s.op = "widen" ->
            (\E v \in Grid(n) : In(v, s.g)) => \A v \in Grid(n) : In(v, s.out) = Below(n, v, s.g)
       \* an upper bound is added to clocks without one: never weaker, and for one clock the earliest values stay
       [] s.op = "addUpper" ->
            LET S == TLCEval(Set(n, s.g)) T == TLCEval(Set(n, s.out))
            IN /\ T \subseteq S
               /\ S # {} => T # {}
               /\ (n = 1 /\ S # {}) => (CHOOSE x \in Proj(S, 1) : \A y \in Proj(S, 1) : x <= y) \in Proj(T, 1)
       \* no disjunct of the result may be an element of the disjunction, and everything else is covered
       [] s.op = "negate" -> \A v \in Grid(n) : InSome(v, s.out) = ~InSome(v, s.gs)
       [] s.op = "wait" ->
            LET W == TLCEval({w \in 0..(2 * Top(n) + 6) : After(s.v, w, s.g)})
            IN IF W = {} THEN s.res[1] = Infinite
               ELSE LET m == CHOOSE w \in W : \A u \in W : w <= u
                    IN s.res = IF m % 2 = 0 THEN <<m, 1>> ELSE <<m - 1, 0>>
       [] s.op = "equal" ->
            /\ (s.res = 1) = (s.g = s.h)
            /\ s.res = 1 => s.hash = 1

Correct == Agree(Cases[c].steps[p])
=============================================================================

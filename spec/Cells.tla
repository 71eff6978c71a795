------------------------------- MODULE Cells --------------------------------
(***************************************************************************)
(* Symbolic membership.  A cell is the answer to a symbolic query: a word   *)
(* of letters w, a constraint lam on its durations d_1 .. d_n, and a list   *)
(* res of constraints.  It is right if for every duration vector in lam     *)
(* the target accepts the timed word exactly when the vector satisfies one  *)
(* of the answers, and no answer leaves lam.  TLC builds all the duration   *)
(* vectors of lam (and of the answers) on a grid fine enough to meet every  *)
(* region, coordinate by coordinate, while executing the target.            *)
(* A constraint is a list of <<i, j, c, s, sense>>: the sum of d_i .. d_j   *)
(* is at most (sense 1) or at least (sense -1) c, strictly if s = 0.        *)
(***************************************************************************)
EXTENDS Exec, Json, IOUtils

Cases == ndJsonDeserialize(IOEnv.CASES)

VARIABLES c, k, d, q, v
vars == <<c, k, d, q, v>>

A == Cases[c].aut
Cell == Cases[c].cells[k]
N == Len(Cell.w) + 1
\* One unit of time is K steps of the grid; the constants of the automaton are given in units of 1/S
S == Cases[c].s
K == Cell.K * S

RECURSIVE Sum(_, _, _)
Sum(x, i, j) == IF i > j THEN 0 ELSE x[i] + Sum(x, i + 1, j)

\* A vector of m coordinates may still be extended to satisfy z
One(x, m, b) ==
  IF b[2] <= m
  THEN LET t == Sum(x, b[1], b[2])
       IN IF b[5] = 1 THEN t < b[3] * K \/ (t = b[3] * K /\ b[4] = 1) ELSE t > b[3] * K \/ (t = b[3] * K /\ b[4] = 1)
  ELSE b[5] = 1 /\ b[1] <= m => Sum(x, b[1], m) <= b[3] * K
Possible(x, z) == \A n \in DOMAIN z : One(x, Len(x), z[n])

\* The guards of one automaton serve all the cells
ScaleG(g) == [n \in DOMAIN g |-> <<g[n][1], g[n][2], g[n][3] * Cell.K>>]
ScaleU(u) == [n \in DOMAIN u |-> IF u[n][1] = 0 THEN <<0, u[n][2] * Cell.K>> ELSE u[n]]
Fire1(s, a, val) ==
  IF s = 0 THEN [q |-> 0, v |-> val]
  ELSE LET en == {n \in DOMAIN A.st[s] : A.st[s][n].a = a /\ GuardSat(val, ScaleG(A.st[s][n].g))}
       IN IF en = {} THEN [q |-> 0, v |-> val]
          ELSE LET e == A.st[s][FirstOf(en)] IN [q |-> e.t, v |-> TLCEval(AssignV(val, 0, ScaleU(e.u)))]

Init ==
  /\ c \in DOMAIN Cases
  /\ k \in DOMAIN Cases[c].cells
  /\ d = <<>> /\ q = Cases[c].aut.init /\ v = [i \in 1..Cases[c].aut.n |-> 0]

Next ==
  /\ Len(d) < N
  /\ \E x \in 0..(K * Cell.top[Len(d) + 1]) :
       LET e == Append(d, x)
       IN /\ Possible(e, Cell.lam) \/ \E r \in DOMAIN Cell.res : Possible(e, Cell.res[r])
          /\ d' = e
          /\ LET f == IF Len(e) = 1 THEN [q |-> q, v |-> v] ELSE Fire1(q, Cell.w[Len(e) - 1], v)
             IN q' = f.q /\ v' = (IF f.q = 0 THEN v ELSE TLCEval([i \in DOMAIN f.v |-> f.v[i] + x]))
  /\ UNCHANGED <<c, k>>

Spec == Init /\ [][Next]_vars

Exact ==
  Len(d) = N =>
    LET inLam == Possible(d, Cell.lam)
        inRes == \E r \in DOMAIN Cell.res : Possible(d, Cell.res[r])
    IN (inRes => inLam) /\ (inLam => inRes = Accepting(A, q))

InputOk == Len(d) = 0 => WellFormed(A) /\ ~A.eps /\ Len(Cell.top) = N
=============================================================================

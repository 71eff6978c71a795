------------------------------- MODULE Table -------------------------------
(***************************************************************************)
(* The timed observation table as a state machine.  The rows are            *)
(* elementary languages, i.e. a word of letters with a region of its        *)
(* durations (over the clocks x_i = T_{i,N}); the set P of chosen rows is   *)
(* closed under prefixes and the rows are the empty one and all the         *)
(* successors, by a letter or by time, of the rows in P.  The learner only  *)
(* ever chooses more rows (Choose), which adds their successors, and adds   *)
(* columns (AddColumn), which adds a cell to every row.                     *)
(*                                                                          *)
(* Each case is a recorded run of the learner: a sequence of projections of *)
(* its table.  The replay rebuilds the rows from the recorded successor     *)
(* edges with the region successors of the specification, and checks that   *)
(* every projection is the table of a state which is reached from the one   *)
(* before by such steps.                                                    *)
(***************************************************************************)
EXTENDS Zones, Json, IOUtils

Cases == ndJsonDeserialize(IOEnv.CASES)

VARIABLES c, p, rows
vars == <<c, p, rows>>

K == Cases[c]
Steps == K.steps
T == Steps[p]
N == Len(T.rows)
Letters == DOMAIN K.sigma

Epsilon == [w |-> <<>>, r |-> ZeroRegion(1)]
ByTime(l) == [w |-> l.w, r |-> TimeSucc(l.r)]
ByLetter(l, a) == [w |-> Append(l.w, a), r |-> [ip |-> Append(l.r.ip, 0), rk |-> Append(l.r.rk, 0)]]

\* The rows a step adds, in the order of the recorded table; t.cont and t.disc give the successor of
\* each row (0 if it has none)
RECURSIVE Build(_, _)
Build(rs, t) ==
  IF Len(rs) >= Len(t.rows) THEN rs
  ELSE LET i == Len(rs) + 1
           byTime == {q \in DOMAIN rs : t.cont[q] = i}
           byLetter == {<<q, a>> \in (DOMAIN rs) \X Letters : t.disc[a][q] = i}
       IN IF byTime # {} THEN Build(Append(rs, ByTime(rs[CHOOSE q \in byTime : TRUE])), t)
          ELSE IF byLetter # {}
               THEN LET e == CHOOSE e \in byLetter : TRUE IN Build(Append(rs, ByLetter(rs[e[1]], K.sigma[e[2]])), t)
               ELSE rs

Init == c \in DOMAIN Cases /\ p = 0 /\ rows = <<Epsilon>>

Next ==
  /\ p < Len(Steps)
  /\ p' = p + 1
  /\ rows' = Build(rows, Steps[p + 1])
  /\ UNCHANGED c

Spec == Init /\ [][Next]_vars

InP(i) == T.p[i] = 1
Old == IF p > 1 THEN Len(Steps[p - 1].rows) ELSE 0
OldCols == IF p > 1 THEN Len(Steps[p - 1].cols) ELSE 0

\* Exactly the chosen rows have successors, all of them, and no row is reached twice
Successors ==
  p > 0 =>
    /\ Len(T.p) = N /\ Len(T.cont) = N
    /\ \A i \in 1..N : (T.cont[i] # 0) = InP(i) /\ \A a \in Letters : (T.disc[a][i] # 0) = InP(i)
    /\ LET edges == {<<i, 0, T.cont[i]>> : i \in {i \in 1..N : InP(i)}}
                    \cup {<<i, a, T.disc[a][i]>> : i \in {i \in 1..N : InP(i)}, a \in Letters}
       IN {e[3] : e \in edges} = 2..N /\ Cardinality(edges) = N - 1
    /\ Len(rows) = N

\* P is closed under prefixes: what leads to a chosen row is chosen (a row is reached only from a chosen
\* one, by Successors), and the empty row is chosen
Rooted == p > 0 => InP(1)

\* A new row is the successor of the row it comes from
SameRow(rec, l) ==
  LET n == Len(l.r.ip)
  IN /\ rec.w = l.w
     /\ \A k \in DOMAIN rec.z : <<rec.z[k][3], rec.z[k][4]>> = Tight(l.r, rec.z[k][1], rec.z[k][2])
     /\ \A i \in 0..n, j \in 0..n : i # j => \E k \in DOMAIN rec.z : rec.z[k][1] = i /\ rec.z[k][2] = j
Rows == p > 0 => \A i \in (Old + 1)..N : i <= Len(rows) /\ SameRow(K.rows[T.rows[i]], rows[i])

\* No word set is represented twice
Distinct ==
  p > 0 =>
    /\ \A i \in (Old + 1)..N : \A j \in 1..(i - 1) : T.rows[i] # T.rows[j]
    /\ \A i \in DOMAIN T.cols : \A j \in 1..(i - 1) : T.cols[i] # T.cols[j]

\* Nothing is lost or changed
Kept ==
  p > 1 =>
    LET B == Steps[p - 1]
    IN /\ Len(B.rows) <= N /\ Len(B.cols) <= Len(T.cols)
       /\ \A i \in DOMAIN B.rows : T.rows[i] = B.rows[i] /\ (B.p[i] = 1 => InP(i))
       /\ \A i \in DOMAIN B.rows : B.p[i] = 1 => T.cont[i] = B.cont[i] /\ \A a \in Letters : T.disc[a][i] = B.disc[a][i]
       /\ \A j \in DOMAIN B.cols : T.cols[j] = B.cols[j]
       /\ \A i \in DOMAIN B.cells : \A j \in DOMAIN B.cells[i] : T.cells[i][j] = B.cells[i][j]

\* There is a cell for every row and column, and it is about their concatenation
Filled ==
  p > 0 =>
    /\ Len(T.cells) = N /\ T.aligned = 1
    /\ \A i \in 1..N : Len(T.cells[i]) = Len(T.cols)
    /\ \A i \in 1..N : \A j \in DOMAIN T.cols :
         (i > Old \/ j > OldCols) => K.cells[T.cells[i][j]].w = K.rows[T.rows[i]].w \o K.cols[T.cols[j]].w

(***************************************************************************)
(* Cohesion.  Hyps[k] is what was recorded when the k-th hypothesis was     *)
(* built: the rows of P each other row is identified with, and, for the     *)
(* pairs that matter, whether they are equivalent now.                      *)
(***************************************************************************)
HypsHere == {k \in DOMAIN K.hyps : K.hyps[k].step = p}
Num(s) == {s[i] : i \in DOMAIN s}

Closed ==
  \A k \in HypsHere :
    LET H == K.hyps[k]
    IN /\ {H.used[i].i : i \in DOMAIN H.used} = {i \in 1..N : ~InP(i)}
       /\ \A i \in DOMAIN H.used : H.used[i].to # <<>>
       /\ \A i \in DOMAIN H.used : \A m \in DOMAIN H.used[i].to : InP(H.used[i].to[m].j)
       /\ \A i \in DOMAIN H.closed : H.closed[i][2] # 0
\* cons: <<row, row, holds>>: two equivalent rows of P have equivalent successors by each letter; and if their time
\* successors are not equivalent, then no column, preceded by a little time, tells the two rows apart
Consistent == \A k \in HypsHere : \A i \in DOMAIN K.hyps[k].cons : K.hyps[k].cons[i][3] = 1
\* sat: <<row of P, its time successor, is that in P, are they equivalent>>
Saturated ==
  \A k \in HypsHere :
    /\ {K.hyps[k].sat[i][1] : i \in DOMAIN K.hyps[k].sat} = {i \in 1..N : InP(i)}
    /\ \A i \in DOMAIN K.hyps[k].sat :
         LET s == K.hyps[k].sat[i]
         IN s[2] = T.cont[s[1]] /\ (InP(s[2]) \/ s[4] = 1)
\* A row of P whose time successor is not in P has a clock at an integer
Exterior ==
  \A k \in HypsHere : \A i \in 1..N :
    (InP(i) /\ ~InP(T.cont[i])) => \E x \in DOMAIN rows[i].r.rk : rows[i].r.rk[x] = 0

(***************************************************************************)
(* Progress.  Between two hypotheses the table grows; a row is not          *)
(* identified again in the way that a new column refutes.                   *)
(***************************************************************************)
Size(t) == Len(t.cols) + Cardinality({i \in DOMAIN t.p : t.p[i] = 1})
Progress ==
  \A k \in HypsHere : k > 1 => Size(T) > Size(Steps[K.hyps[k - 1].step])
=============================================================================

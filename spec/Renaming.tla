------------------------------ MODULE Renaming ------------------------------
(***************************************************************************)
(* When may two rows of the observation table be identified?  A row is an   *)
(* elementary language: letters w and a region of its durations, given by   *)
(* bounds on the clocks x_i = d_i + .. + d_n (time since letter i - 1) and  *)
(* their differences.  A renaming is a set of equations x_i = y_j between   *)
(* the clocks of the left and of the right row.  It identifies the rows for *)
(* the columns (elementary languages too) if some words of the two rows     *)
(* satisfy it, and for all words of the rows which satisfy it and all words *)
(* of a column, the target accepts both continuations or none of them.      *)
(* TLC builds all the duration vectors on a grid fine enough to meet every  *)
(* joint region of the three words, and executes the target.                *)
(* What is recorded of the implementation: found = 1 if it says that the    *)
(* renaming ren identifies the rows; otherwise ren was given (asked = 1) or *)
(* none was found (asked = 0).                                              *)
(***************************************************************************)
EXTENDS Exec, Json, IOUtils

Cases == ndJsonDeserialize(IOEnv.CASES)

VARIABLES c, k, m, x, y, z
vars == <<c, k, m, x, y, z>>

A == Cases[c].aut
G == Cases[c].K
Pair == Cases[c].pairs[k]

Clock(v, off, i) == IF i = 0 THEN 0 ELSE v[i - off]
\* The bounds which involve clock i and no clock before it
Fits(v, i, l) ==
  \A n \in DOMAIN l.z :
     LET b == l.z[n]
     IN (b[1] = i \/ b[2] = i) /\ (b[1] >= i \/ b[1] = 0) /\ (b[2] >= i \/ b[2] = 0) =>
          LET D == Clock(v, i - 1, b[1]) - Clock(v, i - 1, b[2]) IN D < b[3] * G \/ (D = b[3] * G /\ b[4] = 1)
Upper(l, i) == (CHOOSE b \in {l.z[n] : n \in DOMAIN l.z} : b[1] = i /\ b[2] = 0)[3] * G

\* All clock vectors of l on the grid, from the last clock to the first
RECURSIVE Vecs(_, _)
Vecs(l, i) ==
  LET last == Len(l.w) + 1
  IN IF i > last THEN {<<>>}
     ELSE UNION {{v \in {<<a>> \o t : a \in (IF t = <<>> THEN 0 ELSE t[1])..Upper(l, i)} : Fits(v, i, l)} : t \in Vecs(l, i + 1)}
All(l) == Vecs(l, 1)

Equations(u, v) == \A n \in DOMAIN Pair.ren : u[Pair.ren[n][1]] = v[Pair.ren[n][2]]

Init == c \in DOMAIN Cases /\ k \in DOMAIN Cases[c].pairs /\ m = 0 /\ x = <<>> /\ y = <<>> /\ z = <<>>

Next ==
  Pair.found = 1 /\
  (\/ /\ m = 0 /\ x = <<>>
     /\ x' \in All(Pair.l) /\ y' \in {v \in All(Pair.r) : Equations(x', v)}
     /\ UNCHANGED <<c, k, m, z>>
  \/ /\ m = 0 /\ x # <<>>
     /\ m' \in DOMAIN Pair.cols /\ z' \in All(Pair.cols[m'])
     /\ UNCHANGED <<c, k, x, y>>)

Spec == Init /\ [][Next]_vars

Dur(v) == [i \in DOMAIN v |-> v[i] - (IF i = Len(v) THEN 0 ELSE v[i + 1])]
\* a word followed by another one: the last and the first duration add up
Follow(l, v, s, u) ==
  LET d == Dur(v) e == Dur(u)
  IN [w |-> l.w \o s.w, d |-> SubSeq(d, 1, Len(d) - 1) \o <<d[Len(d)] + e[1]>> \o SubSeq(e, 2, Len(e))]

Left(n, u, v) == Accepts(A, Follow(Pair.l, u, Pair.cols[n], v))
Right(n, u, v) == Accepts(A, Follow(Pair.r, u, Pair.cols[n], v))

Same == m > 0 => Left(m, x, z) = Right(m, y, z)

Possible == \E u \in All(Pair.l), v \in All(Pair.r) : Equations(u, v)
Satisfiable == (x = <<>> /\ Pair.found = 1) => Possible

\* Every clock of the right row is related to at most one of the left row
RightUnique == x = <<>> => \A i, j \in DOMAIN Pair.ren : Pair.ren[i][2] = Pair.ren[j][2] => i = j

\* A renaming that was given and rejected does not identify the rows
Rejected ==
  (x = <<>> /\ Pair.found = 0 /\ Pair.asked = 1 /\ Possible) =>
    \E u \in All(Pair.l), v \in All(Pair.r) :
      /\ Equations(u, v)
      /\ \E n \in DOMAIN Pair.cols : \E t \in All(Pair.cols[n]) : Left(n, u, t) # Right(n, v, t)

\* Rows without any equation to find: no equation is needed, or the two rows are the same
Found ==
  (x = <<>> /\ Pair.found = 0 /\ Pair.asked = 0) =>
    /\ Pair.l # Pair.r
    /\ \E n \in DOMAIN Pair.cols : \E t \in All(Pair.cols[n]) :
         {Left(n, u, t) : u \in All(Pair.l)} \cup {Right(n, v, t) : v \in All(Pair.r)} = BOOLEAN

InputOk ==
  x = <<>> => WellFormed(A) /\ ~A.eps /\ All(Pair.l) # {} /\ All(Pair.r) # {} /\ \A n \in DOMAIN Pair.cols : All(Pair.cols[n]) # {}
=============================================================================

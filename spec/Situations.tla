----------------------------- MODULE Situations -----------------------------
(***************************************************************************)
(* Imprecise clocks.  A hypothesis may store a representative value for a   *)
(* clock whose real value is only known up to its region.  Such a situation *)
(* is a triple (r, P, N): the region r of the represented values of the     *)
(* clocks x_1 >= ... >= x_n, the set P of clocks with exact values, and the *)
(* set N of regions which the real values may be in.  Letting time pass     *)
(* moves every region of N on while the precise clocks stay where those of  *)
(* the represented region are; a letter adds a precise clock.               *)
(***************************************************************************)
EXTENDS Zones

Clocks(q) == DOMAIN q.ip
Point(q, i) == q.rk[i] = 0
SameUnary(q, r, S) == \A i \in S : q.ip[i] = r.ip[i] /\ Point(q, i) = Point(r, i)
Sign(x) == IF x < 0 THEN -1 ELSE IF x > 0 THEN 1 ELSE 0
\* the same bounds on x_i - x_j
SameDiff(q, r, i, j) == q.ip[i] - q.ip[j] = r.ip[i] - r.ip[j] /\ Sign(q.rk[i] - q.rk[j]) = Sign(r.rk[i] - r.rk[j])

\* Regions which agree with r on every clock, on the differences of precise clocks, and on those of imprecise clocks
Around(r, P) ==
  {q \in {[ip |-> r.ip, rk |-> k] : k \in Ranks(Len(r.ip))} :
     /\ SameUnary(q, r, Clocks(r))
     /\ \A i, j \in Clocks(r) : (i \in P) = (j \in P) => SameDiff(q, r, i, j)}

\* Along the passing of time from q: the regions whose precise clocks are where those of r are
RECURSIVE Matching(_, _, _)
Matching(q, r, P) ==
  IF \E i \in P : q.ip[i] > r.ip[i] \/ (q.ip[i] = r.ip[i] /\ Point(r, i) /\ ~Point(q, i)) THEN {}
  ELSE (IF SameUnary(q, r, P) THEN {q} ELSE {}) \cup Matching(TimeSucc(q), r, P)
Follow(N, r, P) == UNION {Matching(q, r, P) : q \in N}

Precise(r, P) == P \cup {i \in Clocks(r) : Point(r, i)}
Start(r, P) ==
  LET Q == TLCEval(Precise(r, P))
      N == TLCEval(Around(r, P))
  IN [r |-> r, P |-> Q, N |-> TLCEval(IF Q = {} THEN N ELSE Follow(N, r, Q))]
Time(s) == LET r == TLCEval(TimeSucc(s.r)) IN [r |-> r, P |-> s.P, N |-> TLCEval(Follow(s.N, r, s.P))]
Add(q) == [ip |-> Append(q.ip, 0), rk |-> Append(q.rk, 0)]
Letter(s) == [r |-> Add(s.r), P |-> s.P \cup {Len(s.r.ip) + 1}, N |-> {Add(q) : q \in s.N}]

(***************************************************************************)
(* Assignments: u[k] = <<clock, 0, value / 64>> or <<clock, 1, clock>>      *)
(***************************************************************************)
Integral(v) == v % 64 = 0
Assigned(u) == {u[k][1] : k \in DOMAIN u}
PreciseAfter(P, u, size) ==
  {i \in 1..size :
     \/ \E k \in DOMAIN u : u[k][1] = i /\ (IF u[k][2] = 1 THEN u[k][3] \in P ELSE Integral(u[k][3]))
     \/ i \in P /\ i \notin Assigned(u)}
\* x := y is read as a bound on the new region q: the region of the copied clocks is kept, a constant gives
\* its unit interval, two constants the unit interval of their difference
Source(u, i) == IF i \in Assigned(u) THEN LET k == CHOOSE k \in DOMAIN u : u[k][1] = i IN <<u[k][2], u[k][3]>> ELSE <<1, i>>
AllowedAfter(q, r, u, size) ==
  /\ Len(q.ip) = size
  /\ \A i \in 1..size :
       LET a == Source(u, i)
       IN IF a[1] = 1 THEN q.ip[i] = r.ip[a[2]] /\ Point(q, i) = Point(r, a[2])
          ELSE q.ip[i] = a[2] \div 64 /\ Point(q, i) = Integral(a[2])
  /\ \A i, j \in 1..size :
       LET a == Source(u, i) b == Source(u, j)
       IN /\ (a[1] = 1 /\ b[1] = 1) => Sign(q.rk[i] - q.rk[j]) = Sign(r.rk[a[2]] - r.rk[b[2]])
          /\ (a[1] = 0 /\ b[1] = 0) => LET D == (a[2] \div 64) - (b[2] \div 64)
                                           t == Sign((a[2] % 64) - (b[2] % 64))
                                       IN Sign(q.rk[i] - q.rk[j]) = t
Internal(s, u) == Len(u) = 1 /\ u[1] = <<Len(s.r.ip) + 1, 0, 0>>

(***************************************************************************)
(* Guards are products of intervals; at half-integer points a region of one *)
(* clock is one point 2 * ip + (0 or 1).                                    *)
(***************************************************************************)
Pt(q, i) == 2 * q.ip[i] + (IF Point(q, i) THEN 0 ELSE 1)
Lowest(V) == CHOOSE x \in V : \A y \in V : x <= y
Highest(V) == CHOOSE x \in V : \A y \in V : x >= y
Box(N, n) == [i \in 1..n |-> LET V == TLCEval({Pt(q, i) : q \in N}) IN <<Lowest(V), Highest(V)>>]
Top == 18
Hold(v, op, k) == CASE op = "<" -> v < 2 * k [] op = "<=" -> v <= 2 * k [] op = ">=" -> v >= 2 * k [] op = ">" -> v > 2 * k
InG(i, v, g) == \A k \in DOMAIN g : g[k][1] # i \/ Hold(v, g[k][2], g[k][3])
\* The guard g is the box b (without its upper bounds if open)
SameBox(g, b, open) ==
  /\ \A k \in DOMAIN g : g[k][1] \in DOMAIN b
  /\ \A i \in DOMAIN b : \A v \in 0..Top : InG(i, v, g) = (b[i][1] <= v /\ (open \/ v <= b[i][2]))
HoldsIn(q, g) == \A i \in Clocks(q) : InG(i, Pt(q, i), g)

Sum(d, i) == LET S[m \in i..(Len(d) + 1)] == IF m > Len(d) THEN 0 ELSE d[m] + S[m + 1] IN S[i]
RegOfWord(d) == RegionOf([i \in DOMAIN d |-> Sum(d, i)], 64)
RegOfVal(v) == RegionOf(v, 64)
SetOf(s) == {s[k] : k \in DOMAIN s}

Bounded(g) == \E k \in DOMAIN g : g[k][2] \in {"<", "<="}
\* the box (without its upper bounds if open) contains the guard
Contains(b, open, g, n) == \A i \in 1..n : \A v \in 0..Top : InG(i, v, g) => b[i][1] <= v /\ (open \/ v <= b[i][2])
=============================================================================

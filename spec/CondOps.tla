------------------------------ MODULE CondOps ------------------------------
(***************************************************************************)
(* Timed conditions: constraints on the sums T_{i,j} = tau_i + .. + tau_j   *)
(* of the durations of a timed word with n durations tau_0 .. tau_{n-1}.    *)
(* With x_{i+1} = T_{i,n-1} a condition is a zone over n clocks, and since  *)
(* T_{i,j} = x_{i+1} - x_{j+2} (x_{n+1} = 0) every duration vector is a     *)
(* valuation with x_1 >= x_2 >= .. >= x_n >= 0.  A register machine over    *)
(* conditions: each case is a recorded history of operations, each with the *)
(* bounds the implementation reports for the resulting condition; the       *)
(* specification compares it with the meaning of the operation on all the   *)
(* regions of the case's size.                                              *)
(***************************************************************************)
EXTENDS Zones, Json, IOUtils

Cases == ndJsonDeserialize(IOEnv.CASES)

Norm(r) ==
  LET D == DOMAIN r.ip
      used == {r.rk[i] : i \in D} \ {0}
  IN [ip |-> r.ip, rk |-> TLCEval([i \in D |-> IF r.rk[i] = 0 THEN 0 ELSE Cardinality({k \in used : k <= r.rk[i]})])]

Entry(n, r) ==
  [r |-> r, t |-> TLCEval([m \in 1..((n + 1) * (n + 1)) |->
                     LET b == Tight(r, (m - 1) \div (n + 1), (m - 1) % (n + 1)) IN 2 * b[1] + b[2]])]

\* Duration vectors
Mono(n, r) ==
  \A i \in 1..(n - 1) : r.ip[i] > r.ip[i + 1] \/ (r.ip[i] = r.ip[i + 1] /\ r.rk[i] >= r.rk[i + 1])
MTable(n, top) == {Entry(n, r) : r \in {q \in AllRegions(n, top) : Mono(n, q)}}
M1 == MTable(1, 8)
M2 == MTable(2, 6)
M3 == MTable(3, 4)
M4 == MTable(4, 3)
M(n) == CASE n = 1 -> M1 [] n = 2 -> M2 [] n = 3 -> M3 [] n = 4 -> M4
\* General valuations
GTable(n, top) == {Entry(n, r) : r \in AllRegions(n, top)}
G1 == GTable(1, 6)
G2 == GTable(2, 5)
G3 == GTable(3, 3)
G4 == GTable(4, 2)
G(n) == CASE n = 1 -> G1 [] n = 2 -> G2 [] n = 3 -> G3 [] n = 4 -> G4
\* A condition whose sums are at most this is represented completely in M(n) and G(n)
Bound(n) == CASE n = 1 -> 5 [] n = 2 -> 4 [] n = 3 -> 3 [] n = 4 -> 2

At(n, i, j) == i * (n + 1) + j + 1
Code(n, z) == TLCEval([k \in DOMAIN z |-> <<At(n, z[k][1], z[k][2]), 2 * z[k][3] + z[k][4]>>])
Has(e, k) == \A m \in DOMAIN k : e.t[k[m][1]] <= k[m][2]
Sat(n, z) == LET k == Code(n, z) IN {e \in M(n) : Has(e, k)}
SatG(n, z) == LET k == Code(n, z) IN {e \in G(n) : Has(e, k)}

VARIABLES c, p, reg
vars == <<c, p, reg>>
Steps == Cases[c].steps
\* A register: the number of durations and the bounds
Init == c \in DOMAIN Cases /\ p = 0 /\ reg = [i \in 1..3 |-> [n |-> 0, z |-> <<>>]]
Next ==
  /\ p < Len(Steps)
  /\ p' = p + 1
  /\ reg' = (IF Steps[p + 1].dst = 0 THEN reg
             ELSE [reg EXCEPT ![Steps[p + 1].dst] = [n |-> Steps[p + 1].n, z |-> Steps[p + 1].z]])
  /\ UNCHANGED c
Spec == Init /\ [][Next]_vars

(***************************************************************************)
(* Meanings                                                                 *)
(***************************************************************************)
Map(z, f(_)) == [k \in DOMAIN z |-> <<f(z[k][1]), f(z[k][2]), z[k][3], z[k][4]>>]

\* r with one more clock, in every possible position
Extend(n, r, top) ==
  LET mx == Cardinality({r.rk[i] : i \in 1..n} \ {0})
  IN {[ip |-> Append(r.ip, d), rk |-> Append(TLCEval([i \in 1..n |-> 2 * r.rk[i]]), k)] : d \in 0..top, k \in 0..(2 * mx + 1)}

\* Concatenation: the last duration of the first is followed by the first duration of the second
Plus(e, n, a, b) ==
  LET sp == n + 1
      za == Map(a.z, LAMBDA i : IF i = 0 THEN sp ELSE i)
      zb == Map(b.z, LAMBDA i : IF i = 0 THEN 0 ELSE IF i = 1 THEN sp ELSE a.n + i - 1)
      ends == <<<<sp, a.n, 0, 1>>, <<IF b.n = 1 THEN 0 ELSE a.n + 1, sp, 0, 1>>>>
  IN \E q \in Extend(n, e.r, e.r.ip[a.n]) : In(q, ends) /\ In(q, za) /\ In(q, zb)

\* The largest tight bound over a set of regions
Largest(S, m) == CHOOSE v \in {e.t[m] : e \in S} : \A e \in S : e.t[m] <= v
Pairs(n) == {<<i, j>> \in (0..n) \X (0..n) : i # j}
Reported(k, m) == {k[x][2] : x \in {y \in DOMAIN k : k[y][1] = m}}

\* Every reported bound is attained by some region of S, and there is one for every sum
Attained(n, k, S) ==
  \A q \in Pairs(n) : LET m == At(n, q[1], q[2]) IN Reported(k, m) # {} /\ \A v \in Reported(k, m) : v = Largest(S, m)

IsBounded(n, k) == \E v \in Reported(k, At(n, 1, 0)) : v <= 2 * Bound(n) + 1

\* The part of a region on a sequence of clocks
Sub(r, cl) == Norm([ip |-> TLCEval([i \in DOMAIN cl |-> r.ip[cl[i]]]), rk |-> TLCEval([i \in DOMAIN cl |-> r.rk[cl[i]]])])

Agree(s, a, b) ==
  LET n == s.n
      k == Code(n, s.z)
  IN CASE s.op = "make" -> LET rg == RegionOf(s.v, 4) IN \A e \in M(n) : Has(e, k) = (e.r = rg)
    [] s.op = "empty" -> \A e \in M(1) : Has(e, k) = (e.r = ZeroRegion(1))
    [] s.op = "bound" -> LET ka == Code(n, a.z) kb == Code(n, s.b1) IN \A e \in M(n) : Has(e, k) = (Has(e, ka) /\ Has(e, kb))
    [] s.op = "and" -> LET ka == Code(n, a.z) kb == Code(n, b.z) IN \A e \in M(n) : Has(e, k) = (Has(e, ka) /\ Has(e, kb))
    [] s.op = "plus" -> \A e \in M(n) : Has(e, k) = Plus(e, n, a, b)
    [] s.op = "hull" ->
         LET ka == Code(n, a.z) kb == Code(n, b.z)
             S == TLCEval({e \in M(n) : Has(e, ka) \/ Has(e, kb)})
         IN (\A e \in S : Has(e, k)) /\ Attained(n, k, S)
    [] s.op = "extendN" ->
         LET ka == Code(a.n, a.z) A == TLCEval({e.r : e \in Sat(a.n, a.z)})
         IN \A e \in M(n) : Has(e, k) = (e.r.ip[n] = 0 /\ e.r.rk[n] = 0 /\ Sub(e.r, [i \in 1..a.n |-> i]) \in A)
    [] s.op = "removeN" ->
         LET A == TLCEval({Sub(e.r, [i \in 1..n |-> i]) : e \in Sat(a.n, a.z)})
         IN \A e \in M(n) : e.r.ip[1] <= Bound(a.n) => Has(e, k) = (e.r \in A)
    [] s.op = "extendZero" ->
         LET A == TLCEval({e.r : e \in Sat(a.n, a.z)})
         IN \A e \in M(n) : Has(e, k) = (e.r.ip[1] = e.r.ip[2] /\ e.r.rk[1] = e.r.rk[2] /\ Sub(e.r, [i \in 1..a.n |-> i + 1]) \in A)
    [] s.op = "elapse" -> \A e \in M(n) : Has(e, k) = SomePred(e.r, a.z)
    [] s.op = "guard" ->
         LET S == Sat(a.n, a.z)
         IN \A e \in M(n) : Has(e, k) = (\A i \in 1..n : \E f \in S : f.r.ip[i] = e.r.ip[i] /\ (f.r.rk[i] = 0) = (e.r.rk[i] = 0))
    \* Assignments of values (scaled by 2; a fractional value stands for its open unit interval)
    [] s.op = "reset" ->
         LET keep == SelectSeq([i \in 1..n |-> i], LAMBDA i : s.v[i] = -1)
             A == TLCEval({Sub(e.r, keep) : e \in Sat(n, a.z)})
         IN \A e \in G(n) : Has(e, k) = (Sub(e.r, keep) \in A /\ \A i \in 1..n : s.v[i] # -1 =>
                (e.r.ip[i] = s.v[i] \div 2 /\ (e.r.rk[i] = 0) = (s.v[i] % 2 = 0)))
    \* .. with copies: target clock i gets the value of source clock s.src[i] if that is positive
    [] s.op = "resets" ->
         LET cp == SelectSeq([i \in 1..n |-> i], LAMBDA i : s.src[i] > 0)
             A == TLCEval({Sub(e.r, [x \in DOMAIN cp |-> s.src[cp[x]]]) : e \in Sat(a.n, a.z)})
             cs == {i \in 1..n : s.src[i] = 0}
             cr == RegionOf([i \in 1..n |-> IF s.src[i] = 0 THEN s.v[i] ELSE 0], 2)
         IN \A e \in G(n) : Has(e, k) =
              (Sub(e.r, cp) \in A /\ \A i, j \in cs \cup {0} : Tight(e.r, i, j) = Tight(cr, i, j))
    \* Juxtaposition with s.com common clocks (the last ones of both)
    [] s.op = "juxt" ->
         LET L == s.com
             ka == Code(n, a.z)
             kb == Code(n, Map(b.z, LAMBDA i : IF i = 0 THEN 0 ELSE IF i <= b.n - L THEN a.n + i ELSE a.n - b.n + i))
             ke == Code(n, [x \in DOMAIN s.ren |-> <<s.ren[x][1], a.n + s.ren[x][2], 0, 1>>])
             kf == Code(n, [x \in DOMAIN s.ren |-> <<a.n + s.ren[x][2], s.ren[x][1], 0, 1>>])
             S == TLCEval({e \in G(n) : Has(e, ka) /\ Has(e, kb) /\ Has(e, ke) /\ Has(e, kf)})
             R == TLCEval({Sub(e.r, [i \in 1..b.n |-> a.n + i]) : e \in S})
         IN /\ S # {} => \A e \in G(n) : Has(e, k) = (e \in S)
            /\ s.sat = (IF S # {} THEN 1 ELSE 0)
            /\ (L = 0 /\ S # {}) =>
                 /\ LET kr == Code(b.n, s.right) IN \A e \in G(b.n) : e.r \in R <=> (Has(e, kr) /\ \A i \in 1..b.n : e.r.ip[i] <= 2)
                 /\ {<<s.eqs[x][1], s.eqs[x][2]>> : x \in DOMAIN s.eqs}
                      = {<<i, j>> \in (1..a.n) \X (1..b.n) : \A e \in S : Tight(e.r, i, a.n + j) = <<0, 1>>}
    \* Exactly one valuation (scaled by 4)
    [] s.op = "exact" -> LET zz == s.z IN \A v \in [1..n -> 0..11] : InV(v, 1, zz) = (\A i \in 1..n : v[i] = s.v[i])
    \* A union of simple conditions, described by fewer conditions
    [] s.op = "reduce" ->
         LET rs == [x \in DOMAIN s.rs |-> Code(n, s.rs[x])]
             is == [x \in DOMAIN s.in |-> Code(n, s.in[x])]
         IN \A e \in M(n) : (\E x \in DOMAIN rs : Has(e, rs[x])) = (\E x \in DOMAIN is : Has(e, is[x]))
    [] s.op = "look" -> TRUE

\* The recorded condition is the meaning of the operation applied to the registers before it
Exact == [][LET s == Steps[p'] IN Agree(s, reg[s.a], reg[s.b])]_vars

\* The reported bounds of all sums are tight
Tightest ==
  (p > 0 /\ Steps[p].dst > 0) =>
     LET x == reg[Steps[p].dst]
         k == Code(x.n, x.z)
         S == Sat(x.n, x.z)
     IN (S # {} /\ IsBounded(x.n, k)) => Attained(x.n, k, S)

\* Tests and samples of a condition agree with the set
Looks ==
  (p > 0 /\ Steps[p].op = "look") =>
     LET s == Steps[p]
         a == reg[s.a]
         b == reg[s.b]
         n == a.n
         S == TLCEval(Sat(n, a.z))
         bounded == IsBounded(n, Code(n, a.z))
     IN /\ s.sat = (IF S # {} THEN 1 ELSE 0)
        /\ s.sat = 1 =>
             /\ s.size = n
             /\ bounded =>
                  /\ s.simple = (IF Cardinality(S) = 1 THEN 1 ELSE 0)
                  /\ \A i \in 1..n : s.point[i] = (IF \A e, f \in S : e.r.rk[i] = 0 /\ e.r.ip[i] = f.r.ip[i] THEN 1 ELSE 0)
                  \* simple conditions, pairwise disjoint, whose union is the condition
                  /\ LET en == [x \in DOMAIN s.enum |-> Sat(n, s.enum[x])]
                     IN /\ \A x \in DOMAIN en : Cardinality(en[x]) = 1
                        /\ \A x, y \in DOMAIN en : x # y => en[x] # en[y]
                        /\ UNION {en[x] : x \in DOMAIN en} = S
             /\ s.prefix = (IF \E e \in S : e.t[At(n, n, 0)] > 1 THEN 1 ELSE 0)
             /\ s.suffix = (IF \E e \in S : e.t[At(n, 1, IF n = 1 THEN 0 ELSE 2)] > 1 THEN 1 ELSE 0)
             /\ s.k > 0 => InV(s.samp, s.k, a.z) /\ Mono(n, RegionOf(s.samp, s.k)) /\ \A i \in 1..n : s.samp[i] >= 0
             /\ s.contains = (IF InV(s.pt, 4, a.z) THEN 1 ELSE 0)
             /\ b.n = n =>
                  LET T == TLCEval(Sat(n, b.z))
                  IN T # {} => /\ s.inc = (IF T \subseteq S THEN 1 ELSE 0)
                               /\ s.eq = (IF T = S THEN 1 ELSE 0)
                               /\ (bounded /\ IsBounded(n, Code(n, b.z))) =>
                                    {i \in 1..n : i <= s.exam /\ \E j \in 0..n :
                                        Largest(S, At(n, i, j)) # Largest(T, At(n, i, j)) \/ Largest(S, At(n, j, i)) # Largest(T, At(n, j, i))}
                                    \subseteq {s.strict[x] + 1 : x \in DOMAIN s.strict}
=============================================================================

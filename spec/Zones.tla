------------------------------- MODULE Zones -------------------------------
(***************************************************************************)
(* Convex sets of clock valuations given by bounds on clocks and clock      *)
(* differences, with an exact meaning: a set of regions (without forgotten  *)
(* clocks, see Regions).  A bound <<i, j, c, s>> says x_i - x_j <= c (s = 1)*)
(* or x_i - x_j < c (s = 0), where x_0 is the constant zero.                *)
(***************************************************************************)
EXTENDS Regions

Ip(r, i) == IF i = 0 THEN 0 ELSE r.ip[i]
Rk(r, i) == IF i = 0 THEN 0 ELSE r.rk[i]

Within(r, b) ==
  LET D == Ip(r, b[1]) - Ip(r, b[2])
  IN D < b[3] \/ (D = b[3] /\ (Rk(r, b[1]) < Rk(r, b[2]) \/ (b[4] = 1 /\ Rk(r, b[1]) = Rk(r, b[2]))))

In(r, z) == \A k \in DOMAIN z : Within(r, z[k])

\* The least bound <<c, s>> on x_i - x_j which holds in r
Tight(r, i, j) ==
  LET D == Ip(r, i) - Ip(r, j)
  IN IF Rk(r, i) = Rk(r, j) THEN <<D, 1>> ELSE IF Rk(r, i) < Rk(r, j) THEN <<D, 0>> ELSE <<D + 1, 0>>

\* Tightness: <<c, s>> is at most <<d, t>>
Leq(a, b) == a[1] < b[1] \/ (a[1] = b[1] /\ a[2] <= b[2])

\* The canonical assignments of ranks to n clocks
Ranks(n) ==
  {f \in [1..n -> 0..n] : LET used == {f[i] : i \in 1..n} \ {0} IN used = 1..Cardinality(used)}

\* All regions of n clocks with integer parts up to top
AllRegions(n, top) == {[ip |-> f, rk |-> g] : f \in [1..n -> 0..top], g \in Ranks(n)}

Rank0(r) == {i \in DOMAIN r.ip : r.rk[i] = 0}

LOCAL Top(S) == CHOOSE x \in S : \A y \in S : y <= x

\* The region before r when time passes, if there is one (<<>> otherwise)
TimePred(r) ==
  LET D == DOMAIN r.ip
      zero == Rank0(r)
      top == Top({r.rk[i] : i \in D} \cup {0})
  IN IF zero # {}
     THEN IF \E i \in zero : r.ip[i] = 0 THEN <<>>
          ELSE <<[ip |-> TLCEval([i \in D |-> IF i \in zero THEN r.ip[i] - 1 ELSE r.ip[i]]),
                  rk |-> TLCEval([i \in D |-> IF i \in zero THEN top + 1 ELSE r.rk[i]])]>>
     ELSE <<[ip |-> r.ip, rk |-> TLCEval([i \in D |-> r.rk[i] - 1])]>>

RECURSIVE SomePred(_, _), SomeSucc(_, _, _)
\* Is r, or a region from which r is reached by letting time pass, in z?
SomePred(r, z) == In(r, z) \/ (LET p == TimePred(r) IN p # <<>> /\ SomePred(p[1], z))
\* Is r, or one of the regions reached by letting time pass fuel times, in z?
SomeSucc(r, z, fuel) == In(r, z) \/ (fuel > 0 /\ SomeSucc(TimeSucc(r), z, fuel - 1))

\* Concrete valuations, scaled by k
Val(v, i) == IF i = 0 THEN 0 ELSE v[i]
InV(v, k, z) ==
  \A m \in DOMAIN z :
     LET b == z[m]
         D == Val(v, b[1]) - Val(v, b[2])
     IN D < b[3] * k \/ (D = b[3] * k /\ b[4] = 1)

\* The region of a concrete valuation scaled by k
RegionOf(v, k) ==
  LET D == DOMAIN v
      fr == {v[i] % k : i \in D} \ {0}
  IN [ip |-> TLCEval([i \in D |-> v[i] \div k]),
      rk |-> TLCEval([i \in D |-> IF v[i] % k = 0 THEN 0 ELSE Cardinality({f \in fr : f <= v[i] % k})])]
=============================================================================

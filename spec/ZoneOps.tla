------------------------------ MODULE ZoneOps ------------------------------
(***************************************************************************)
(* A register machine over zones.  Each case is a history recorded from the *)
(* implementation: a sequence of operations, each with the bounds of the    *)
(* zone it produced.  The specification keeps the registers, computes the   *)
(* meaning of every operation as a set of regions, and compares it with the *)
(* meaning of the recorded result on all regions up to the case's size.     *)
(***************************************************************************)
EXTENDS Zones, Json, IOUtils

Cases == ndJsonDeserialize(IOEnv.CASES)

\* A universe: the regions of n clocks with integer parts up to top, each with the codes of its tight
\* bounds: x_i - x_j at position i * (n + 1) + j + 1, code 2 c + s for <<c, s>>
Entry(n, r) ==
  [r |-> r, t |-> TLCEval([m \in 1..((n + 1) * (n + 1)) |->
                     LET b == Tight(r, (m - 1) \div (n + 1), (m - 1) % (n + 1)) IN 2 * b[1] + b[2]])]
Table(n, top) == {Entry(n, r) : r \in AllRegions(n, top)}
\* Outer universes contain the witnesses for the inner ones (at most n bounds of the size of the case add up) and
\* for comparisons of recorded zones
U1 == Table(1, 50)
U2 == Table(2, 13)
U3 == Table(3, 6)
Has4 == \E k \in DOMAIN Cases : Cases[k].n = 4
U4 == IF Has4 THEN Table(4, 3) ELSE {}
I1 == {e \in U1 : e.r.ip[1] <= 25}
I2 == {e \in U2 : \A i \in 1..2 : e.r.ip[i] <= 6}
I3 == {e \in U3 : \A i \in 1..3 : e.r.ip[i] <= 3}
I4 == {e \in U4 : \A i \in 1..4 : e.r.ip[i] <= 2}
Univ(n) == CASE n = 1 -> U1 [] n = 2 -> U2 [] n = 3 -> U3 [] n = 4 -> U4
UInner(n) == CASE n = 1 -> I1 [] n = 2 -> I2 [] n = 3 -> I3 [] n = 4 -> I4
Code(n, z) == TLCEval([k \in DOMAIN z |-> <<z[k][1] * (n + 1) + z[k][2] + 1, 2 * z[k][3] + z[k][4]>>])
Has(e, k) == \A m \in DOMAIN k : e.t[k[m][1]] <= k[m][2]

VARIABLES c, p, reg
vars == <<c, p, reg>>

Steps == Cases[c].steps
N == Cases[c].n

Init == c \in DOMAIN Cases /\ p = 0 /\ reg = [i \in 1..3 |-> <<>>]

Next ==
  /\ p < Len(Steps)
  /\ p' = p + 1
  /\ reg' = (IF Steps[p + 1].op = "look" THEN reg ELSE [reg EXCEPT ![Steps[p + 1].dst] = Steps[p + 1].z])
  /\ UNCHANGED c

Spec == Init /\ [][Next]_vars

(***************************************************************************)
(* Meaning of an operation: which regions r belong to its result, given the *)
(* operands a and b (bounds).                                               *)
(***************************************************************************)
Atom(g) == CASE g[2] = "<"  -> <<g[1], 0, g[3], 0>>
             [] g[2] = "<=" -> <<g[1], 0, g[3], 1>>
             [] g[2] = ">"  -> <<0, g[1], 0 - g[3], 0>>
             [] g[2] = ">=" -> <<0, g[1], 0 - g[3], 1>>
GuardBounds(g) == [k \in DOMAIN g |-> Atom(g[k])]

\* Canonical ranks
Norm(r) ==
  LET D == DOMAIN r.ip
      used == {r.rk[i] : i \in D} \ {0}
  IN [ip |-> r.ip, rk |-> TLCEval([i \in D |-> IF r.rk[i] = 0 THEN 0 ELSE Cardinality({k \in used : k <= r.rk[i]})])]

\* The values of the clocks other than x
Without(r, x) == Norm([ip |-> [r.ip EXCEPT ![x] = 0], rk |-> [r.rk EXCEPT ![x] = 0]])

Bounded(n) == IF n = 1 THEN 2 * 50 ELSE 4 * n * 6

\* Does the result of s, applied to the zones a and b, contain every region of the inner universe exactly
\* if the recorded result (codes z) contains it?
Agree(s, a, b, z) ==
  LET ka == Code(N, a)
      kb == Code(N, b)
  IN CASE s.op = "top" -> \A e \in UInner(N) : Has(e, z)
    [] s.op = "zero" -> \A e \in UInner(N) : Has(e, z) = (e.r = ZeroRegion(N))
    [] s.op = "point" -> \A e \in UInner(N) : Has(e, z) = (e.r.ip = s.v /\ \A i \in 1..N : e.r.rk[i] = 0)
    [] s.op \in {"tighten", "guard"} ->
         LET ks == Code(N, s.bounds) IN \A e \in UInner(N) : Has(e, z) = (Has(e, ka) /\ Has(e, ks))
    [] s.op = "and" -> \A e \in UInner(N) : Has(e, z) = (Has(e, ka) /\ Has(e, kb))
    [] s.op = "canon" -> \A e \in UInner(N) : Has(e, z) = Has(e, ka)
    [] s.op = "elapse" -> \A e \in UInner(N) : Has(e, z) = SomePred(e.r, a)
    [] s.op = "relapse" -> \A e \in UInner(N) : Has(e, z) = SomeSucc(e.r, a, Bounded(N))
    [] s.op \in {"apply", "reset"} ->
         LET img == TLCEval({Norm(Assign(e.r, 0, s.u)) : e \in {f \in Univ(N) : Has(f, ka)}})
         IN \A e \in UInner(N) : Has(e, z) = (e.r \in img)
    [] s.op = "revert" -> \A e \in UInner(N) : Has(e, z) = In(Norm(Assign(e.r, 0, s.u)), a)
    [] s.op = "free" ->
         LET img == TLCEval({Without(e.r, s.x) : e \in {f \in Univ(N) : Has(f, ka)}})
         IN \A e \in UInner(N) : Has(e, z) = (Without(e.r, s.x) \in img)

S == Steps[p]
A == reg[S.a]
B == reg[S.b]

\* The recorded zone is the meaning of the operation applied to the registers before it
Exact ==
  [][Steps[p'].op \notin {"look", "extra"} =>
       LET s == Steps[p'] IN Agree(s, reg[s.a], reg[s.b], Code(N, s.z))]_vars

\* Extrapolation enlarges a zone only within the equivalence of the maximum constants
Extrapolation ==
  [][Steps[p'].op = "extra" =>
       LET s == Steps[p']
           ka == Code(N, reg[s.a])
           kz == Code(N, s.z)
           cls == TLCEval({Canon(e.r, s.mc) : e \in {f \in Univ(N) : Has(f, ka)}})
       IN /\ \A e \in Univ(N) : Has(e, ka) => Has(e, kz)
          /\ \A e \in UInner(N) : Has(e, kz) => Canon(e.r, s.mc) \in cls]_vars

\* Tests and samples agree with the sets
Looks ==
  (p > 0 /\ S.op = "look") =>
    LET ka == Code(N, A)
        kb == Code(N, B)
    IN /\ S.sat = (IF \E e \in Univ(N) : Has(e, ka) THEN 1 ELSE 0)
       /\ (S.sat = 1 => InV(S.samp, S.k, A) /\ \A i \in DOMAIN S.samp : S.samp[i] >= 0)
       /\ S.inc # -1 => S.inc = (IF \A e \in Univ(N) : Has(e, kb) => Has(e, ka) THEN 1 ELSE 0)
       /\ S.eq # -1 => S.eq = (IF \A e \in Univ(N) : Has(e, kb) = Has(e, ka) THEN 1 ELSE 0)
=============================================================================

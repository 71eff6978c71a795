------------------------------ MODULE Regions ------------------------------
(***************************************************************************)
(* Exact symbolic semantics of clocks.  A region of a sequence of clocks    *)
(* is a record [ip, rk]: ip[i] is the integer part of clock i (FAR when the *)
(* clock is beyond its cap, i.e. its exact value no longer matters), and    *)
(* rk[i] is the rank of its fractional part: 0 for an integral value, and   *)
(* otherwise the position of the fractional part among the distinct nonzero *)
(* fractional parts.  Time is scaled so that every constant is an integer.  *)
(* A cap is a sequence giving, for each clock, the largest constant the     *)
(* clock can still be compared with (-1 if there is none).                  *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

LOCAL MaxOf(S) == CHOOSE x \in S : \A y \in S : y <= x

FAR == -1

ZeroRegion(n) == [ip |-> TLCEval([i \in 1..n |-> 0]), rk |-> TLCEval([i \in 1..n |-> 0])]

\* Forget the clocks beyond their cap and make the ranks consecutive
Canon(r, cap) ==
  LET D    == DOMAIN r.ip
      over == {i \in D : r.ip[i] = FAR \/ r.ip[i] > cap[i] \/ (r.ip[i] = cap[i] /\ r.rk[i] > 0)}
      used == {r.rk[i] : i \in D \ over} \ {0}
      pos  == TLCEval([k \in used |-> Cardinality({j \in used : j <= k})])
  IN [ip |-> TLCEval([i \in D |-> IF i \in over THEN FAR ELSE r.ip[i]]),
      rk |-> TLCEval([i \in D |-> IF i \in over \/ r.rk[i] = 0 THEN 0 ELSE pos[r.rk[i]]])]

\* The next region reached by letting time pass, not yet made canonical (a
\* region with only forgotten clocks is its own successor)
TimeSucc(r) ==
  LET D    == DOMAIN r.ip
      fin  == {i \in D : r.ip[i] # FAR}
      zero == {i \in fin : r.rk[i] = 0}
  IN IF fin = {} THEN r
     ELSE IF zero # {}
     THEN [ip |-> r.ip,
           rk |-> TLCEval([i \in D |-> IF i \in zero THEN 1 ELSE IF i \in fin THEN r.rk[i] + 1 ELSE 0])]
     ELSE LET top == MaxOf({r.rk[i] : i \in fin})
          IN [ip |-> TLCEval([i \in D |-> IF i \in fin /\ r.rk[i] = top THEN r.ip[i] + 1 ELSE r.ip[i]]),
              rk |-> TLCEval([i \in D |-> IF i \in fin /\ r.rk[i] = top THEN 0 ELSE r.rk[i]])]

\* Is "clock i  op  c" true in r?  (c is scaled and at most the cap of clock i)
Holds(r, i, op, c) ==
  CASE op = "<"  -> r.ip[i] # FAR /\ r.ip[i] < c
    [] op = "<=" -> r.ip[i] # FAR /\ (r.ip[i] < c \/ (r.ip[i] = c /\ r.rk[i] = 0))
    [] op = ">=" -> r.ip[i] = FAR \/ r.ip[i] >= c
    [] op = ">"  -> r.ip[i] = FAR \/ r.ip[i] > c \/ (r.ip[i] = c /\ r.rk[i] > 0)

\* Simultaneous assignment of the clocks off+1 .. off+Len(u): u[j] is either
\* <<0, constant>> or <<1, clock>> (a clock which keeps its value is copied to itself)
Assign(r, off, u) ==
  LET D  == DOMAIN r.ip
      hi == off + Len(u)
  IN [ip |-> TLCEval([i \in D |-> IF i <= off \/ i > hi THEN r.ip[i]
                                  ELSE IF u[i - off][1] = 0 THEN u[i - off][2]
                                  ELSE r.ip[u[i - off][2]]]),
      rk |-> TLCEval([i \in D |-> IF i <= off \/ i > hi THEN r.rk[i]
                                  ELSE IF u[i - off][1] = 0 THEN 0
                                  ELSE r.rk[u[i - off][2]]])]
=============================================================================

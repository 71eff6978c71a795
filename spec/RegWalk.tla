------------------------------ MODULE RegWalk ------------------------------
(***************************************************************************)
(* Walks through the regional languages over one letter.  The state is the  *)
(* word length and the region of the duration vectors: forward, over the    *)
(* clocks x_i = T_{i,N} (time since letter i); backward, over the clocks    *)
(* y_i = T_{0,i} (time until letter i+1).  A step lets time pass or adds a  *)
(* letter (a clock with value 0: the last one forward, the first one        *)
(* backward).  Each case is a walk on the implementation; every step is     *)
(* recorded with what the implementation reports about the language.        *)
(***************************************************************************)
EXTENDS Zones, Json, IOUtils

Cases == ndJsonDeserialize(IOEnv.CASES)

VARIABLES c, p, r
vars == <<c, p, r>>
Fwd == Cases[c].dir = "f"
Steps == Cases[c].steps

Init == c \in DOMAIN Cases /\ p = 0 /\ r = ZeroRegion(1)

AddLast(q) == [ip |-> Append(q.ip, 0), rk |-> Append(q.rk, 0)]
AddFirst(q) == [ip |-> <<0>> \o q.ip, rk |-> <<0>> \o q.rk]

Next ==
  /\ p < Len(Steps)
  /\ p' = p + 1
  /\ r' = (IF Steps[p + 1].op = "time" THEN TimeSucc(r) ELSE IF Fwd THEN AddLast(r) ELSE AddFirst(r))
  /\ UNCHANGED c
Spec == Init /\ [][Next]_vars

(***************************************************************************)
(* A recorded language [w, z, o]: word length, the reported bounds of all   *)
(* sums of durations, and the order of the fractional parts.                *)
(***************************************************************************)
\* Bounds are recorded over x_1 .. x_n (Zones); the same sum over y_1 .. y_n
TightOf(q, fw, a, b) ==
  LET n == Len(q.ip)
  IN IF fw THEN Tight(q, a, b)
     ELSE Tight(q, (IF b = 0 THEN n + 1 ELSE b) - 1, (IF a = 0 THEN n + 1 ELSE a) - 1)

\* All pairs are reported, with the bounds of exactly this region
SameBounds(z, q, fw) ==
  LET n == Len(q.ip)
  IN /\ \A k \in DOMAIN z : <<z[k][3], z[k][4]>> = TightOf(q, fw, z[k][1], z[k][2])
     /\ \A i \in 0..n, j \in 0..n : i # j => \E k \in DOMAIN z : z[k][1] = i /\ z[k][2] = j

\* The first group of the order holds the clocks with an integral value.  Forward, the others follow by
\* increasing fractional parts; backward, by the time until the next integer, i.e. by decreasing ones.
SameOrder(o, q, fw) ==
  LET top == Cardinality({q.rk[i] : i \in DOMAIN q.rk} \ {0})
      rank(m) == IF fw \/ m = 1 THEN m - 1 ELSE top + 2 - m
  IN /\ Len(o) = top + 1
     /\ \A m \in DOMAIN o : {o[m][k] + 1 : k \in DOMAIN o[m]} = {i \in DOMAIN q.rk : q.rk[i] = rank(m)}

Lang(l, q, fw) == l.w = Len(q.ip) - 1 /\ SameBounds(l.z, q, fw) /\ SameOrder(l.o, q, fw)

\* Durations (scaled by k) to clock values
Sum(d, i, j) == LET S[m \in (i - 1)..j] == IF m < i THEN 0 ELSE S[m - 1] + d[m] IN S[j]
RegOf(d, k, fw) == RegionOf([i \in DOMAIN d |-> IF fw THEN Sum(d, i, Len(d)) ELSE Sum(d, 1, i)], k)

\* One step back along the walk
Back(q) ==
  IF q.ip[Len(q.ip)] = 0 /\ q.rk[Len(q.ip)] = 0
  THEN IF Len(q.ip) = 1 THEN <<>>
       ELSE <<[ip |-> SubSeq(q.ip, 1, Len(q.ip) - 1), rk |-> SubSeq(q.rk, 1, Len(q.ip) - 1)]>>
  ELSE TimePred(q)

RECURSIVE Chain(_, _, _)
\* l[1..m] is the list of all the languages before and up to q
Chain(l, m, q) ==
  /\ m > 0
  /\ Lang(l[m], q, TRUE)
  /\ LET b == Back(q) IN IF b = <<>> THEN m = 1 ELSE Chain(l, m - 1, b[1])

\* r with one more clock, the split of the duration where a prefix of length m ends
Extend(q, top) ==
  LET n == Len(q.ip)
      mx == Cardinality({q.rk[i] : i \in 1..n} \ {0})
  IN {[ip |-> Append(q.ip, d), rk |-> Append(TLCEval([i \in 1..n |-> 2 * q.rk[i]]), k)] : d \in 0..top, k \in 0..(2 * mx + 1)}
Map(z, f(_)) == [k \in DOMAIN z |-> <<f(z[k][1]), f(z[k][2]), z[k][3], z[k][4]>>]
\* Every word of r is a word of the prefix followed by a word of the suffix
Splits(q, pre, suf) ==
  LET n == Len(q.ip)
      m == pre.w + 1
      sp == n + 1
      za == Map(pre.z, LAMBDA i : IF i = 0 THEN sp ELSE i)
      zb == Map(suf.z, LAMBDA i : IF i = 0 THEN 0 ELSE IF i = 1 THEN sp ELSE m + i - 1)
      ends == <<<<sp, m, 0, 1>>, <<IF m = n THEN 0 ELSE m + 1, sp, 0, 1>>>>
  IN pre.w + suf.w + 1 = n /\ \E x \in Extend(q, q.ip[m]) : In(x, ends) /\ In(x, za) /\ In(x, zb)

S == Steps[p]

\* The implementation's language is the region
Walk == p > 0 => Lang(S.l, r, Fwd) /\ Lang(S.again, r, Fwd)

\* Samples are in the region; membership of a word is membership in its region
Words ==
  p > 0 =>
    /\ Len(S.samp) = Len(r.ip) /\ (\A i \in DOMAIN S.samp : S.samp[i] >= 0) /\ RegOf(S.samp, S.k, Fwd) = r
    /\ S.self = 1
    /\ \A x \in DOMAIN S.tests :
         LET t == S.tests[x]
             q == RegOf(t.d, 8, Fwd)
         IN /\ t.in = (IF Len(t.d) = Len(r.ip) /\ q = r THEN 1 ELSE 0)
            /\ Lang(t.l, q, Fwd)
            /\ t.eq = t.in

\* Predecessors of a region along the walk
PrefixesOk ==
  (p > 0 /\ Fwd) =>
    /\ LET b == Back(r) IN IF b = <<>> THEN S.back = <<>> ELSE S.back # <<>> /\ Lang(S.back[1], b[1], TRUE)
    /\ Chain(S.pre, Len(S.pre), r)
    /\ S.equn = (IF \E i \in DOMAIN r.rk : r.rk[i] = 0 THEN 1 ELSE 0)

SuffixesOk ==
  (p > 0 /\ Fwd) =>
    \A x \in DOMAIN S.suf :
      LET s == S.suf[x]
      IN Splits(r, S.pre[s.i], s.l) /\ \E q \in {RegOf(s.samp, s.k, FALSE)} : Lang(s.l, q, FALSE)

\* Letting time pass backwards is undone by the continuous suffix
Continuous ==
  (p > 0 /\ ~Fwd /\ S.op = "time") =>
    S.back # <<>> /\ Lang(S.back[1], TimePred(r)[1], FALSE)
=============================================================================

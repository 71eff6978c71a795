------------------------------ MODULE Handler -------------------------------
(***************************************************************************)
(* Handling imprecise clocks in an automaton.  A location may be reached in  *)
(* a situation with imprecise clocks (see Situations).  From there time      *)
(* passes; whenever the represented region enables a transition whose guard  *)
(* does not cover the neighbourhood, a transition with the box of the        *)
(* neighbourhood as guard is added, which keeps what the transition assigns  *)
(* to precise clocks and gives representative values to the others; its      *)
(* target is then reached in a situation with imprecise clocks, unless all   *)
(* is precise again.  The passing of time is followed until only transitions *)
(* without upper bounds are enabled.                                         *)
(* The system is a worklist of (location, situation) pairs, in which only    *)
(* the given transitions are followed: every relaxation found is required.   *)
(* An added transition may be followed and relaxed too; what it leads to     *)
(* depends on the order of representative values, so it is only required     *)
(* that whatever is added widens a given transition.                         *)
(***************************************************************************)
EXTENDS Situations, Json, IOUtils

Cases == ndJsonDeserialize(IOEnv.CASES)

\* from: the pairs that were taken from the worklist; done: all situations visited from there
VARIABLES c, begun, todo, from, done
vars == <<c, begun, todo, from, done>>
C == Cases[c]
Locs == DOMAIN C.before
New(l) == LET b == SetOf(C.before[l]) IN SelectSeq(C.after[l], LAMBDA m : m \notin b)
Followed(l) == C.before[l]

(***************************************************************************)
(* One situation                                                            *)
(***************************************************************************)
Points(r) == {i \in Clocks(r) : Point(r, i)}
\* does the identification leave clocks imprecise?
Imprecise(r, R) == R # {} /\ R \cup Points(r) # Clocks(r) /\ ~(R \subseteq Points(r))

Norm(q) ==
  LET D == DOMAIN q.ip
      used == {q.rk[i] : i \in D} \ {0}
  IN [ip |-> q.ip, rk |-> TLCEval([i \in D |-> IF q.rk[i] = 0 THEN 0 ELSE Cardinality({k \in used : k <= q.rk[i]})])]
Fractional(u) == \E k \in DOMAIN u : u[k][2] = 0 /\ ~Integral(u[k][3])
\* the regions which the assignment u may lead to from r, for a target with size clocks
After(s, u, size) ==
  IF Internal(s, u) THEN {Add(s.r)}
  ELSE LET src == [i \in 1..size |-> Source(u, i)]
           exact == [ip |-> [i \in 1..size |-> IF src[i][1] = 1 THEN s.r.ip[src[i][2]] ELSE src[i][2] \div 64],
                     rk |-> [i \in 1..size |-> IF src[i][1] = 1 THEN s.r.rk[src[i][2]] ELSE 0]]
       IN IF ~Fractional(u) THEN {Norm(exact)}
          ELSE {q \in {[ip |-> exact.ip, rk |-> k] : k \in Ranks(size)} :
                   AllowedAfter(q, s.r, u, size) /\ \A i \in 1..(size - 1) : q.ip[i] > q.ip[i + 1] \/ (q.ip[i] = q.ip[i + 1] /\ q.rk[i] >= q.rk[i + 1])}

\* does the box strictly contain the guard?
Wider(s, t) ==
  LET n == Len(s.r.ip) b == TLCEval(Box(s.N, n)) open == ~Bounded(t.g)
  IN Contains(b, open, t.g, n) /\ ~SameBox(t.g, b, open)
\* Target situations of a relaxed transition
Reached(s, t) ==
  LET size == C.size[t.t]
      Q == PreciseAfter(s.P, t.u, size)
      A == TLCEval(After(s, t.u, size))
  IN IF Q = {} \/ Cardinality(A) # 1 THEN {}
     ELSE {x \in {Start(q, Q) : q \in A} : Cardinality(x.N) # 1}

\* The situations visited while time passes
RECURSIVE Walk(_, _, _)
Walk(l, s, matched) ==
  LET hit == {k \in DOMAIN Followed(l) : HoldsIn(s.r, Followed(l)[k].g)}
      on == (\E k \in hit : Bounded(Followed(l)[k].g)) \/ (~matched /\ hit = {})
  IN {s} \cup (IF on THEN Walk(l, Time(s), matched \/ hit # {}) ELSE {})

(***************************************************************************)
(* The worklist                                                             *)
(***************************************************************************)
Starts ==
  {<<C.push[k].l, Start(RegOfVal(C.push[k].v), SetOf(C.push[k].right))>> :
      k \in {j \in DOMAIN C.push : Imprecise(RegOfVal(C.push[j].v), SetOf(C.push[j].right))}}
Init == c \in DOMAIN Cases /\ begun = FALSE /\ todo = {} /\ from = {} /\ done = {}
Begin == ~begun /\ begun' = TRUE /\ todo' = TLCEval(Starts) /\ UNCHANGED <<c, from, done>>
Work ==
  /\ todo # {}
  /\ LET x == CHOOSE y \in todo : TRUE
         seen == TLCEval({<<x[1], s>> : s \in Walk(x[1], x[2], FALSE)})
         out == TLCEval(UNION {UNION {{<<Followed(v[1])[k].t, y>> : y \in Reached(v[2], Followed(v[1])[k])} :
                            k \in {j \in DOMAIN Followed(v[1]) : HoldsIn(v[2].r, Followed(v[1])[j].g) /\ Wider(v[2], Followed(v[1])[j])}} : v \in seen})
     IN /\ done' = done \cup seen
        /\ from' = from \cup {x}
        /\ todo' = {y \in todo \cup out : y # x /\ y \notin from}
  /\ UNCHANGED <<c, begun>>
Next == Begin \/ Work
Spec == Init /\ [][Next]_vars

(***************************************************************************)
(* Properties                                                               *)
(***************************************************************************)
\* what was there before is still there
Kept == \A l \in Locs : SetOf(C.before[l]) \subseteq SetOf(C.after[l])

\* The assignments of a relaxed transition
Embedded(s, t, m) ==
  LET size == C.size[t.t]
      Q == PreciseAfter(s.P, t.u, size)
      at(u, i) == {<<u[k][2], u[k][3]>> : k \in {j \in DOMAIN u : u[j][1] = i}}
      fits(q) ==
        /\ \A i \in 1..Len(q.ip) : i \notin Q => \E v \in at(m.u, i) : v[1] = 0 /\ v[2] \div 64 = q.ip[i] /\ Integral(v[2]) = Point(q, i)
        /\ \A i, j \in 1..Len(q.ip) : (i \notin Q /\ j \notin Q) =>
             \A v \in at(m.u, i) : \A w \in at(m.u, j) : Sign((v[2] % 64) - (w[2] % 64)) = Sign(q.rk[i] - q.rk[j])
  IN /\ \A i \in Q : at(m.u, i) = at(t.u, i)
     /\ \A i \in 1..5 : Cardinality({j \in DOMAIN m.u : m.u[j][1] = i}) <= 1
     /\ \E q \in After(s, t.u, size) : fits(q)
Relaxes(s, t, m) ==
  /\ m.a = t.a /\ m.t = t.t
  /\ SameBox(m.g, TLCEval(Box(s.N, Len(s.r.ip))), ~Bounded(t.g))
  /\ Embedded(s, t, m)

\* Nothing is forgotten
Relaxed ==
    \A v \in done : \A k \in DOMAIN C.before[v[1]] :
      LET t == C.before[v[1]][k] s == v[2]
      IN (HoldsIn(s.r, t.g) /\ Wider(s, t)) => \E m \in SetOf(C.after[v[1]]) : Relaxes(s, t, m)
\* Nothing else is added
Justified ==
  begun => \A l \in Locs : \A j \in DOMAIN New(l) :
    LET m == New(l)[j] IN
    \E k \in DOMAIN C.before[l] :
      LET t == C.before[l][k]
      IN m.a = t.a /\ m.t = t.t /\ \A i \in 1..C.size[l] : \A v \in 0..Top : InG(i, v, t.g) => InG(i, v, m.g)
=============================================================================

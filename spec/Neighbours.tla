----------------------------- MODULE Neighbours -----------------------------
(***************************************************************************)
(* Recorded walks over situations with imprecise clocks (see Situations).   *)
(***************************************************************************)
EXTENDS Situations, Json, IOUtils

Cases == ndJsonDeserialize(IOEnv.CASES)

VARIABLES c, p, s
vars == <<c, p, s>>
C == Cases[c]
Init == c \in DOMAIN Cases /\ p = 1 /\ s = Start(RegOfWord(Cases[c].d), SetOf(Cases[c].P))
Apply(t) ==
  CASE t.op = "time" -> Time(s)
    [] t.op = "letter" -> Letter(s)
    [] t.op = "after" ->
         LET r == IF Internal(s, t.u) THEN Add(s.r) ELSE RegOfVal(t.obs.val)
         IN Start(TLCEval(r), PreciseAfter(s.P, t.u, t.size))
    [] t.op = "again" -> Start(s.r, {i \in SetOf(t.P) : i <= Len(s.r.ip)})
    [] OTHER -> s
Next ==
  /\ p < Len(C.steps)
  /\ p' = p + 1
  /\ s' = (IF C.steps[p + 1].op \in {"time", "letter", "after", "again"} THEN Apply(C.steps[p + 1]) ELSE s)
  /\ UNCHANGED c
Spec == Init /\ [][Next]_vars

S == C.steps[p]

\* What can be observed of a situation
Seen(o) ==
  LET n == Len(s.r.ip)
  IN /\ o.size = n
     /\ o.precise = (IF Cardinality(s.N) = 1 THEN 1 ELSE 0)
     /\ SetOf(o.imprecise) = Clocks(s.r) \ s.P /\ Len(o.imprecise) = n - Cardinality(s.P)
     /\ RegOfVal(o.val) = s.r
     /\ SameBox(o.orig, Box({s.r}, n), FALSE)
     /\ SameBox(o.relaxed, Box(s.N, n), FALSE)
     /\ \A k \in DOMAIN o.match : (o.match[k].res = 1) = HoldsIn(s.r, o.match[k].g)

\* the reported list of regions: the one around r
Reported(z, q) ==
  /\ \A k \in DOMAIN z : <<z[k][3], z[k][4]>> = Tight(q, z[k][1], z[k][2])
  /\ \A i, j \in 0..Len(q.ip) : i # j => \E k \in DOMAIN z : z[k][1] = i /\ z[k][2] = j
ReportedAll(l, N) == Len(l) = Cardinality(N) /\ \A q \in N : \E k \in DOMAIN l : Reported(l[k], q)

(***************************************************************************)
(* The handler relaxes the transitions of one location: while time passes,  *)
(* a transition enabled in the represented region gets the box of the       *)
(* neighbourhood if this is strictly larger than its guard.                 *)
(***************************************************************************)
RECURSIVE Chain(_, _)
Chain(x, k) == IF k = 0 THEN <<x>> ELSE <<x>> \o Chain(Time(x), k - 1)
HandlerOk(t) ==
  LET n == Len(s.r.ip)
      x0 == Start(s.r, SetOf(t.right))
      pts == {i \in 1..n : Point(s.r, i)}
      R == SetOf(t.right)
      active == R # {} /\ R \cup pts # 1..n /\ ~(R \subseteq pts)
      ch == TLCEval(Chain(x0, t.len))
      fromOld(m) == \E j \in DOMAIN t.before : t.before[j].g = t.after[m].g /\ t.before[j].t = t.after[m].t
  IN /\ \A j \in DOMAIN t.before : \E m \in DOMAIN t.after : t.before[j] = t.after[m]
     /\ IF ~active THEN Len(t.after) = Len(t.before)
        ELSE /\ \A j \in DOMAIN t.before : \A k \in DOMAIN ch :
                  LET g == t.before[j].g
                      b == TLCEval(Box(ch[k].N, n))
                      open == ~Bounded(g)
                  IN (/\ HoldsIn(ch[k].r, g)
                      /\ \A e \in 1..(k - 1) : \E m \in DOMAIN t.before : HoldsIn(ch[e].r, t.before[m].g) /\ Bounded(t.before[m].g)
                      /\ Contains(b, open, g, n))
                     => \E m \in DOMAIN t.after : t.after[m].t = t.before[j].t /\ SameBox(t.after[m].g, b, open)
             /\ \A m \in DOMAIN t.after : fromOld(m) \/
                  \E k \in DOMAIN ch : \E open \in BOOLEAN :
                     SameBox(t.after[m].g, TLCEval(Box(ch[k].N, n)), open)

EmbedOk(t) ==
  \A i \in 1..t.size :
    LET at(l) == SelectSeq(l, LAMBDA e : e[1] = i)
    IN at(t.out) = IF i \in SetOf(t.P) THEN at(t.u)
                   ELSE IF i <= Len(t.val) THEN <<<<i, 0, t.val[i]>>>> ELSE <<>>

Agree(t) ==
  CASE t.op = "start" -> Seen(t.obs)
    [] t.op = "around" -> ReportedAll(t.l, Around(s.r, SetOf(t.P)))
    [] t.op \in {"time", "letter", "again"} -> Seen(t.obs)
    [] t.op = "after" -> Seen(t.obs)
    [] t.op = "preciseAfter" -> SetOf(t.out) = PreciseAfter(SetOf(t.P), t.u, t.size)
    [] t.op = "embed" -> EmbedOk(t)
    [] t.op = "handler" -> HandlerOk(t)

Correct == Agree(S)
\* The new region after an assignment is one the assignment allows
Assignments ==
  [][C.steps[p'].op = "after" => Internal(s, C.steps[p'].u) \/ AllowedAfter(s'.r, s.r, C.steps[p'].u, C.steps[p'].size)]_vars
\* Laws of the specification: the represented region is in its neighbourhood, and precise clocks agree everywhere
Laws ==
  /\ s.r \in s.N
  /\ \A q \in s.N : SameUnary(q, s.r, s.P)
  /\ \A q \in s.N : \A i, j \in s.P : SameDiff(q, s.r, i, j)
  /\ s.P = Clocks(s.r) => s.N = {s.r}
=============================================================================

------------------------------ MODULE WordOps -------------------------------
(***************************************************************************)
(* The algebra of timed words.  A timed word with n letters is an           *)
(* alternating sequence  d0 a1 d1 ... an dn;  it is represented by the      *)
(* record [w |-> <<a1..an>>, d |-> <<d0..dn>>] with durations in quarters.  *)
(* The laws (concatenation is associative with the empty word as neutral    *)
(* element, removing a prefix undoes prepending it, unobservable letters    *)
(* vanish homomorphically) are checked on the specification for all small   *)
(* words; every recorded evaluation of the implementation is compared to    *)
(* the specified operation.                                                 *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

Cases == ndJsonDeserialize(IOEnv.CASES)
Eps == ""

Word(u) == Len(u.d) = Len(u.w) + 1
Empty == [w |-> <<>>, d |-> <<0>>]
\* u . v : the last duration of u and the first of v add up
Cat(u, v) ==
  [w |-> u.w \o v.w,
   d |-> SubSeq(u.d, 1, Len(u.d) - 1) \o <<u.d[Len(u.d)] + v.d[1]>> \o Tail(v.d)]
Letter(a) == [w |-> <<a>>, d |-> <<0, 0>>]
Delay(t) == [w |-> <<>>, d |-> <<t>>]
\* the word without its unobservable letters
RECURSIVE Visible(_)
Visible(u) ==
  IF u.w = <<>> THEN u
  ELSE LET rest == Visible([w |-> Tail(u.w), d |-> Tail(u.d)])
       IN IF u.w[1] = Eps THEN [rest EXCEPT !.d = <<u.d[1] + rest.d[1]>> \o Tail(rest.d)]
          ELSE [w |-> <<u.w[1]>> \o rest.w, d |-> <<u.d[1]>> \o rest.d]
RECURSIVE Sum(_)
Sum(s) == IF s = <<>> THEN 0 ELSE s[1] + Sum(Tail(s))
\* accumulated durations: from position i to the end
Acc(u) == [i \in 1..Len(u.d) |-> Sum(SubSeq(u.d, i, Len(u.d)))]
IsPrefix(p, u) ==
  /\ Len(p.w) <= Len(u.w)
  /\ SubSeq(u.w, 1, Len(p.w)) = p.w
  /\ SubSeq(u.d, 1, Len(p.w)) = SubSeq(p.d, 1, Len(p.w))
  /\ p.d[Len(p.d)] <= u.d[Len(p.d)]
Cut(u, p) ==
  [w |-> SubSeq(u.w, Len(p.w) + 1, Len(u.w)),
   d |-> <<u.d[Len(p.d)] - p.d[Len(p.d)]>> \o SubSeq(u.d, Len(p.d) + 1, Len(u.d))]

Small == UNION {{[w |-> w, d |-> d] : w \in [1..n -> {"a", "b", Eps}], d \in [1..(n + 1) -> {0, 1, 3}]} : n \in 0..1}
ASSUME Laws ==
  /\ \A u \in Small : Cat(u, Empty) = u /\ Cat(Empty, u) = u /\ Word(Visible(u)) /\ Visible(Visible(u)) = Visible(u)
  /\ \A u, v \in Small : /\ IsPrefix(u, Cat(u, v)) /\ Cut(Cat(u, v), u) = v
                         /\ Visible(Cat(u, v)) = Cat(Visible(u), Visible(v))
                         /\ Sum(Cat(u, v).d) = Sum(u.d) + Sum(v.d)
                         /\ IsPrefix(u, v) => Cat(u, Cut(v, u)) = v
  /\ \A u, v, x \in Small : Cat(Cat(u, v), x) = Cat(u, Cat(v, x))

VARIABLES c, p
Init == c \in DOMAIN Cases /\ p = 1
Next == p < Len(Cases[c].steps) /\ p' = p + 1 /\ UNCHANGED c
Spec == Init /\ [][Next]_<<c, p>>

\* a recorded word agrees with u in all its observations
Is(o, u) ==
  /\ o.w = u.w /\ o.d = u.d
  /\ o.size = Len(u.w)
  /\ o.acc = Acc(u)
  /\ o.shown = u
Agree(s) ==
  CASE s.op = "make" -> Is(s.out, Visible(s.raw))
    [] s.op = "empty" -> Is(s.out, Empty)
    [] s.op = "concat" -> Is(s.out, Cat(s.u, s.v))
    [] s.op = "letter" -> Is(s.out, Cat(s.u, Letter(s.a)))
    [] s.op = "delay" -> Is(s.out, Cat(s.u, Delay(s.t)))
    [] s.op = "suffix" -> IsPrefix(s.p, s.u) => Is(s.out, Cut(s.u, s.p))
    [] s.op = "same" -> Is(s.out, s.u)
    [] s.op = "equal" -> /\ (s.eq = 1) = (s.u = s.v)
                         /\ s.eq = 1 => s.hash = 1

Correct == Agree(Cases[c].steps[p])
=============================================================================

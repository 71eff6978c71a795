------------------------------ MODULE Overlaps ------------------------------
(***************************************************************************)
(* Resolution of transitions on one letter which are enabled together.       *)
(* A configuration is a set of boxes (guards), each standing for some of     *)
(* the given transitions.  While two boxes overlap, they are joined:         *)
(*   merge    into the smallest box around them;                             *)
(*   precise  as before, but a box which is exact on all precise clocks      *)
(*            takes precedence over one which is not;                        *)
(*   weaker   (no joining) a box that is contained in another one with the   *)
(*            same target is dropped.                                        *)
(* All orders are followed.  When nothing is left to do, what the            *)
(* implementation left must be one of the configurations reached.            *)
(***************************************************************************)
EXTENDS Situations, Json, IOUtils

Cases == ndJsonDeserialize(IOEnv.CASES)

VARIABLES c, l, front, final, begun
vars == <<c, l, front, final, begun>>
C == Cases[c]
Given == C.letters[l].given
Left == C.letters[l].left

(***************************************************************************)
(* Boxes: the half-integer points lo .. hi of each clock (hi = Top: no bound) *)
(***************************************************************************)
BoxOf(g) == TLCEval([i \in 1..C.n |-> LET V == {v \in 0..Top : InG(i, v, g)} IN <<Lowest(V), Highest(V)>>])
Meet(a, b) == \A i \in 1..C.n : a[i][1] <= b[i][2] /\ b[i][1] <= a[i][2]
Inside(a, b) == \A i \in 1..C.n : b[i][1] <= a[i][1] /\ a[i][2] <= b[i][2]
Hull(a, b) == TLCEval([i \in 1..C.n |-> <<IF a[i][1] <= b[i][1] THEN a[i][1] ELSE b[i][1], IF a[i][2] >= b[i][2] THEN a[i][2] ELSE b[i][2]>>])
Exact(b) == {i \in 1..C.n : b[i][1] = b[i][2]}

\* the clocks of the target that are not exact when the guard is the box b
Inexact(b, k) == (1..C.size[Given[k].t]) \ PreciseAfter(Exact(b), Given[k].u, C.size[Given[k].t])

(***************************************************************************)
(* Joining x and y: a set of results                                        *)
(***************************************************************************)
Both(x, y) == [b |-> Hull(x.b, y.b), m |-> x.m \cup y.m]
As(x, y) == [b |-> Hull(x.b, y.b), m |-> x.m]
Single(x) == Cardinality(x.m) = 1
Leaves(x) == LET k == CHOOSE k \in x.m : TRUE IN Inexact(x.b, k)
\* the target and the assignments of the one that leaves everything exact
Merge(x, y) ==
  IF ~Single(x) \/ ~Single(y) THEN Both(x, y)
  ELSE LET a == TLCEval(Leaves(x) = {}) b == TLCEval(Leaves(y) = {})
       IN IF a /\ ~b THEN As(x, y) ELSE IF b /\ ~a THEN As(y, x) ELSE Both(x, y)
P == SetOf(C.p)
MergePrecise(x, y) ==
  LET ex == TLCEval(Exact(x.b)) ey == TLCEval(Exact(y.b))
      px == P \subseteq ex
      py == P \subseteq ey
      differ == {i \in P : (i \in ex) # (i \in ey)}
  IN IF px /\ ~py THEN x
     ELSE IF py /\ ~px THEN y
     ELSE IF px /\ py THEN Merge(x, y)
     ELSE IF x.b = y.b THEN Both(x, y)
     ELSE IF Inside(x.b, y.b) THEN y
     ELSE IF Inside(y.b, x.b) THEN x
     ELSE IF differ = {} THEN Merge(x, y)
     ELSE IF differ \subseteq ex THEN As(x, y)
     ELSE IF differ \subseteq ey THEN As(y, x)
     ELSE Both(x, y)

Todo(q) ==
  IF C.op = "weaker"
  THEN {e \in q \X q : e[1] # e[2] /\ LET i == CHOOSE i \in e[1].m : TRUE j == CHOOSE j \in e[2].m : TRUE
                                      IN Given[i] # Given[j] /\ Given[i].t = Given[j].t /\ Inside(e[1].b, e[2].b)}
  ELSE {e \in q \X q : e[1] # e[2] /\ Meet(e[1].b, e[2].b)}
Result(q, e) ==
  IF C.op = "weaker" THEN q \ {e[1]}
  ELSE (q \ {e[1], e[2]}) \cup {IF C.op = "merge" THEN Merge(e[1], e[2]) ELSE MergePrecise(e[1], e[2])}

(***************************************************************************)
(* All orders                                                               *)
(***************************************************************************)
Start0 == {[b |-> BoxOf(Given[k].g), m |-> {k}] : k \in DOMAIN Given}
Init == c \in DOMAIN Cases /\ l \in DOMAIN Cases[c].letters /\ front = {} /\ final = {} /\ begun = FALSE
Begin == ~begun /\ begun' = TRUE /\ front' = {TLCEval(Start0)} /\ UNCHANGED <<c, l, final>>
Round ==
  /\ front # {}
  /\ front' = TLCEval(UNION {{Result(q, e) : e \in Todo(q)} : q \in front})
  /\ final' = final \cup {q \in front : Todo(q) = {}}
  /\ UNCHANGED <<c, l, begun>>
Next == Begin \/ Round
Spec == Init /\ [][Next]_vars

(***************************************************************************)
(* Properties                                                               *)
(***************************************************************************)
Done == begun /\ front = {}
Stands(x, k) == BoxOf(Left[k].g) = x.b /\ \E i \in x.m : Left[k].t = Given[i].t /\ Left[k].u = Given[i].u
Resolved ==
  Done => \E q \in final : /\ Cardinality(q) = Len(Left)
                           /\ \A x \in q : Cardinality({k \in DOMAIN Left : Stands(x, k)}) >= 1
                           /\ \A k \in DOMAIN Left : \E x \in q : Stands(x, k)
\* no two remaining ones are enabled together, and without precedence nothing is lost
Apart == (begun /\ C.op # "weaker") => \A i, j \in DOMAIN Left : i # j => ~Meet(BoxOf(Left[i].g), BoxOf(Left[j].g))
Covered == (begun /\ C.op # "precise") => \A i \in DOMAIN Given : \E j \in DOMAIN Left : Inside(BoxOf(Given[i].g), BoxOf(Left[j].g))
\* the tests of the library
Over(ts) == \E i, j \in DOMAIN ts : i # j /\ Meet(BoxOf(ts[i].g), BoxOf(ts[j].g))
Tests ==
  begun =>
    /\ C.det = (IF \E k \in DOMAIN C.letters : Over(C.letters[k].given) THEN 0 ELSE 1)
    /\ C.after = (IF \E k \in DOMAIN C.letters : Over(C.letters[k].left) THEN 0 ELSE 1)
    /\ C.split = (IF \E k \in DOMAIN C.letters :
                       LET ts == C.letters[k].given
                       IN \E i, j \in DOMAIN ts : ts[i].t # ts[j].t /\ Meet(BoxOf(ts[i].g), BoxOf(ts[j].g)) /\ Exact(BoxOf(ts[i].g)) # Exact(BoxOf(ts[j].g))
                  THEN 1 ELSE 0)
=============================================================================

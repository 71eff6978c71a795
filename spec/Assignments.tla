---------------------------- MODULE Assignments ----------------------------
(***************************************************************************)
(* The transitions of a hypothesis.  A morphism relates the durations of a  *)
(* word in a source condition S with those of a word in a target condition  *)
(* T by a renaming, a set of equations x_i = x'_j.  Its transition is        *)
(* enabled where each clock has a value it has in S, and assigns to each     *)
(* target clock j: its only value in T, if there is one; a source clock     *)
(* which is equal to it whenever S, T and the renaming hold, if there is     *)
(* one; and otherwise a constant, such that the constants fit into T.  If    *)
(* that determines everything, the result lies in T.                         *)
(* The system: a case is planned (what the renaming implies), a source       *)
(* region is chosen, and one of the recorded transitions is fired.           *)
(***************************************************************************)
EXTENDS Zones, Json, IOUtils

Cases == ndJsonDeserialize(IOEnv.CASES)
Scale == 16

Norm(r) ==
  LET D == DOMAIN r.ip
      used == {r.rk[i] : i \in D} \ {0}
  IN [ip |-> r.ip, rk |-> TLCEval([i \in D |-> IF r.rk[i] = 0 THEN 0 ELSE Cardinality({k \in used : k <= r.rk[i]})])]
Sub(r, cl) == Norm([ip |-> TLCEval([i \in DOMAIN cl |-> r.ip[cl[i]]]), rk |-> TLCEval([i \in DOMAIN cl |-> r.rk[cl[i]]])])

Entry(n, r) ==
  [r |-> r, t |-> TLCEval([m \in 1..((n + 1) * (n + 1)) |->
                     LET b == Tight(r, (m - 1) \div (n + 1), (m - 1) % (n + 1)) IN 2 * b[1] + b[2]])]
\* Sequences of sums of durations decrease
Mono(r) ==
  \A i \in 1..(Len(r.ip) - 1) : r.ip[i] > r.ip[i + 1] \/ (r.ip[i] = r.ip[i + 1] /\ r.rk[i] >= r.rk[i + 1])
GTable(n, top) == {Entry(n, r) : r \in AllRegions(n, top)}
G1 == GTable(1, 3)
G2 == GTable(2, 3)
G3 == GTable(3, 3)
G4 == GTable(4, 2)
G(n) == CASE n = 1 -> G1 [] n = 2 -> G2 [] n = 3 -> G3 [] n = 4 -> G4

At(n, i, j) == i * (n + 1) + j + 1
Code(n, z) == TLCEval([k \in DOMAIN z |-> <<At(n, z[k][1], z[k][2]), 2 * z[k][3] + z[k][4]>>])
Has(e, k) == \A m \in DOMAIN k : e.t[k[m][1]] <= k[m][2]
Map(z, f(_)) == [k \in DOMAIN z |-> <<f(z[k][1]), f(z[k][2]), z[k][3], z[k][4]>>]
RangeOf(s) == {s[i] : i \in DOMAIN s}

\* The regions of both sides together which satisfy S, T and the equations
Joint(n, m, s, t, r) ==
  LET k == Code(n + m, s \o Map(t, LAMBDA i : IF i = 0 THEN 0 ELSE n + i)
                      \o [x \in DOMAIN r |-> <<r[x][1], n + r[x][2], 0, 1>>] \o [x \in DOMAIN r |-> <<n + r[x][2], r[x][1], 0, 1>>])
  IN TLCEval({e.r : e \in {f \in G(n + m) : Has(f, k)}})
\* The source clocks which are equal to the target clock j in all of them
Equal(J, n, j) == {i \in 1..n : \A r \in J : Tight(r, i, n + j) = <<0, 1>>}
\* The only value of target clock j, -1 if there are several
Point(J, n, j) ==
  LET v == {IF r.rk[n + j] = 0 THEN r.ip[n + j] ELSE -1 : r \in J} IN IF Cardinality(v) = 1 THEN CHOOSE x \in v : TRUE ELSE -1
Left(J, n) == {Sub(r, [i \in 1..n |-> i]) : r \in J}

\* The values of the clocks one by one: integer parts, and whether there is a fractional part
Projected(n, s) ==
  LET k == Code(n, s) S == TLCEval({e.r : e \in {f \in G(n) : Has(f, k)}})
  IN TLCEval([i \in 1..n |-> {<<q.ip[i], q.rk[i] = 0>> : q \in S}])
On(r, pr) == \A i \in DOMAIN pr : <<r.ip[i], r.rk[i] = 0>> \in pr[i]

Morphism(n, a) ==
  LET J == Joint(n, a.m, a.s, a.t, a.r)
  IN [sat |-> J # {}, left |-> Left(J, n), on |-> Projected(n, a.s),
      eq |-> [j \in 1..a.m |-> Equal(J, n, j)], pt |-> [j \in 1..a.m |-> Point(J, n, j)]]

VARIABLES c, at, plan, x
vars == <<c, at, plan, x>>
Case == Cases[c]

Init == c \in DOMAIN Cases /\ at = "new" /\ plan = <<>> /\ x = <<>>
Plan ==
  /\ at = "new"
  /\ at' = "planned"
  /\ plan' = CASE Case.kind = "maker" -> [k \in DOMAIN Case.adds |-> TLCEval(Morphism(Case.n, Case.adds[k]))]
               [] Case.kind = "internal" -> [k \in DOMAIN Case.adds |-> [on |-> Projected(Case.n, Case.adds[k].s)]]
               [] Case.kind = "renaming" -> <<TLCEval(Morphism(Case.n, [m |-> Case.m, s |-> Case.s, t |-> Case.t, r |-> Case.facts[1].r]))>>
               [] OTHER -> <<>>
  /\ UNCHANGED <<c, x>>
\* Any region of the source location (the tables are larger by one: see Projected)
Arrive ==
  /\ at = "planned" /\ Case.kind \in {"maker", "internal"}
  /\ at' = "source"
  /\ \E e \in G(Case.n) : Mono(e.r) /\ e.r.ip[1] <= 2 /\ x' = [r |-> e.r]
  /\ UNCHANGED <<c, plan>>
Enabled(t, r) == In(r, t.g)
\* What clock j is after a transition: <<the copied clock, 0>> or <<0, the constant>>
Value(v, j) ==
  LET S == {k \in DOMAIN v : v[k][1] = j} IN IF S = {} THEN <<j, 0>> ELSE LET k == CHOOSE q \in S : \A p \in S : p <= q IN <<v[k][2], v[k][3]>>
Fire ==
  /\ at = "source"
  /\ at' = "target"
  /\ \E k \in DOMAIN Case.trs :
       /\ Enabled(Case.trs[k], x.r)
       /\ x' = [r |-> x.r, to |-> Case.trs[k].to, v |-> [j \in 1..4 |-> Value(Case.trs[k].v, j)]]
  /\ UNCHANGED <<c, plan>>
Next == Plan \/ Arrive \/ Fire
Spec == Init /\ [][Next]_vars

(***************************************************************************)
(* The transitions of a case                                                *)
(***************************************************************************)
\* The constants (and forced values) fit into T
ConstantsFit(a, p, v) ==
  LET C == {j \in 1..a.m : v[j][1] = 0 \/ p.pt[j] >= 0}
      val(j) == IF j = 0 THEN 0 ELSE IF v[j][1] = 0 THEN v[j][2] ELSE Scale * p.pt[j]
  IN \A k \in DOMAIN a.t :
       LET b == a.t[k] D == val(b[1]) - val(b[2])
       IN (b[1] \in C \cup {0} /\ b[2] \in C \cup {0}) => (D < Scale * b[3] \/ (D = Scale * b[3] /\ b[4] = 1))

ExplainedExternal(r, a, p, v) ==
  /\ \A j \in 1..a.m :
       IF p.pt[j] >= 0 THEN v[j] = <<0, Scale * p.pt[j]>> \/ (v[j][1] \in 1..Case.n /\ r.ip[v[j][1]] = p.pt[j] /\ r.rk[v[j][1]] = 0)
       ELSE IF p.eq[j] # {} THEN v[j][1] \in p.eq[j]
       ELSE v[j][1] = 0
  /\ ConstantsFit(a, p, v)
ExplainedInternal(v) == v[Case.n + 1] = <<0, 0>> /\ \A j \in 1..Case.n : v[j] = <<j, 0>>

Explained(k, r, to, v) ==
  /\ Case.adds[k].to = to
  /\ On(r, plan[k].on)
  /\ IF Case.kind = "maker" THEN ExplainedExternal(r, Case.adds[k], plan[k], v) ELSE ExplainedInternal(v)

\* Every transition belongs to a morphism
Right == at = "target" => \E k \in DOMAIN Case.adds : Explained(k, x.r, x.to, x.v)
\* Every morphism has its transition
Complete ==
  at = "source" =>
    \A k \in DOMAIN Case.adds : On(x.r, plan[k].on) =>
      \E q \in DOMAIN Case.trs :
         Enabled(Case.trs[q], x.r) /\ Explained(k, x.r, Case.trs[q].to, [j \in 1..4 |-> Value(Case.trs[q].v, j)])
\* Without fractional constants next to copies, the transition leads into T
Lands ==
  (at = "target" /\ Case.kind = "maker") =>
    \E k \in DOMAIN Case.adds :
      /\ Explained(k, x.r, x.to, x.v)
      /\ LET a == Case.adds[k]
             D == 1..a.m
             cs == {j \in D : x.v[j][1] = 0}
             whole == \A j \in cs : x.v[j][2] % Scale = 0
             r2 == Norm([ip |-> [j \in D |-> IF j \in cs THEN x.v[j][2] \div Scale ELSE x.r.ip[x.v[j][1]]],
                         rk |-> [j \in D |-> IF j \in cs THEN 0 ELSE x.r.rk[x.v[j][1]]]])
         IN (whole /\ x.r \in plan[k].left) => In(r2, a.t)

(***************************************************************************)
(* The facts about a renaming                                               *)
(***************************************************************************)
SourcePoint(n, s, i) ==
  LET v == {<<s[k][3], s[k][4]>> : k \in {q \in DOMAIN s : s[q][1] = i /\ s[q][2] = 0}}
      w == {<<-s[k][3], s[k][4]>> : k \in {q \in DOMAIN s : s[q][1] = 0 /\ s[q][2] = i}}
  IN v \cap w
Facts ==
  (at = "planned" /\ Case.kind = "renaming") =>
    LET p == plan[1]
        n == Case.n
        m == Case.m
        T == 1..m
        pts == {j \in T : SourcePoint(m, Case.t, j) # {}}
        fresh == Case.facts[2].r
    IN /\ p.sat
       /\ \A q \in {1, 2} :
            LET f == Case.facts[q]
                R == RangeOf(f.r)
                rights == {e[2] : e \in R}
                full == rights \cup pts = T
                only == rights \subseteq pts
                imp == R # {} /\ ~full /\ ~only
            IN /\ RangeOf(f.rights) = rights /\ Len(f.rights) = Cardinality(rights)
               /\ \A i \in 1..(Len(f.rights) - 1) : f.rights[i] < f.rights[i + 1]
               /\ f.unique = (Len(f.r) = Cardinality(rights))
               /\ f.full = full
               /\ f.only = only
               /\ f.all = (\A j \in pts : (\E i \in 1..n : SourcePoint(n, Case.s, i) \cap SourcePoint(m, Case.t, j) # {}) => j \in rights)
               /\ f.imp = imp
               /\ RangeOf(f.imps) = (IF imp THEN {j \in T : j \notin pts /\ j \notin rights} ELSE {})
       \* what the renaming implies: one of the equal clocks for every target clock that has one
       /\ Case.facts[2].unique
       /\ {e[2] : e \in RangeOf(fresh)} = {j \in T : p.eq[j] # {}}
       /\ \A k \in DOMAIN fresh : fresh[k][1] \in p.eq[fresh[k][2]]
       \* removing a clock on the left
       /\ Case.erased = SelectSeq(Case.facts[1].r, LAMBDA e : e[1] # Case.left)
       \* representatives lie in the condition
       /\ \A q \in DOMAIN Case.vals : Len(Case.vals[q]) = m /\ InV(Case.vals[q], Scale, Case.t)

(***************************************************************************)
(* Assignments as functions on valuations, here tokens                      *)
(***************************************************************************)
Ident(n) == [j \in 1..n |-> <<j, 0>>]
After(v, n, u) == [j \in 1..n |-> LET w == Value(v, j) IN IF w[1] = 0 THEN w ELSE u[w[1]]]
Composes ==
  (at = "planned" /\ Case.kind = "compose") =>
    LET n == Case.n
    IN /\ After(Case.both, n, Ident(n)) = After(Case.second, n, After(Case.first, n, Ident(n)))
       /\ After(Case.clean, n, Ident(n)) = After(Case.second, n, Ident(n))
       /\ \A j \in 1..n : Value(Case.def, j) = (IF \E k \in DOMAIN Case.second : Case.second[k][1] = j THEN Value(Case.second, j) ELSE Value(Case.first, j))

\* A word is mapped to a word of the codomain which satisfies the equations
Maps ==
  (at = "planned" /\ Case.kind = "maps") =>
    /\ Case.word /\ Case.dom
    /\ Len(Case.x) = Case.n /\ Len(Case.y) = Case.m
    /\ InV(Case.x, Case.k, Case.s)
    /\ InV(Case.y, Case.k, Case.t)
    /\ \A q \in DOMAIN Case.r : Case.x[Case.r[q][1]] = Case.y[Case.r[q][2]]
    /\ \A j \in 1..Case.m : Case.y[j] >= (IF j < Case.m THEN Case.y[j + 1] ELSE 0)
=============================================================================

------------------------------- MODULE Chase -------------------------------
(***************************************************************************)
(* The recognisable language behind a hypothesis, and the analysis of       *)
(* counterexamples.  A word which is in no chosen row is split into a       *)
(* prefix in another row and a suffix; the prefix is replaced by a related  *)
(* word of the chosen row its row is identified with; this is repeated      *)
(* until the word is in a chosen row.  The state is the current word of     *)
(* such a chase.  Each case is a list of chases recorded from the           *)
(* implementation; auts[1] is the target, auts[1 + h] is hypothesis h, and  *)
(* all the durations are scaled by s.                                       *)
(***************************************************************************)
EXTENDS Exec, Json, IOUtils

Cases == ndJsonDeserialize(IOEnv.CASES)

VARIABLES c, k, n, w
vars == <<c, k, n, w>>

B == Cases[c]
Ch == B.chains[k]
T == B.steps[Ch.step]
Target == B.auts[1]
Hyp == B.auts[1 + Ch.hyp]

Len2(u) == Len(u.w) + 1
RECURSIVE Suffix(_, _)
Suffix(d, i) == IF i > Len(d) THEN 0 ELSE d[i] + Suffix(d, i + 1)
Clocks(u) == TLCEval([i \in DOMAIN u.d |-> Suffix(u.d, i)])
Append2(u, v) ==
  [w |-> u.w \o v.w, d |-> SubSeq(u.d, 1, Len(u.d) - 1) \o <<u.d[Len(u.d)] + v.d[1]>> \o SubSeq(v.d, 2, Len(v.d))]
Word(u) == Len(u.d) = Len2(u) /\ \A i \in DOMAIN u.d : u.d[i] >= 0

Val(x, i) == IF i = 0 THEN 0 ELSE x[i]
InLang(u, l) ==
  /\ u.w = l.w
  /\ LET x == Clocks(u)
     IN \A m \in DOMAIN l.z :
          LET b == l.z[m] D == Val(x, b[1]) - Val(x, b[2]) IN D < b[3] * B.s \/ (D = b[3] * B.s /\ b[4] = 1)
Row(i) == B.rows[T.rows[i]]
InRow(u, i) == InLang(u, Row(i))
Chosen(u) == {i \in DOMAIN T.rows : T.p[i] = 1 /\ InRow(u, i)}

Init == c \in DOMAIN Cases /\ k \in DOMAIN Cases[c].chains /\ n = 0 /\ w = Cases[c].chains[k].words[1]

\* One replacement
Link == Ch.links[n + 1]
Next ==
  /\ n < Len(Ch.links)
  /\ n' = n + 1
  /\ w' = Append2(Link.img, Link.suf)
  /\ UNCHANGED <<c, k>>

Spec == Init /\ [][Next]_vars

Done == n = Len(Ch.links)

\* The implementation's words are those of the chase; it goes on until a chosen row is reached
Follows ==
  /\ w = Ch.words[n + 1]
  /\ IF Done THEN Ch.stuck = 0 /\ Chosen(w) # {} ELSE Chosen(w) = {}

\* Each replacement is right: the prefix is in a row which is not chosen, the image is in a chosen row,
\* and they are related by the recorded renaming
Related ==
  ~Done =>
    /\ Word(Link.pre) /\ Word(Link.suf) /\ Word(Link.img)
    /\ Append2(Link.pre, Link.suf) = w
    /\ Link.dom # 0 /\ Link.cod # 0
    /\ T.p[Link.dom] = 0 /\ InRow(Link.pre, Link.dom)
    /\ T.p[Link.cod] = 1 /\ InRow(Link.img, Link.cod)
    /\ LET x == Clocks(Link.pre) y == Clocks(Link.img)
       IN \A e \in DOMAIN Link.ren : x[Link.ren[e][1]] = y[Link.ren[e][2]]

\* The answer for the word at the end is the target's, and it is the answer for the first word; so is
\* the answer of the automaton
Answers ==
  (Done /\ Ch.stuck = 0) =>
    /\ Ch.in = Ch.final
    /\ (Ch.final = 1) = Accepts(Target, w)
    /\ (Ch.in = 1) = Accepts(Hyp, Ch.words[1])

(***************************************************************************)
(* Analysis of a counterexample: res is <<>> or <<suffix>>.                 *)
(***************************************************************************)
Changes(i) == Accepts(Target, Ch.words[i]) # Accepts(Target, Ch.words[i + 1])
Fresh(u) == \A j \in DOMAIN T.cols : ~InLang(u, B.cols[T.cols[j]])
SuffixOf(v, u) ==
  LET a == Len(u.w) - Len(v.w)
  IN /\ a >= 0 /\ v.w = SubSeq(u.w, a + 1, Len(u.w))
     /\ v.d[1] <= u.d[a + 1] /\ SubSeq(v.d, 2, Len(v.d)) = SubSeq(u.d, a + 2, Len(u.d))
\* The suffixes that may be returned
Good == {i \in DOMAIN Ch.links : Changes(i) /\ Fresh(Ch.links[i].suf)}

Splits ==
  n = 0 =>
    /\ \E i \in DOMAIN Ch.links : Changes(i)
    /\ Ch.res = <<>> => Good = {}
    /\ Ch.res # <<>> => \E i \in Good : Ch.links[i].suf = Ch.res[1] /\ SuffixOf(Ch.res[1], Ch.words[1])

\* What was analysed during learning: the next table has a column with the suffix, the rows are no
\* longer identified like that, and every later hypothesis is right about the two words
Later == {h \in DOMAIN B.hypstep : h > Ch.hyp}
Learned ==
  (n = 0 /\ Ch.real = 1 /\ Ch.res # <<>>) =>
    /\ \A t \in {B.steps[B.hypstep[h]] : h \in Later} :
         \E j \in (Len(T.cols) + 1)..Len(t.cols) : InLang(Ch.res[1], B.cols[t.cols[j]])
    /\ \E i \in Good :
         /\ Ch.links[i].suf = Ch.res[1]
         /\ \A h \in Later : \A u \in DOMAIN B.used[h] :
              B.used[h][u].i = Ch.links[i].dom => \A m \in DOMAIN B.used[h][u].to :
                 ~(B.used[h][u].to[m].j = Ch.links[i].cod /\ B.used[h][u].to[m].r = Ch.links[i].ren)

Wrong(h, u) == Accepts(B.auts[1 + h], u) # Accepts(Target, u)
\* The hypothesis is wrong about the word, and a later one is right about the two words which were told apart
Accounted ==
  (n = 0 /\ Ch.real = 1) =>
    /\ Wrong(Ch.hyp, Ch.words[1])
    /\ Ch.res # <<>> =>
         \E i \in Good :
           /\ Ch.links[i].suf = Ch.res[1]
           /\ Wrong(Ch.hyp, Ch.words[i]) \/ Wrong(Ch.hyp, Ch.words[i + 1])

InputOk == n = 0 => (\A i \in DOMAIN B.auts : WellFormed(B.auts[i]) /\ ~B.auts[i].eps) /\ Word(w)
=============================================================================

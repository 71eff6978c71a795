------------------------------ MODULE Oracles -------------------------------
(***************************************************************************)
(* The oracles the learner talks to, as a state machine over what has been  *)
(* asked so far.  A case is a history recorded from the real objects; auts  *)
(* holds the target (1) and the hypotheses (2..).  Events:                  *)
(*  "m"  membership query w through the cache: answer res, and afterwards   *)
(*       real (runs actually made on the system), count (reported),         *)
(*       total (reported number of queries)                                 *)
(*  "s"  the same through the uncached oracle                               *)
(*  "t"  test-based equivalence oracle with the words put so far            *)
(*  "put" a word is given to the test-based oracle                          *)
(*  "eq" query h to the memoising oracle: called/inner (was the wrapped     *)
(*       oracle asked, and what did it answer), ans, total, cached          *)
(*       (reported numbers of queries)                                      *)
(*  "ch" query to a chain: inner = answers of the members asked, in order,  *)
(*       members = length of the chain, ans, total                          *)
(*  "rt" query h to the oracle that tests at random (words of at most        *)
(*       length letters, each delay at most time): ans, total              *)
(* A word is [w, d] with scaled durations; <<>> stands for no word.         *)
(***************************************************************************)
EXTENDS Exec, Json, IOUtils

Cases == ndJsonDeserialize(IOEnv.CASES)

VARIABLES c, p,
          asked,   \* words put to the cached oracle
          nm, ns,  \* queries to the cached and the uncached oracle
          tests,   \* words of the test-based oracle
          memo,    \* counterexamples recorded by the memo
          neq, nin, nch, nrt
vars == <<c, p, asked, nm, ns, tests, memo, neq, nin, nch, nrt>>

Ev == Cases[c].ev
Target == Cases[c].auts[1]
Hyp(h) == Cases[c].auts[h + 1]

\* x is a prefix of y as a timed word
IsPrefix(x, y) ==
  LET n == Len(x.w)
  IN /\ n <= Len(y.w)
     /\ \A i \in 1..n : x.w[i] = y.w[i] /\ x.d[i] = y.d[i]
     /\ x.d[n + 1] >= 0 /\ x.d[n + 1] <= y.d[n + 1]

Misjudges(h, x) == Accepts(Target, x) # Accepts(Hyp(h), x)

None(a) == a = <<>>

Init == /\ c \in DOMAIN Cases
        /\ p = 1 /\ asked = {} /\ nm = 0 /\ ns = 0 /\ tests = <<>> /\ memo = <<>> /\ neq = 0 /\ nin = 0 /\ nch = 0 /\ nrt = 0

Next ==
  /\ p <= Len(Ev)
  /\ p' = p + 1
  /\ c' = c
  /\ LET e == Ev[p]
     IN CASE e.e = "m" -> /\ asked' = asked \cup {e.w}
                          /\ nm' = nm + 1
                          /\ UNCHANGED <<ns, tests, memo, neq, nin, nch, nrt>>
          [] e.e = "s" -> /\ ns' = ns + 1
                          /\ UNCHANGED <<asked, nm, tests, memo, neq, nin, nch, nrt>>
          [] e.e = "put" -> /\ tests' = Append(tests, e.w)
                            /\ UNCHANGED <<asked, nm, ns, memo, neq, nin, nch, nrt>>
          [] e.e = "t" -> UNCHANGED <<asked, nm, ns, tests, memo, neq, nin, nch, nrt>>
          [] e.e = "eq" -> /\ neq' = neq + 1
                           /\ nin' = nin + (IF e.called THEN 1 ELSE 0)
                           /\ memo' = IF e.called /\ ~None(e.inner) THEN Append(memo, e.inner) ELSE memo
                           /\ UNCHANGED <<asked, nm, ns, tests, nch, nrt>>
          [] e.e = "ch" -> /\ nch' = nch + 1
                           /\ UNCHANGED <<asked, nm, ns, tests, memo, neq, nin, nrt>>
          [] e.e = "rt" -> /\ nrt' = nrt + 1
                           /\ UNCHANGED <<asked, nm, ns, tests, memo, neq, nin, nch>>
Spec == Init /\ [][Next]_vars

Last == Ev[p - 1]
After(k) == p > 1 /\ Last.e = k

\* Membership answers are the target's, cached or not, asked before or not
MemberAnswer == After("m") \/ After("s") => Last.res = Accepts(Target, Last.w)

\* The cache only asks what it has not been asked before, and reports true numbers
MemberCount == /\ After("m") => /\ Last.real = Cardinality(asked)
                                /\ Last.count = Last.real
                                /\ Last.total = nm
               /\ After("s") => Last.real = ns /\ Last.count = ns

\* Answers of the test-based oracle
TestAnswer ==
  After("t") =>
    IF None(Last.ans) THEN \A i \in DOMAIN tests : ~Misjudges(Last.h, tests[i])
    ELSE /\ Misjudges(Last.h, Last.ans)
         /\ \E i \in DOMAIN tests : IsPrefix(Last.ans, tests[i])

\* The memo: what was recorded before the query
Before == IF Last.called /\ ~None(Last.inner) THEN SubSeq(memo, 1, Len(memo) - 1) ELSE memo
FromMemo == \E i \in DOMAIN Before : IsPrefix(Last.ans, Before[i]) /\ Misjudges(Last.h, Last.ans)
MemoAnswer ==
  After("eq") =>
    IF \E i \in DOMAIN Before : Misjudges(Last.h, Before[i])
    THEN ~None(Last.ans) /\ FromMemo
    ELSE IF None(Last.ans) THEN Last.called /\ None(Last.inner)
    ELSE FromMemo \/ (Last.called /\ Last.ans = Last.inner)
MemoCount == After("eq") => Last.total = neq /\ Last.cached = nin

\* A chain answers "equal" only if every member did, and otherwise what a member answered
ChainAnswer ==
  After("ch") =>
    /\ IF None(Last.ans) THEN Len(Last.inner) = Last.members /\ \A i \in DOMAIN Last.inner : None(Last.inner[i])
       ELSE \E i \in DOMAIN Last.inner : Last.ans = Last.inner[i]
    /\ Last.total = nch

\* Random tests only report words that are misjudged, within the bounds on tests, and
\* cannot miss a hypothesis which judges every word without letters differently
RandomAnswer ==
  After("rt") =>
    /\ ~None(Last.ans) =>
         /\ Misjudges(Last.h, Last.ans)
         /\ Len(Last.ans.w) <= Last.length
         /\ \A i \in DOMAIN Last.ans.d : Last.ans.d[i] >= 0 /\ Last.ans.d[i] <= Last.time
         /\ \A i \in DOMAIN Last.ans.w : \E k \in DOMAIN Cases[c].sigma : Cases[c].sigma[k] = Last.ans.w[i]
    /\ (\A d \in 0..Last.time : Misjudges(Last.h, [w |-> <<>>, d |-> <<d>>])) => ~None(Last.ans)
    /\ Last.total = nrt

InputOk == p = 1 => \A i \in DOMAIN Cases[c].auts : WellFormed(Cases[c].auts[i])
=============================================================================

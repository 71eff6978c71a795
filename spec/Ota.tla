--------------------------------- MODULE Ota ---------------------------------
(***************************************************************************)
(* The JSON descriptions of one-clock automata and what importing them may   *)
(* do.  A description gives locations l, letters sigma, entries              *)
(*     [source, letter, interval, reset, target],                            *)
(* an initial location and accepting locations.  The interval is written     *)
(* [a,b] [a,b) (a,b] (a,b) [a,+) or (a,+); reset is "r" or "n".              *)
(* This module reads the text of the intervals itself, gives a description   *)
(* its meaning (an automaton), classifies it, and runs the meaning in lock   *)
(* step with the automaton that was imported.                                *)
(*   accept : a supported, deterministic description: must be imported       *)
(*   refuse : not supported or nondeterministic: must be refused             *)
(*   either : supported apart from blanks in intervals, repeated names,      *)
(*            letters outside sigma: refused or imported with its meaning    *)
(***************************************************************************)
EXTENDS TimedAutomata, Json, IOUtils

Recorded == TLCEval(ndJsonDeserialize(IOEnv.CASES))

\* ------------------------------------------------------------ text
Digit == [x \in {"0", "1", "2", "3", "4", "5", "6", "7", "8", "9"} |->
            CASE x = "0" -> 0 [] x = "1" -> 1 [] x = "2" -> 2 [] x = "3" -> 3 [] x = "4" -> 4
              [] x = "5" -> 5 [] x = "6" -> 6 [] x = "7" -> 7 [] x = "8" -> 8 [] x = "9" -> 9]
IsNumber(s) == s # <<>> /\ Len(s) <= 8 /\ \A k \in DOMAIN s : s[k] \in DOMAIN Digit
RECURSIVE Value(_)
Value(s) == IF s = <<>> THEN 0 ELSE 10 * Value(SubSeq(s, 1, Len(s) - 1)) + Digit[s[Len(s)]]
NoBlanks(s) == SelectSeq(s, LAMBDA x : x # " ")
Positions(s, x) == {k \in DOMAIN s : s[k] = x}

Comma(s) == CHOOSE k \in Positions(s, ",") : TRUE
Low(s) == SubSeq(s, 2, Comma(s) - 1)
High(s) == SubSeq(s, Comma(s) + 1, Len(s) - 1)
IsInterval(s) ==
  /\ Len(s) >= 5
  /\ s[1] \in {"[", "("} /\ s[Len(s)] \in {"]", ")"}
  /\ Cardinality(Positions(s, ",")) = 1
  /\ Comma(s) > 2 /\ Comma(s) < Len(s)
  /\ IsNumber(Low(s))
  /\ IsNumber(High(s)) \/ (High(s) = <<"+">> /\ s[Len(s)] = ")")
Interval(s) ==
  [lo |-> Value(Low(s)), loC |-> s[1] = "[", bounded |-> High(s) # <<"+">>,
   hi |-> IF High(s) = <<"+">> THEN 0 ELSE Value(High(s)), hiC |-> s[Len(s)] = "]"]

\* ------------------------------------------------------------ descriptions
Keys == {"l", "sigma", "tran", "init", "accept"}
Range(s) == {s[k] : k \in DOMAIN s}
Distinct(s) == Cardinality(Range(s)) = Len(s)

\* Every field of an entry is [s |-> text, ch |-> its characters]
EntryOk(d, e) ==
  /\ Len(e) = 5
  /\ e[1].s \in Range(d.l) /\ e[5].s \in Range(d.l)
  /\ Len(e[2].ch) = 1
  /\ IsInterval(NoBlanks(e[3].ch))
  /\ e[4].s \in {"r", "n"}

Supported(d) ==
  /\ Keys \subseteq Range(d.keys)
  /\ d.l # <<>>
  /\ \A k \in DOMAIN d.sigma : Len(d.sigma[k].ch) = 1
  /\ d.init \in Range(d.l)
  /\ Range(d.accept) \subseteq Range(d.l)
  /\ \A k \in DOMAIN d.tran : EntryOk(d, d.tran[k])

Letters(d) == {d.sigma[k].s : k \in DOMAIN d.sigma}
Plain(d) ==
  /\ Distinct(d.l) /\ Cardinality(Letters(d)) = Len(d.sigma) /\ Distinct(d.accept)
  /\ \A k \in DOMAIN d.tran : d.tran[k][2].s \in Letters(d) /\ NoBlanks(d.tran[k][3].ch) = d.tran[k][3].ch

\* Half integers up to the largest constant + 1 decide whether two intervals meet
In(i, v) == /\ v > 2 * i.lo \/ (v = 2 * i.lo /\ i.loC)
            /\ i.bounded => (v < 2 * i.hi \/ (v = 2 * i.hi /\ i.hiC))
Top(d) == LET C == UNION {{Interval(NoBlanks(d.tran[k][3].ch)).lo, Interval(NoBlanks(d.tran[k][3].ch)).hi} : k \in DOMAIN d.tran} \cup {0}
          IN CHOOSE m \in C : \A x \in C : x <= m
Det(d) ==
  \A k \in DOMAIN d.tran : \A m \in 1..(k - 1) :
    (d.tran[k][1].s = d.tran[m][1].s /\ d.tran[k][2].s = d.tran[m][2].s) =>
      \A v \in 0..(2 * Top(d) + 2) : ~(In(Interval(NoBlanks(d.tran[k][3].ch)), v) /\ In(Interval(NoBlanks(d.tran[m][3].ch)), v))

Must(d) == IF ~Supported(d) THEN "refuse" ELSE IF ~Det(d) THEN "refuse" ELSE IF Plain(d) THEN "accept" ELSE "either"

\* ------------------------------------------------------------ meaning: an automaton with one clock
\* The locations are numbered; equal names are one location (the number is that of the first occurrence)
Number(d, name) == CHOOSE k \in DOMAIN d.l : d.l[k] = name /\ \A m \in 1..(k - 1) : d.l[m] # name
\* All constants are scaled by K (the imported automaton may need a common denominator)
GuardOf(i, K) ==
  << <<1, IF i.loC THEN ">=" ELSE ">", i.lo * K>> >> \o
  (IF i.bounded THEN << <<1, IF i.hiC THEN "<=" ELSE "<", i.hi * K>> >> ELSE <<>>)
Edge(d, e, K) ==
  [a |-> e[2].s, t |-> Number(d, e[5].s), g |-> GuardOf(Interval(NoBlanks(e[3].ch)), K),
   u |-> << IF e[4].s = "r" THEN <<0, 0>> ELSE <<1, 1>> >>]
Meaning(d, K) ==
  [init |-> Number(d, d.init), off |-> 0, n |-> 1, eps |-> FALSE,
   acc |-> [k \in DOMAIN d.l |-> d.l[k] \in Range(d.accept)],
   st |-> [k \in DOMAIN d.l |->
             LET es == SelectSeq(d.tran, LAMBDA e : Number(d, e[1].s) = k)
             IN [m \in DOMAIN es |-> Edge(d, es[m], K)]],
   cap |-> [k \in DOMAIN d.l |-> << Top(d) * K >>]]

\* ------------------------------------------------------------ lock step
Compare(x) == x.res = "ok" /\ x.well = 1 /\ Must(x.d) # "refuse"
CaseOf(x) ==
  IF Compare(x)
  THEN [id |-> x.id, rel |-> "eq", sigma |-> [k \in DOMAIN x.d.sigma |-> x.d.sigma[k].s], n |-> 1 + x.aut.n,
        auts |-> <<Meaning(x.d, x.K), x.aut>>, det |-> <<2>>, tot |-> <<>>]
  ELSE [id |-> x.id, rel |-> "any", sigma |-> <<>>, n |-> 0, auts |-> <<>>, det |-> <<>>, tot |-> <<>>]
Prepared == TLCEval([k \in DOMAIN Recorded |-> TLCEval(CaseOf(Recorded[k]))])

VARIABLES c, q, r, act
INSTANCE Lockstep WITH Cases <- Prepared

\* ------------------------------------------------------------ the properties
Verdict ==
  act = "start" =>
    LET x == Recorded[c] m == Must(x.d)
    IN /\ m = "accept" => x.res = "ok"
       /\ m = "refuse" => x.res = "refused"
\* An import which is not refused gives a well-formed automaton with the letters of the description
Imported ==
  (act = "start" /\ Recorded[c].res = "ok" /\ Must(Recorded[c].d) # "refuse") =>
    /\ Recorded[c].well = 1
    /\ {Recorded[c].alpha[k] : k \in DOMAIN Recorded[c].alpha} = Letters(Recorded[c].d)
=============================================================================

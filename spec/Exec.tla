-------------------------------- MODULE Exec --------------------------------
(***************************************************************************)
(* Execution of timed automata on concrete timed words, over exactly        *)
(* represented (scaled integer) clock values.                               *)
(***************************************************************************)
EXTENDS TimedAutomata

Sat(x, op, k) == CASE op = "<" -> x < k [] op = "<=" -> x <= k [] op = ">=" -> x >= k [] op = ">" -> x > k
GuardSat(val, g) == \A k \in DOMAIN g : Sat(val[g[k][1]], g[k][2], g[k][3])

\* Simultaneous assignment on concrete values
AssignV(val, off, u) ==
  TLCEval([i \in DOMAIN val |-> IF i <= off \/ i > off + Len(u) THEN val[i]
                                ELSE IF u[i - off][1] = 0 THEN u[i - off][2] ELSE val[u[i - off][2]]])

FireV(A, s, a, val) ==
  IF s = 0 THEN [q |-> 0, v |-> val]
  ELSE LET en == {k \in DOMAIN A.st[s] : A.st[s][k].a = a /\ GuardSat(val, A.st[s][k].g)}
       IN IF en = {} THEN [q |-> 0, v |-> val]
          ELSE LET e == A.st[s][FirstOf(en)] IN [q |-> e.t, v |-> AssignV(val, A.off, e.u)]

Shift(A, val, d) == TLCEval([i \in DOMAIN val |-> IF i > A.off /\ i <= A.off + A.n THEN val[i] + d ELSE val[i]])

\* The first instant in (0, d] or now at which an unobservable transition of state s can fire
EpsTimes(A, s, val, d) ==
  {m \in 0..d : \E k \in DOMAIN A.st[s] : A.st[s][k].a = EPS /\ GuardSat(Shift(A, val, m), A.st[s][k].g)}

\* Time passes: urgent unobservable transitions fire as soon as they can
RECURSIVE DelayV(_, _, _, _)
DelayV(A, s, val, d) ==
  IF s = 0 \/ d = 0 THEN [q |-> s, v |-> val]
  ELSE IF ~A.eps THEN [q |-> s, v |-> Shift(A, val, d)]
  ELSE LET ms == EpsTimes(A, s, val, d)
       IN IF ms = {} THEN [q |-> s, v |-> Shift(A, val, d)]
          ELSE LET m == FirstOf(ms)
                   f == FireV(A, s, EPS, Shift(A, val, m))
               IN DelayV(A, f.q, f.v, d - m)

(***************************************************************************)
(* A timed word is a record [w, d]: letters and (scaled) durations, with    *)
(* Len(d) = Len(w) + 1.  Verdicts(A, x) gives the acceptance after every    *)
(* event of the alternating sequence d[1], w[1], d[2], ..., for an          *)
(* automaton whose clocks are 1..n.                                         *)
(***************************************************************************)
RECURSIVE ExecFrom(_, _, _, _, _)
ExecFrom(A, x, k, s, val) ==
  IF k > 2 * Len(x.w) + 1 THEN <<>>
  ELSE LET f == IF k % 2 = 1 THEN DelayV(A, s, val, x.d[(k + 1) \div 2]) ELSE FireV(A, s, x.w[k \div 2], val)
       IN <<Accepting(A, f.q)>> \o ExecFrom(A, x, k + 1, f.q, f.v)

Verdicts(A, x) == ExecFrom(A, x, 1, A.init, TLCEval([i \in 1..A.n |-> 0]))

Accepts(A, x) == LET r == Verdicts(A, x) IN r[Len(r)]
=============================================================================

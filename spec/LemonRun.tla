------------------------------ MODULE LemonRun ------------------------------
(***************************************************************************)
(* The machine a lemon-generated parser is: a stack of (state, symbol,     *)
(* value), driven token by token.                                          *)
(*                                                                         *)
(* e: the parser at hand                                                   *)
(*   mode    "ref": decisions of the resolved automaton (e.act, e.go);     *)
(*           "tab": the packed tables e.tb                                 *)
(*   rules   sequence of [lhs, rhs, code, ll, lab]: code - has an action;  *)
(*           ll - the action gives the left-hand side a value; lab[j] -    *)
(*           the action names the j-th symbol                              *)
(*   rid     rule number of the tables -> index into rules                 *)
(*   nT, start, err (the error symbol or -1), wild (wildcard or -1),       *)
(*   fb      fallback of each token, 0 when none                           *)
(*   des     symbol -> the destructor responsible for it, 0 when none      *)
(*   depth   number of symbols the stack holds, 0 when unbounded           *)
(*   norec   compiled with YYNOERRORRECOVERY                               *)
(*   stop    stop at the first error                                       *)
(* script: what the caller does: token codes, 0 for the end of the input;  *)
(* the value of the k-th token is k; finally the parser is finalised.      *)
(*                                                                         *)
(* m: the machine                                                          *)
(*   stk   sequence of [st, sym, v]; st is what looking up the state gave: *)
(*         << "s", n >>, or << "r", r >> / << "acc", 0 >> still to be done *)
(*   pos   tokens fed so far; mode of control ph: feed / loop / end        *)
(*   errcnt, hit   error bookkeeping                                       *)
(*   ev    everything the caller and the actions see, in order             *)
(*   ds    per fed token (and finally the finalisation): values destroyed  *)
(*   nv    values made by actions so far; left: steps before giving up     *)
(***************************************************************************)
EXTENDS LemonTables, FiniteSets, TLC

NewValue(n) == 1000 + n

Start(e) ==
  [ stk |-> << [ st |-> << "s", IF e.mode = "ref" THEN 1 ELSE 0 >>, sym |-> 0, v |-> 0 ] >>,
    pos |-> 0, ph |-> "feed", tok |-> 0, errcnt |-> -1, hit |-> FALSE,
    ev |-> <<>>, ds |-> << {} >>, nv |-> 0, peak |-> 0, left |-> 3000 ]

Top(m) == m.stk[Len(m.stk)]
Say(m, k, args) == [ m EXCEPT !.ev = Append(@, [ k |-> k, a |-> args ]) ]

(* the responsible destructor runs once *)
Destroy(e, m, sym, v) ==
  IF e.des[sym + 1] = 0 THEN m
  ELSE [ m EXCEPT !.ds[Len(m.ds)] = @ \cup { << e.des[sym + 1], v >> } ]

RECURSIVE PopAll(_, _)
PopAll(e, m) ==
  IF Len(m.stk) = 1 THEN m
  ELSE PopAll(e, Destroy(e, [ m EXCEPT !.stk = SubSeq(@, 1, Len(@) - 1) ], Top(m).sym, Top(m).v))

---------------------------------------------------------------------------
(* what to do on a token: itself, else its fallback, else the wildcard     *)
LookTok1(e, s, t) ==      \* << found, action >>
  IF e.mode = "ref" THEN IF t \in DOMAIN e.act[s] THEN << TRUE, e.act[s][t] >> ELSE << FALSE, << "e", 0 >> >>
  ELSE IF HasShiftEntry(e.tb, s, t) THEN << TRUE, FindShift(e.tb, s, t) >> ELSE << FALSE, << "e", 0 >> >>
Default(e, s) == IF e.mode = "ref" THEN << "e", 0 >> ELSE Class(e.tb, Nth(e.tb.dflt, s))

LookTok(e, s, t) ==
  LET own == LookTok1(e, s, t) IN
  IF own[1] THEN own[2]
  ELSE LET u == IF t + 1 \in DOMAIN e.fb THEN e.fb[t + 1] ELSE 0
           alt == IF u = 0 THEN own ELSE LookTok1(e, s, u)
       IN IF alt[1] THEN alt[2]
          ELSE LET w == IF e.wild = -1 \/ t = 0 THEN own ELSE LookTok1(e, s, e.wild)
               IN IF w[1] THEN w[2] ELSE Default(e, s)

Action(e, m) == IF Top(m).st[1] = "s" THEN LookTok(e, Top(m).st[2], m.tok) ELSE Top(m).st

\* state to enter after reducing to x with s uncovered
Goto(e, s, x) ==
  IF e.mode = "ref" THEN IF x \in DOMAIN e.go[s] THEN << "s", e.go[s][x] >>
                         ELSE IF x = e.start /\ s = 1 THEN << "acc", 0 >> ELSE << "bad", s >>
  ELSE FindReduce(e.tb, s, x)

---------------------------------------------------------------------------
Full(e, m) == e.depth > 0 /\ Len(m.stk) - 1 >= e.depth - 1

Spill(e, m) == Say(PopAll(e, m), "O", <<>>)
Overflow(e, m) == Spill(e, Destroy(e, m, m.tok, m.pos))     \* the token at hand is lost as well

Push(m, st, sym, v) == [ m EXCEPT !.stk = Append(@, [ st |-> st, sym |-> sym, v |-> v ]),
                                  !.peak = IF Len(m.stk) > @ THEN Len(m.stk) ELSE @ ]

Shift(e, m, act) ==
  LET n == [ m EXCEPT !.errcnt = @ - 1, !.ph = "feed" ] IN
  IF Full(e, m) THEN Overflow(e, n)
  ELSE Push(n, IF act[1] = "sr" THEN << "r", act[2] >> ELSE act, m.tok, m.pos)

RECURSIVE DestroyUnnamed(_, _, _, _, _)
DestroyUnnamed(e, m, r, base, j) ==
  IF j > Len(r.rhs) THEN m
  ELSE DestroyUnnamed(e, IF r.lab[j] THEN m ELSE Destroy(e, m, m.stk[base + j].sym, m.stk[base + j].v), r, base, j + 1)

Reduce(e, m, ri) ==
  LET r == e.rules[e.rid[ri + 1]]
      n == Len(r.rhs)
      base == Len(m.stk) - n
      vals == [ j \in 1..n |-> m.stk[base + j].v ]
      named == SelectSeq([ j \in 1..n |-> j ], LAMBDA j : r.lab[j])
      m1 == DestroyUnnamed(e, m, r, base, 1)
      v  == IF r.code /\ r.ll THEN NewValue(m.nv + 1) ELSE 0
      m2 == IF r.code
            THEN [ Say(m1, "R", << e.rid[ri + 1], v >> \o [ k \in DOMAIN named |-> vals[named[k]] ]) EXCEPT !.nv = @ + (IF r.ll THEN 1 ELSE 0) ]
            ELSE m1
      m3 == [ m2 EXCEPT !.stk = SubSeq(@, 1, base) ]
      to == IF Top(m3).st[1] = "s" THEN Goto(e, Top(m3).st[2], r.lhs) ELSE << "bad", 0 >>
  IN IF n = 0 /\ Full(e, m) THEN [ Overflow(e, m) EXCEPT !.ph = "feed" ]
     ELSE IF to[1] \notin { "s", "r", "acc" } THEN [ Say(m, "bad", <<>>) EXCEPT !.ph = "end" ]
     ELSE Push(m3, to, r.lhs, v)

Accept(e, m) ==
  [ Say([ m EXCEPT !.stk = SubSeq(@, 1, Len(@) - 1) ], "A", <<>>) EXCEPT !.errcnt = -1, !.ph = "feed" ]

---------------------------------------------------------------------------
(* errors *)
Report(m) == Say(m, "E", << m.tok, m.pos >>)
Failure(e, m) == [ Say(PopAll(e, m), "F", <<>>) EXCEPT !.errcnt = -1, !.ph = "feed" ]

\* shifting the error symbol in a state
GotoErr(e, s) ==
  IF e.mode = "ref" THEN IF e.err \in DOMAIN e.go[s] THEN << "s", e.go[s][e.err] >> ELSE << "e", 0 >>
  ELSE FindReduce(e.tb, s, e.err)

RECURSIVE PopToError(_, _)
PopToError(e, m) ==      \* the bottom state is never used
  IF Len(m.stk) = 1 THEN m
  ELSE IF Top(m).st[1] = "s" /\ GotoErr(e, Top(m).st[2])[1] \in { "s", "sr" } THEN m
  ELSE PopToError(e, Destroy(e, [ m EXCEPT !.stk = SubSeq(@, 1, Len(@) - 1) ], Top(m).sym, Top(m).v))

OnError(e, m) ==
  IF e.stop THEN [ Report(m) EXCEPT !.ph = "end" ]
  ELSE IF e.norec THEN [ Destroy(e, Report(m), m.tok, m.pos) EXCEPT !.ph = "feed" ]
  ELSE
   LET m1 == IF m.errcnt <= 0 THEN Report(m) ELSE m IN
   IF e.err = -1 THEN
     LET m2 == Destroy(e, m1, m.tok, m.pos) IN
     IF m.tok = 0 THEN Failure(e, m2) ELSE [ m2 EXCEPT !.errcnt = 3, !.ph = "feed" ]
   ELSE IF Top(m).sym = e.err \/ m.hit THEN
     \* already recovering: the token is discarded
     [ Destroy(e, m1, m.tok, m.pos) EXCEPT !.errcnt = 3, !.ph = "feed" ]
   ELSE
     LET m2 == PopToError(e, m1) IN
     IF Len(m2.stk) = 1 \/ m.tok = 0 THEN Failure(e, Destroy(e, m2, m.tok, m.pos))
     ELSE LET act == GotoErr(e, Top(m2).st[2])
              m3 == [ m2 EXCEPT !.errcnt = 3, !.hit = TRUE ]
          IN IF Full(e, m3) THEN Spill(e, m3)
             ELSE Push(m3, IF act[1] = "sr" THEN << "r", act[2] >> ELSE act, e.err, 0)

---------------------------------------------------------------------------
Step1(e, script, m) ==
  IF m.ph = "feed" THEN
    IF m.pos = Len(script)
    THEN [ PopAll(e, [ m EXCEPT !.ds = Append(@, {}), !.ev = Append(@, [ k |-> "Z", a |-> <<>> ]) ]) EXCEPT !.ph = "end" ]
    ELSE [ m EXCEPT !.pos = @ + 1, !.tok = script[m.pos + 1], !.hit = FALSE, !.ph = "loop",
                    !.ev = Append(@, [ k |-> "T", a |-> << script[m.pos + 1] >> ]), !.ds = Append(@, {}) ]
  ELSE
    LET act == Action(e, m) IN
    CASE act[1] = "r" -> Reduce(e, m, act[2])
      [] act[1] \in { "s", "sr" } -> Shift(e, m, act)
      [] act[1] = "acc" -> Accept(e, m)
      [] act[1] = "e" -> OnError(e, m)
      [] OTHER -> [ Say(m, "bad", <<>>) EXCEPT !.ph = "end" ]

\* a parser that goes on for ever is cut off (and no observed one does)
Step(e, script, m) ==
  IF m.left = 0 THEN [ Say(m, "loop", <<>>) EXCEPT !.ph = "end" ]
  ELSE [ Step1(e, script, m) EXCEPT !.left = m.left - 1 ]

---------------------------------------------------------------------------
(* Every value somebody is responsible for is in exactly one place: on the *)
(* stack, handed to one action, or destroyed.  (The end of the input has   *)
(* no value of its own, the start symbol's is dropped by accepting.)       *)
Ran(m) == { i \in DOMAIN m.ev : m.ev[i].k = "R" }
Created(e, script, m) ==
  { k \in 1..m.pos : script[k] # 0 /\ e.des[script[k] + 1] # 0 } \cup
  { m.ev[i].a[2] : i \in { j \in Ran(m) : LET r == e.rules[m.ev[j].a[1]] IN r.ll /\ e.des[r.lhs + 1] # 0 /\ r.lhs # e.start } }
Accounted(e, script, m) ==      \* once the parser has been finalised
  LET C == TLCEval(Created(e, script, m))
      used == TLCEval({ << q[1], q[2], m.ev[q[1]].a[q[2]] >> : q \in { p \in (Ran(m) \X (3..23)) : p[2] \in DOMAIN m.ev[p[1]].a } })
      gone == TLCEval(UNION { { << i, p[2] >> : p \in m.ds[i] } : i \in DOMAIN m.ds })
  IN /\ C \subseteq { p[3] : p \in used } \cup { p[2] : p \in gone }
     /\ Cardinality({ p \in used : p[3] \in C }) + Cardinality({ p \in gone : p[2] \in C }) = Cardinality(C)
=============================================================================

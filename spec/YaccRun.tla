------------------------------- MODULE YaccRun -------------------------------
(***************************************************************************)
(* The machine a byacc-generated parser is, driven by yyparse().  It runs  *)
(* on the resolved automaton itself (Byacc.tla): in a state with a default *)
(* reduction it reduces before it looks at a token; otherwise the token    *)
(* decides.                                                                *)
(*                                                                         *)
(* e: the parser at hand                                                   *)
(*   kind   "n" plain skeleton, "bt" the backtracking skeleton without -B, *)
(*          "B" with backtracking                                          *)
(*   rules  sequence of [lhs, n, code, set, br, args, locs, rec, sp, cp]:  *)
(*          code - has an action; set - the action gives $$ a new value;   *)
(*          br - a [ ] action, run in trials as well; args - the positions *)
(*          the action prints (1..n the right-hand side, 0 and below what  *)
(*          is under it); locs - positions whose location it prints; rec - *)
(*          it prints YYRECOVERING(); sp - sequence of [k, mod], what the  *)
(*          action does at the end if the number of actions so far is a    *)
(*          multiple of mod; cp - the position whose value an inherited    *)
(*          attribute passed on as it is takes, also in trials, or NoCopy  *)
(*   def, act, go, err, alts: the automaton (see YaccRunTrace)             *)
(*   goal, final; cap: symbols the stack can hold; des: destructor of each *)
(*          symbol or 0; loc - locations are kept; left - steps granted    *)
(*   pure   yynerrs cannot be seen from outside                            *)
(* inputs: for each call of yyparse() the tokens yylex() returns, then end *)
(* of input for ever.  The value of the k-th token asked for is k; so its  *)
(* location is << 2k, 2k+1 >>.                                             *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

None   == -1         \* no lookahead
Undef  == 10000      \* a token code the grammar does not know
Unk    == -99        \* a value nothing is promised about
NoCopy == 99
MidVal(n) == 1000 + n
LocOf(k) == << 2 * k, IF k = 0 THEN 0 ELSE 2 * k + 1 >>
NoCtx == [ lex |-> -1 ]

Bottom(e) == << [ st |-> 1, sym |-> 0, v |-> Unk, l |-> << Unk, Unk >> ] >>

Fresh(e, m) == [ m EXCEPT !.stk = Bottom(e), !.chr = None, !.val = 0, !.pos = 0, !.ef = 0, !.ne = 0, !.rng = << 0, 0 >>,
                          !.call = @ + 1, !.ph = "loop" ]
Start(e) == Fresh(e, [ stk |-> <<>>, chr |-> None, val |-> 0, rd |-> 0, pos |-> 0, call |-> 0, ef |-> 0, ne |-> 0, ev |-> <<>>, nv |-> 0,
                       ph |-> "loop", left |-> e.left, saves |-> <<>>, path |-> <<>>, q |-> <<>>, qi |-> 0, ectx |-> NoCtx, rng |-> << 0, 0 >> ])

Top(m) == m.stk[Len(m.stk)]
Trial(m) == m.saves # <<>>
Say(m, k, args) == [ m EXCEPT !.ev = Append(@, [ k |-> k, a |-> args ]) ]

---------------------------------------------------------------------------
(* asking for a token; while trying, tokens are kept for later attempts    *)
Fetch(inputs, m) ==
  LET in == inputs[m.call]      \* (a negative token code ends the input)
      t == IF m.pos < Len(in) THEN (IF in[m.pos + 1] < 0 THEN 0 ELSE in[m.pos + 1]) ELSE 0
      k == m.rd + 1
      m1 == [ Say(m, "L", << k >>) EXCEPT !.rd = k, !.pos = @ + 1, !.chr = t, !.val = k ]
  IN IF Trial(m) THEN [ m1 EXCEPT !.q = Append(@, << t, k >>), !.qi = @ + 1 ] ELSE m1
Read(inputs, m) ==
  IF m.qi < Len(m.q)
  THEN [ m EXCEPT !.chr = m.q[m.qi + 1][1], !.val = m.q[m.qi + 1][2], !.qi = @ + 1 ]
  ELSE Fetch(inputs, m)

---------------------------------------------------------------------------
(* the end of a call; with the backtracking skeleton everything still held *)
(* is destroyed                                                            *)
Destroy(e, m, sym, v) ==
  IF e.kind = "n" \/ sym = Undef \/ sym < 0 THEN m
  ELSE IF e.des[sym + 1] = 0 THEN m ELSE Say(m, "D", << e.des[sym + 1], v >>)
RECURSIVE DestroyStack(_, _, _)
DestroyStack(e, m, i) ==
  IF i > Len(m.stk) THEN m ELSE DestroyStack(e, Destroy(e, m, m.stk[i].sym, m.stk[i].v), i + 1)

Finish(e, inputs, m, res) ==
  LET m1 == IF m.chr > 0 THEN Destroy(e, m, m.chr, m.val) ELSE m
      m2 == DestroyStack(e, m1, 2)
      m3 == Say(m2, "Z", << res, IF e.pure THEN Unk ELSE m.ne >>)
  IN IF m.call < Len(inputs) THEN Fresh(e, m3) ELSE [ m3 EXCEPT !.ph = "end" ]

Abort(e, inputs, m) == Finish(e, inputs, m, 1)
Overflow(e, inputs, m) == Finish(e, inputs, Say(m, "E", << 1 >>), IF e.kind = "n" THEN 1 ELSE 2)
Full(e, m) == Len(m.stk) - 1 >= e.cap

Push(m, st, sym, v, l) == [ m EXCEPT !.stk = Append(@, [ st |-> st, sym |-> sym, v |-> v, l |-> l ]) ]

(* a whole parse has succeeded (in a trial: the choices made become the    *)
(* path to follow, and the parse starts again where the trial began)       *)
Valid(e, inputs, m) ==
  IF m.path # <<>> THEN Abort(e, inputs, m)
  ELSE [ m EXCEPT !.path = m.saves, !.saves = <<>>, !.ectx = NoCtx, !.qi = m.saves[1].lex, !.chr = None, !.stk = m.saves[1].stk ]
Accept(e, inputs, m) == IF Trial(m) THEN Valid(e, inputs, m) ELSE Finish(e, inputs, m, 0)

---------------------------------------------------------------------------
ShiftTok(e, inputs, m, st) ==
  IF Full(e, m) THEN Overflow(e, inputs, m)
  ELSE [ Push(m, st, m.chr, m.val, LocOf(m.val)) EXCEPT !.chr = None, !.ef = IF @ > 0 THEN @ - 1 ELSE 0 ]

(* error recovery *)
RECURSIVE PopToError(_, _, _)
PopToError(e, inputs, m) ==
  LET s == Top(m).st IN
  IF e.err[s] # 0
  THEN IF Full(e, m) THEN Overflow(e, inputs, m)
       ELSE Push(m, e.err[s], 1, m.val, << m.rng[1], LocOf(m.val)[2] >>)
  ELSE IF Len(m.stk) = 1 THEN Abort(e, inputs, m)
  ELSE LET m1 == IF Trial(m) THEN m ELSE Destroy(e, m, Top(m).sym, Top(m).v)
       IN PopToError(e, inputs, [ m1 EXCEPT !.rng = Top(m).l, !.stk = SubSeq(@, 1, Len(@) - 1) ])
Recover(e, inputs, m) ==
  IF m.ef < 3 THEN PopToError(e, inputs, [ m EXCEPT !.ef = 3 ])
  ELSE IF m.chr = 0 THEN Abort(e, inputs, m)
  ELSE [ (IF Trial(m) THEN m ELSE Destroy(e, m, m.chr, m.val)) EXCEPT !.chr = None ]
Complain(e, inputs, m) ==
  Recover(e, inputs, [ Say(m, "E", << 0 >>) EXCEPT !.ne = @ + 1, !.rng = LocOf(m.val) ])

---------------------------------------------------------------------------
RECURSIVE Reduce(_, _, _, _), Backtrack(_, _, _, _), Specials(_, _, _, _, _)

(* after the action: replace the right-hand side by the left-hand side     *)
Land(e, inputs, m, r, v, l) ==
  LET x == e.rules[r].lhs
      m1 == [ m EXCEPT !.stk = SubSeq(@, 1, Len(@) - e.rules[r].n) ]
      s == Top(m1).st
  IN IF s = 1 /\ Len(m1.stk) = 1 /\ x = e.goal
     THEN LET m2 == Push(m1, e.final, x, v, l)
              m3 == IF m2.chr = None THEN Read(inputs, m2) ELSE m2
          IN IF m3.chr = 0 THEN Accept(e, inputs, m3) ELSE m3
     ELSE IF Full(e, m1) THEN Overflow(e, inputs, m1)
     ELSE Push(m1, e.go[s][x], x, v, l)

Reduce(e, inputs, m, r) ==
  LET R == e.rules[r]
      base == Len(m.stk) - R.n
      v0 == IF R.n > 0 THEN m.stk[base + 1].v ELSE 0
      loc == IF Trial(m) THEN << 0, 0 >>
             ELSE IF R.n = 0 THEN << m.stk[base].l[2], m.stk[base].l[2] >>
             ELSE << m.stk[base + 1].l[1], m.stk[Len(m.stk)].l[2] >>
      m1 == [ m EXCEPT !.rng = IF Trial(m) THEN @ ELSE IF R.n = 0 THEN << Unk, Unk >> ELSE m.stk[base + 1].l ]
      runs == R.code /\ (R.br \/ ~Trial(m))
      id == MidVal(m.nv + 1)
      val(j) == IF base + j > 1 THEN m.stk[base + j].v ELSE -1      \* (nothing is asked of what is not there)
      lo(j) == IF j = 99 THEN loc ELSE m.stk[base + j].l
      v == IF runs /\ R.set THEN id ELSE v0
      m2 == [ Say(m1, "R", << r - 1, IF R.set THEN id ELSE 0 >> \o [ i \in DOMAIN R.args |-> val(R.args[i]) ]
                           \o (IF e.loc THEN [ i \in 1..(4 * Len(R.locs)) |-> lo(R.locs[(i + 3) \div 4])[IF i % 2 = 1 THEN 1 ELSE 2] ] ELSE <<>>)
                           \o (IF R.rec THEN << IF m.ef > 0 THEN 1 ELSE 0 >> ELSE <<>>))
              EXCEPT !.nv = @ + 1 ]
  IN IF R.cp # NoCopy THEN Land(e, inputs, m1, r, IF base + R.cp > 1 THEN m.stk[base + R.cp].v ELSE Unk, loc)
     ELSE IF ~runs THEN Land(e, inputs, m1, r, IF R.set THEN Unk ELSE v0, loc)      \* (an action not run has not given its value)
     ELSE LET s == Specials(e, inputs, m2, R.sp, 1)
          IN CASE s.do = "go" -> Land(e, inputs, s.m, r, v, loc)
               [] s.do = "err" -> IF e.kind # "B" THEN Recover(e, inputs, [ s.m EXCEPT !.ne = @ + 1 ])
                                  ELSE Backtrack(e, inputs, [ s.m EXCEPT !.stk = SubSeq(@, 1, base) ], FALSE)
               [] s.do = "abort" -> Abort(e, inputs, s.m)
               [] s.do = "accept" -> Accept(e, inputs, s.m)
               [] OTHER -> Valid(e, inputs, s.m)

(* what the action does after printing *)
Specials(e, inputs, m, sp, i) ==
  IF i > Len(sp) THEN [ do |-> "go", m |-> m ]
  ELSE IF m.nv % sp[i].mod # 0 THEN Specials(e, inputs, m, sp, i + 1)
  ELSE CASE sp[i].k = "ok" -> Specials(e, inputs, [ m EXCEPT !.ef = 0 ], sp, i + 1)
         [] sp[i].k = "clear" -> Specials(e, inputs, [ m EXCEPT !.chr = None ], sp, i + 1)
         [] sp[i].k = "valid" -> IF Trial(m) THEN [ do |-> "valid", m |-> m ] ELSE Specials(e, inputs, m, sp, i + 1)
         [] sp[i].k = "nested" -> IF Len(m.saves) = 1 THEN [ do |-> "valid", m |-> m ] ELSE Specials(e, inputs, m, sp, i + 1)
         [] OTHER -> [ do |-> sp[i].k, m |-> m ]

(* an error while trying: the latest choice is changed; when there is none *)
(* left the error is real, and is the one that came furthest.              *)
(* real: something failed by itself (not by YYERROR outside a trial)       *)
Backtrack(e, inputs, m, real) ==
  IF m.saves = <<>> THEN IF real THEN Complain(e, inputs, m) ELSE Recover(e, inputs, m)
  ELSE
    LET ec == IF m.ectx.lex < m.qi THEN [ lex |-> m.qi, stk |-> m.stk ] ELSE m.ectx
        c == m.saves[Len(m.saves)]
        rest == SubSeq(m.saves, 1, Len(m.saves) - 1)
        back == [ m EXCEPT !.ectx = ec, !.qi = c.lex, !.chr = None, !.stk = c.stk ]
        A == e.alts[c.st][c.tok]
    IN IF c.alt < Len(A)
       THEN Reduce(e, inputs, [ back EXCEPT !.saves[Len(m.saves)].alt = c.alt + 1 ], A[c.alt + 1][2])
       ELSE IF rest # <<>> THEN Backtrack(e, inputs, [ back EXCEPT !.saves = rest ], TRUE)
       ELSE IF ec.lex = 0 THEN [ back EXCEPT !.ph = "unspecified" ]      \* an error before any token
       ELSE Backtrack(e, inputs, [ back EXCEPT !.saves = <<>>, !.ectx = NoCtx, !.qi = ec.lex, !.stk = ec.stk,
                                               !.chr = m.q[ec.lex][1], !.val = m.q[ec.lex][2] ], TRUE)

---------------------------------------------------------------------------
(* several actions are possible: follow the path found, or start trying    *)
Choose(e, inputs, m) ==
  LET s == Top(m).st  A == e.alts[s][m.chr] IN
  IF m.path # <<>>
  THEN LET c == m.path[1]  m1 == [ m EXCEPT !.path = Tail(@) ]
       IN IF c.st # s THEN Abort(e, inputs, m1)
          ELSE IF A[c.alt][1] = "s" THEN ShiftTok(e, inputs, m1, A[c.alt][2]) ELSE Reduce(e, inputs, m1, A[c.alt][2])
  ELSE LET m1 == IF m.saves = <<>> /\ m.qi = Len(m.q) THEN [ m EXCEPT !.q = << << m.chr, m.val >> >>, !.qi = 1 ] ELSE m
           m2 == [ m1 EXCEPT !.saves = Append(@, [ st |-> s, stk |-> m.stk, alt |-> 1, lex |-> m1.qi - 1, tok |-> m.chr ]) ]
       IN IF A[1][1] = "s" THEN IF Full(e, m2) THEN Overflow(e, inputs, [ m2 EXCEPT !.chr = None ]) ELSE ShiftTok(e, inputs, m2, A[1][2])
          ELSE Reduce(e, inputs, [ m2 EXCEPT !.qi = @ - 1, !.chr = None ], A[1][2])

Step1(e, inputs, m) ==
  LET s == Top(m).st IN
  IF e.def[s] # 0 THEN Reduce(e, inputs, m, e.def[s])
  ELSE IF m.chr = None THEN Read(inputs, m)
  ELSE IF e.kind = "B" /\ m.chr \in DOMAIN e.alts[s] THEN Choose(e, inputs, m)
  ELSE IF m.chr \in DOMAIN e.act[s]
       THEN LET a == e.act[s][m.chr] IN IF a[1] = "s" THEN ShiftTok(e, inputs, m, a[2]) ELSE Reduce(e, inputs, m, a[2])
  ELSE IF m.ef # 0 THEN Recover(e, inputs, m)
  ELSE IF e.kind = "B" THEN Backtrack(e, inputs, m, TRUE)
  ELSE Complain(e, inputs, m)

Step(e, inputs, m) ==
  IF m.left = 0 THEN [ m EXCEPT !.ph = "unspecified" ]
  ELSE [ Step1(e, inputs, m) EXCEPT !.left = m.left - 1 ]

(* several steps at once while trying (nothing of a trial is seen outside, *)
(* except what is fetched)                                                 *)
RECURSIVE Steps(_, _, _, _)
Steps(e, inputs, m, k) ==
  LET n == TLCEval(Step(e, inputs, m)) IN IF k = 1 \/ ~Trial(n) \/ n.ph # "loop" THEN n ELSE Steps(e, inputs, n, k - 1)

---------------------------------------------------------------------------
(***************************************************************************)
(* What backtracking means, independently of the machine: the first        *)
(* complete success when the alternatives are tried in order.  Result:     *)
(* [k |-> "yes", red |-> the rules reduced], "no", or "?" out of fuel.     *)
(***************************************************************************)
RECURSIVE First(_, _, _, _, _), FirstOf2(_, _, _, _, _, _, _)
TokAt(in, pos) == IF pos <= Len(in) THEN in[pos] ELSE 0
Then(r, res) == IF res.k = "yes" THEN [ res EXCEPT !.red = << r >> \o @ ] ELSE res

FReduce(e, in, st, pos, r, fuel) ==
  LET st1 == SubSeq(st, 1, Len(st) - e.rules[r].n)  x == e.rules[r].lhs IN
  IF Len(st1) = 1 /\ x = e.goal
  THEN IF TokAt(in, pos) = 0 THEN [ k |-> "yes", red |-> << r >>, fuel |-> fuel ]
       ELSE Then(r, First(e, in, Append(st1, e.final), pos, fuel))
  ELSE Then(r, First(e, in, Append(st1, e.go[st1[Len(st1)]][x]), pos, fuel))

FirstOf2(e, in, st, pos, A, i, fuel) ==
  IF i > Len(A) THEN [ k |-> "no", red |-> <<>>, fuel |-> fuel ]
  ELSE LET r == IF A[i][1] = "s" THEN First(e, in, Append(st, A[i][2]), pos + 1, fuel) ELSE FReduce(e, in, st, pos, A[i][2], fuel)
       IN IF r.k # "no" THEN r ELSE FirstOf2(e, in, st, pos, A, i + 1, r.fuel)

First(e, in, st, pos, fuel) ==
  LET s == st[Len(st)]  t == TokAt(in, pos) IN
  IF fuel = 0 \/ Len(st) > 60 THEN [ k |-> "?", red |-> <<>>, fuel |-> 0 ]
  ELSE IF e.def[s] # 0 THEN FReduce(e, in, st, pos, e.def[s], fuel - 1)
  ELSE IF t \in DOMAIN e.alts[s] THEN FirstOf2(e, in, st, pos, e.alts[s][t], 1, fuel - 1)
  ELSE IF t \in DOMAIN e.act[s]
       THEN LET a == e.act[s][t] IN IF a[1] = "s" THEN First(e, in, Append(st, a[2]), pos + 1, fuel - 1) ELSE FReduce(e, in, st, pos, a[2], fuel - 1)
  ELSE [ k |-> "no", red |-> <<>>, fuel |-> fuel - 1 ]
=============================================================================

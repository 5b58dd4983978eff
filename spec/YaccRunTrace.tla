---------------------------- MODULE YaccRunTrace ----------------------------
(***************************************************************************)
(* Conformance of byacc-generated parsers to YaccRun.tla.  A case is a     *)
(* source grammar, how its actions were dressed, input scripts, and for    *)
(* every way the parser was generated and compiled the events observed on  *)
(* every script.  One behaviour per case: construct the automaton, then    *)
(* run the machine step by step on every script and compare.               *)
(***************************************************************************)
EXTENDS ByaccTrace, YaccRun

VARIABLES env,      \* the parser at hand, as far as all builds have it in common
          at,       \* << which build, which script >>
          m,        \* the machine
          seen      \* << what the machine did on each script >>, shared by builds that cannot differ
rvars == << env, at, m, seen >>

Case == Cases[cid]
Scripts == Case.scripts     \* each a sequence of inputs, one per call of yyparse()
Builds == Case.builds       \* sequence of [n, kind, cap, pure, loc, runs]

RInit == Init /\ env = 0 /\ at = << 0, 0 >> /\ m = 0 /\ seen = <<>>

Construct == (ReadSource \/ Discover \/ StartPropagation \/ Propagate \/ Resolve) /\ UNCHANGED rvars

---------------------------------------------------------------------------
(* the destructor of a symbol: its own, its type's, or the default ones    *)
DesOf(name) ==
  LET own == { d \in RangeOf(Case.info.des) : d.n = name }
      M == { r \in g.mids : g.syms[g.rules[r].lhs + 1] = name }
      \* a mid-rule action has the type of its rule's left-hand side
      named == IF M = {} THEN name
               ELSE LET r == CHOOSE x \in M : TRUE  h == MinS({ q \in RuleIds(g) : q > r /\ q \notin g.mids }) IN g.syms[g.rules[h].lhs + 1]
      ty == { t \in RangeOf(Case.info.types) : t.n = named }
      tag == IF ty = {} THEN {} ELSE { d \in RangeOf(Case.info.des) : d.n = (CHOOSE t \in ty : TRUE).t }
      any(x) == { d \in RangeOf(Case.info.des) : d.n = x }
      pick(S) == (CHOOSE d \in S : TRUE).k
  IN IF name \in { "$end", "error", "$accept" } THEN 0
     ELSE IF own # {} THEN pick(own)
     ELSE IF ty # {} THEN IF tag # {} THEN pick(tag) ELSE IF any("<*>") # {} THEN pick(any("<*>")) ELSE 0
     ELSE IF any("<>") # {} THEN pick(any("<>")) ELSE 0

MakeEnv ==
  LET def == TLCEval([ s \in DOMAIN cellsOf |-> DefRed(g, cellsOf[s]) ])
      left(s, t) == { k \in DOMAIN cellsOf[s][t].acts : cellsOf[s][t].sup[k] = 0 /\ cellsOf[s][t].acts[k].k # "acc" }
      act(x) == << x.k, x.n >>
      conf(s, t) == { k \in DOMAIN cellsOf[s][t].acts : cellsOf[s][t].sup[k] = 1 /\ cellsOf[s][t].acts[k].n # def[s] }
  IN [ rules |-> TLCEval([ r \in 1..Len(g.rules) |->
              IF r = 1 THEN [ lhs |-> g.rules[1].lhs, n |-> 1, code |-> FALSE, set |-> FALSE, br |-> FALSE, args |-> <<>>, locs |-> <<>>, rec |-> FALSE, sp |-> <<>>, cp |-> NoCopy ]
              ELSE LET i == Case.info.rules[r - 1] IN
                   [ lhs |-> g.rules[r].lhs, n |-> Len(g.rules[r].rhs), code |-> i.code, set |-> i.set, br |-> i.br,
                     args |-> i.args, locs |-> i.locs, rec |-> i.rec, sp |-> i.sp, cp |-> i.cp ] ]),
       def |-> def,
       act |-> TLCEval([ s \in DOMAIN cellsOf |-> [ t \in { u \in DOMAIN cellsOf[s] : left(s, u) # {} } |-> act(cellsOf[s][t].acts[MinS(left(s, t))]) ] ]),
       go |-> TLCEval([ s \in DOMAIN trans |-> [ x \in { y \in DOMAIN trans[s] : y >= g.nT } |-> trans[s][x] ] ]),
       err |-> TLCEval([ s \in DOMAIN cellsOf |-> IF ErrorSym \notin DOMAIN cellsOf[s] THEN 0
                           ELSE LET L == { k \in left(s, ErrorSym) : cellsOf[s][ErrorSym].acts[k].k = "s" }
                                IN IF L = {} THEN 0 ELSE cellsOf[s][ErrorSym].acts[MinS(L)].n ]),
       alts |-> TLCEval([ s \in DOMAIN cellsOf |->
                  IF ~g.fB \/ def[s] # 0 THEN << >>
                  ELSE [ t \in { u \in DOMAIN cellsOf[s] : conf(s, u) # {} } |->
                           LET L == SortedSeq(conf(s, t)) IN [ j \in DOMAIN L |-> act(cellsOf[s][t].acts[L[j]]) ] ] ]),
       goal |-> g.rules[1].rhs[1], final |-> FinalState,
       des |-> TLCEval([ x \in 1..g.nS |-> DesOf(g.syms[x]) ]),
       left |-> Case.left,
       kind |-> "n", cap |-> 0, pure |-> FALSE, loc |-> FALSE ]

Prepare ==
  /\ phase = "compare"
  /\ phase' = "pick"
  /\ env' = TLCEval(MakeEnv)
  /\ fails' = Fail(Len(Case.toks) = g.nT /\ Case.toks = SubSeq(g.syms, 1, g.nT), "case-tokens") \cup
              Fail(Len(Case.info.rules) = Len(g.rules) - 1, "case-rules")
  /\ at' = << 1, 0 >>
  /\ kernels' = <<>> /\ trans' = <<>> /\ la' = <<>> /\ cellsOf' = <<>> /\ a' = 0
  /\ UNCHANGED << cid, src, g, kgoto, m, seen >>

EnvOf(b) == [ env EXCEPT !.kind = Builds[b].kind, !.cap = Builds[b].cap, !.pure = Builds[b].pure, !.loc = Builds[b].loc ]
Env == EnvOf(at[1])
(* two builds the machine cannot tell apart *)
Same(b, c) == Builds[b].kind = Builds[c].kind /\ Builds[b].cap = Builds[c].cap /\ Builds[b].pure = Builds[c].pure /\ Builds[b].loc = Builds[c].loc
SameAs(b) == LET S == { c \in 1..(b - 1) : Same(b, c) } IN IF S = {} THEN 0 ELSE MinS(S)

NextRun ==
  /\ phase = "pick"
  /\ IF at[2] < Len(Scripts)
     THEN /\ at' = << at[1], at[2] + 1 >>
          /\ m' = IF SameAs(at[1]) # 0 THEN seen[SameAs(at[1])][at[2] + 1] ELSE TLCEval(Start(Env))
          /\ phase' = "run"
     ELSE IF at[1] < Len(Builds) THEN at' = << at[1] + 1, 0 >> /\ UNCHANGED << m, phase >>
     ELSE phase' = "finish" /\ UNCHANGED << at, m >>
  /\ seen' = IF at[2] = 0 /\ Len(seen) < at[1] THEN Append(seen, <<>>) ELSE seen
  /\ UNCHANGED << cid, src, g, a, kernels, kgoto, trans, la, cellsOf, fails, env >>

RunStep ==
  /\ phase = "run" /\ m.ph = "loop"
  /\ m' = TLCEval(Steps(Env, Scripts[at[2]], m, 30))
  /\ UNCHANGED << cid, src, phase, g, a, kernels, kgoto, trans, la, cellsOf, fails, env, at, seen >>

---------------------------------------------------------------------------
Sel(ev, S) == SelectSeq(ev, LAMBDA x : x.k \in S)
SameArgs(o, w) == Len(o) = Len(w) /\ \A i \in DOMAIN w : w[i] = Unk \/ o[i] = w[i]
SameEvs(o, w) == Len(o) = Len(w) /\ \A i \in DOMAIN w : o[i].k = w[i].k /\ SameArgs(o[i].a, w[i].a)

CompareRun(o, w) ==
  IF o.bad # "" THEN { "run-crash" }
  ELSE Fail(SameEvs(Sel(o.ev, {"R"}), Sel(w, {"R"})), "run-actions") \cup
       Fail(SameEvs(Sel(o.ev, {"L"}), Sel(w, {"L"})), "run-lexer") \cup
       Fail(SameEvs(Sel(o.ev, {"L","E"}), Sel(w, {"L","E"})), "run-errors") \cup
       Fail(SameEvs(Sel(o.ev, {"L","Z"}), Sel(w, {"L","Z"})), "run-outcome") \cup
       Fail(SameEvs(Sel(o.ev, {"D","Z"}), Sel(w, {"D","Z"})), "run-destructors") \cup
       Fail(SameEvs(Sel(o.ev, {"L","E","R","Z"}), Sel(w, {"L","E","R","Z"})), "run-order") \cup
       Fail(SameEvs(o.ev, w), "run-events")

\* backtracking: the observed outcome against the independent definition of
\* the first success (only for a plain parse: one call, no recovery, no specials)
FirstApplies == /\ Builds[at[1]].kind = "B" /\ Len(Scripts[at[2]]) = 1
                /\ \A r \in DOMAIN env.rules : env.rules[r].sp = <<>>
                /\ \A s \in DOMAIN env.err : env.err[s] = 0
                /\ Len(Scripts[at[2]][1]) <= 14
CompareFirst(o) ==
  LET f == First(Env, Scripts[at[2]][1], << 1 >>, 1, 900)
      Z == Sel(o.ev, {"Z"})
      coded == SelectSeq(f.red, LAMBDA r : env.rules[r].code /\ ~env.rules[r].br)
      R == SelectSeq(Sel(o.ev, {"R"}), LAMBDA x : ~env.rules[x.a[1] + 1].br)
  IN IF o.bad # "" \/ f.k = "?" \/ (\E i \in DOMAIN o.ev : o.ev[i].k = "E" /\ o.ev[i].a[1] = 1) THEN {}
     ELSE IF f.k = "yes" THEN Fail(Len(Z) = 1 /\ Z[1].a[1] = 0 /\ Sel(o.ev, {"E"}) = <<>> /\ [ i \in DOMAIN R |-> R[i].a[1] + 1 ] = coded, "bt-first")
     ELSE Fail(Len(Z) = 1 /\ Z[1].a[1] # 0 /\ Sel(o.ev, {"E"}) # <<>>, "bt-none")

EndRun ==
  /\ phase = "run" /\ m.ph # "loop"
  /\ fails' = fails \cup TLCEval((IF m.ph = "unspecified" THEN {} ELSE CompareRun(Builds[at[1]].runs[at[2]], m.ev)) \cup
                                 (IF FirstApplies THEN CompareFirst(Builds[at[1]].runs[at[2]]) ELSE {}))
  /\ seen' = [ seen EXCEPT ![at[1]] = Append(@, m) ]
  /\ IF fails' = fails THEN TRUE     \* what the specification expected where a rejection is new
     ELSE PrintT(ToJson([ note |-> Case.id, build |-> Builds[at[1]].n, script |-> Scripts[at[2]], new |-> fails' \ fails,
                          ev |-> [ i \in DOMAIN m.ev |-> << m.ev[i].k >> \o m.ev[i].a ],
                          seen |-> LET o == Builds[at[1]].runs[at[2]] IN
                                   [ bad |-> o.bad, ev |-> [ i \in DOMAIN o.ev |-> << o.ev[i].k >> \o o.ev[i].a ] ] ]))
  /\ m' = 0 /\ phase' = "pick"
  /\ UNCHANGED << cid, src, g, a, kernels, kgoto, trans, la, cellsOf, env, at >>

Compared == { << b, i >> \in { << x, y >> : x \in DOMAIN seen, y \in 1..Len(Scripts) } : i <= Len(seen[b]) /\ seen[b][i].ph = "end" }
Finish_ ==
  /\ phase = "finish" /\ phase' = "done"
  /\ PrintT(ToJson([ verdict |-> Case.id, fails |-> fails, runs |-> Cardinality(Compared), of |-> Len(Scripts) * Len(Builds),
                     conflicts |-> 0 ]))
  /\ UNCHANGED << cid, src, g, a, kernels, kgoto, trans, la, cellsOf, fails, env, at, m, seen >>

RNext == Construct \/ Prepare \/ NextRun \/ RunStep \/ EndRun \/ Finish_
RSpec == RInit /\ [][RNext]_<< vars, rvars >>

---------------------------------------------------------------------------
\* holds of the specification itself on every machine state reached: what a
\* trial keeps is consistent, the stack is a path of the automaton, an error
\* is reported before any recovery
Sane == (phase = "run" /\ m.ph = "loop") =>
  /\ m.ef \in 0..3 /\ m.qi <= Len(m.q)
  /\ (Trial(m) => Env.kind = "B" /\ m.path = <<>>)
  /\ Len(m.stk) >= 1 /\ m.stk[1].st = 1
  /\ \A i \in 2..Len(m.stk) :
        LET p == m.stk[i-1].st  x == m.stk[i].sym
        IN \/ x \in DOMAIN env.go[p] /\ env.go[p][x] = m.stk[i].st
           \/ x = ErrorSym /\ env.err[p] = m.stk[i].st
           \/ x < g.nT       \* a shift: the target is the state after it
Brief == IF phase = "run" THEN [ id |-> Case.id, at |-> at, script |-> Scripts[at[2]], m |-> m ] ELSE [ phase |-> phase, id |-> Case.id ]
=============================================================================

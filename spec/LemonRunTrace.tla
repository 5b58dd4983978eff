--------------------------- MODULE LemonRunTrace ---------------------------
(***************************************************************************)
(* Conformance of lemon-generated parsers to LemonRun.tla.  A case is a    *)
(* source grammar, what lemon made of it under some option sets (each with *)
(* its packed tables), and for every option set the events of the compiled *)
(* parser on every input script.  One behaviour per case: construct the    *)
(* automaton, check the tables, then run the machine step by step on every *)
(* script: first on the automaton itself, then on the tables of every      *)
(* option set, comparing with what was observed.                           *)
(***************************************************************************)
EXTENDS LemonTrace, LemonRun

VARIABLES env,      \* env[1]: the automaton; env[b+1]: the b-th option set
          at,       \* << which env, which script >>
          m,        \* the machine
          ref       \* what the automaton did on each script
rvars == << env, at, m, ref >>

Case == Cases[cid]
Scripts == Case.scripts
Builds == Case.builds        \* sequence of [n, tb, depth, norec, runs]

RInit == Init /\ env = <<>> /\ at = << 0, 0 >> /\ m = 0 /\ ref = <<>>

Construct == (ReadSource \/ Discover \/ StartPropagation \/ Propagate \/ Resolve) /\ UNCHANGED rvars

RInfo == Case.info      \* per source rule [ll, lab]; des: destructor of each symbol

Rules == [ r \in RuleIds(g) |-> [ lhs |-> g.rules[r].lhs, rhs |-> g.rules[r].rhs, code |-> Src.rules[r].code,
                                  ll |-> RInfo.rules[r].ll, lab |-> RInfo.rules[r].lab ] ]
ErrSym == IF "error" \in DOMAIN g.num THEN g.num["error"] ELSE -1
Common ==
  LET ir == TLCEval(IRule) IN
  [ rules |-> TLCEval(Rules), rid |-> TLCEval([ i \in 1..Len(g.rules) |-> CHOOSE r \in RuleIds(g) : ir[r] = i - 1 ]),
    nT |-> g.nT, start |-> g.start, err |-> ErrSym,
    wild |-> IF Src.wildcard = "" THEN -1 ELSE g.num[Src.wildcard],
    fb |-> TLCEval([ t \in 1..g.nT |-> LET F == { f \in RangeOf(Src.fallback) : g.num[f[1]] = t - 1 }
                               IN IF F = {} THEN 0 ELSE g.num[(CHOOSE f \in F : TRUE)[2]] ]),
    des |-> TLCEval([ x \in 1..g.nNT |-> IF x = 1 THEN 0 ELSE LET own == { p \in RangeOf(RInfo.des) : p.n = g.syms[x] } IN
                                 IF own # {} THEN (CHOOSE p \in own : TRUE).k
                                 ELSE IF x - 1 < g.nT THEN RInfo.tokdes
                                 ELSE IF g.syms[x] = "error" THEN 0 ELSE RInfo.defdes ]) ]

RefEnv(c) ==
  LET dec == TLCEval(Decisions) IN
  [ mode |-> "ref", rules |-> c.rules, rid |-> [ i \in DOMAIN c.rid |-> i ], nT |-> c.nT, start |-> c.start, err |-> c.err, wild |-> c.wild,
    fb |-> c.fb, des |-> c.des, depth |-> 150, norec |-> FALSE, stop |-> TRUE,
    act |-> TLCEval([ s \in DOMAIN kernels |-> [ t \in DOMAIN dec[s] |->
              CASE dec[s][t][1] = "s" -> << "s", CHOOSE q \in dec[s][t][2] : TRUE >>
                [] dec[s][t][1] = "r" -> << "r", dec[s][t][2] - 1 >>
                [] OTHER -> << "e", 0 >> ] ]),
    go |-> TLCEval([ s \in DOMAIN kernels |-> [ x \in { y \in DOMAIN trans[s] : y >= g.nT /\ y < g.nNT } |-> trans[s][x] ] ]),
    tb |-> 0 ]
TabEnv(c, b) ==
  [ mode |-> "tab", rules |-> c.rules, rid |-> c.rid, nT |-> c.nT, start |-> c.start, err |-> c.err, wild |-> c.wild,
    fb |-> c.fb, des |-> c.des, depth |-> b.depth, norec |-> b.norec, stop |-> FALSE, act |-> 0, go |-> 0, tb |-> 0 ]
Ambiguous == \E s \in DOMAIN cellsOf : \E t \in DOMAIN cellsOf[s] : Cardinality(cellsOf[s][t].sh) > 1

TableFails ==
  LET texts == TLCEval([ r \in RuleIds(g) |-> RuleText(r) ])
      ir == TLCEval(IRule)
      dec == TLCEval(Decisions)
      auto == TLCEval([ s \in DOMAIN kernels |-> IF WildShift(s, dec) THEN 0 ELSE Auto(s, dec) ])
  IN UNION { CheckTable(texts, ir, dec, auto, [ tb |-> b.tb, states |-> b.states, exact |-> b.exact ]) : b \in RangeOf(Builds) }

Envs == LET c == TLCEval(Common) IN << RefEnv(c) >> \o [ i \in DOMAIN Builds |-> TabEnv(c, Builds[i]) ]

Prepare ==
  /\ phase = "compare"
  /\ phase' = "pick"
  /\ fails' = TLCEval(TableFails)
  /\ env' = TLCEval(Envs)
  /\ at' = IF Ambiguous THEN << 2, 0 >> ELSE << 1, 0 >>
  /\ kernels' = <<>> /\ trans' = <<>> /\ la' = <<>> /\ cellsOf' = <<>> /\ a' = 0
  /\ UNCHANGED << cid, src, g, kgoto, m, ref >>

Env == IF at[1] = 1 THEN env[1] ELSE [ env[at[1]] EXCEPT !.tb = Builds[at[1] - 1].tb ]

NextRun ==
  /\ phase = "pick"
  /\ IF at[2] < Len(Scripts) THEN at' = << at[1], at[2] + 1 >> /\ m' = Start(Env) /\ phase' = "run"
     ELSE IF at[1] <= Len(Builds) THEN at' = << at[1] + 1, 0 >> /\ UNCHANGED << m, phase >>
     ELSE phase' = "finish" /\ UNCHANGED << at, m >>
  /\ UNCHANGED << cid, src, g, a, kernels, kgoto, trans, la, cellsOf, fails, env, ref >>

RunStep ==
  /\ phase = "run" /\ m.ph # "end"
  /\ m' = TLCEval(Step(Env, Scripts[at[2]], m))
  /\ UNCHANGED << cid, src, phase, g, a, kernels, kgoto, trans, la, cellsOf, fails, env, at, ref >>

---------------------------------------------------------------------------
Sel(ev, S) == SelectSeq(ev, LAMBDA x : x.k \in S)
Prefix(p, q) == Len(p) <= Len(q) /\ SubSeq(q, 1, Len(p)) = p
FirstErr(ev) == LET E == { i \in DOMAIN ev : ev[i].k \in { "E", "O", "bad" } } IN IF E = {} THEN Len(ev) + 1 ELSE MinS(E)

\* the events of one observed run against those of the table machine
CompareRun(o, n) ==
  Fail(o.bad = "", "run-crash") \cup
  Fail(o.bad # "" \/ Sel(o.ev, {"T","R"}) = Sel(n.ev, {"T","R"}), "run-actions") \cup
  Fail(o.bad # "" \/ Sel(o.ev, {"T","E"}) = Sel(n.ev, {"T","E"}), "run-errors") \cup
  Fail(o.bad # "" \/ Sel(o.ev, {"T","A","F","O","Z"}) = Sel(n.ev, {"T","A","F","O","Z"}), "run-outcome") \cup
  Fail(o.bad # "" \/ o.ev = n.ev, "run-order") \cup
  Fail(o.bad # "" \/ /\ Len(o.ds) = Len(n.ds)
                     /\ \A i \in DOMAIN o.ds : /\ RangeOf(o.ds[i]) = { << p[1], p[2] >> : p \in n.ds[i] }
                                               /\ Len(o.ds[i]) = Cardinality(n.ds[i]), "run-destructors")

\* the automaton against the observed run: the same up to the first error;
\* a table may only reduce more before noticing the error
CompareRef(o, r) ==
  LET i == FirstErr(r) j == FirstErr(o.ev)
      rr == SubSeq(r, 1, i - 1)  oo == SubSeq(o.ev, 1, j - 1)
  IN IF o.bad # "" \/ (j <= Len(o.ev) /\ o.ev[j].k = "O") \/ (i <= Len(r) /\ r[i].k = "O") THEN {}
     ELSE IF i > Len(r) THEN Fail(rr = oo, "lang")
     ELSE Fail(j <= Len(o.ev) /\ Sel(rr, {"T"}) = Sel(oo, {"T"}) /\ Prefix(rr, oo), "lang")

EndRun ==
  /\ phase = "run" /\ m.ph = "end"
  /\ IF at[1] = 1 THEN ref' = Append(ref, m.ev) /\ UNCHANGED fails
     ELSE /\ fails' = fails \cup TLCEval(CompareRun(Builds[at[1] - 1].runs[at[2]], m)) \cup
                      (IF ref = <<>> THEN {} ELSE TLCEval(CompareRef(Builds[at[1] - 1].runs[at[2]], ref[at[2]])))
          /\ UNCHANGED ref
  /\ IF fails' = fails THEN TRUE     \* what the specification expected where a rejection is new
     ELSE PrintT(ToJson([ note |-> Case.id, build |-> Builds[at[1] - 1].n, script |-> Scripts[at[2]], new |-> fails' \ fails,
                          ev |-> [ i \in DOMAIN m.ev |-> << m.ev[i].k >> \o m.ev[i].a ], ds |-> m.ds,
                          ref |-> IF ref = <<>> THEN <<>> ELSE [ i \in DOMAIN ref[at[2]] |-> << ref[at[2]][i].k >> \o ref[at[2]][i].a ],
                          seen |-> LET o == Builds[at[1] - 1].runs[at[2]] IN
                                   [ ev |-> [ i \in DOMAIN o.ev |-> << o.ev[i].k >> \o o.ev[i].a ], ds |-> o.ds ] ]))
  /\ m' = 0 /\ phase' = "pick"
  /\ UNCHANGED << cid, src, g, a, kernels, kgoto, trans, la, cellsOf, env, at >>

Finish ==
  /\ phase = "finish" /\ phase' = "done"
  /\ PrintT(ToJson([ verdict |-> Case.id, fails |-> fails, runs |-> Len(Scripts) * Len(Builds) ]))
  /\ UNCHANGED << cid, src, g, a, kernels, kgoto, trans, la, cellsOf, fails, env, at, m, ref >>

RNext == Construct \/ Prepare \/ NextRun \/ RunStep \/ EndRun \/ Finish
RSpec == RInit /\ [][RNext]_<< vars, rvars >>

\* holds of the specification itself, on every machine state reached
Conservation == (phase = "run" /\ at[1] > 1 /\ m.ph = "end") => Accounted(Env, Scripts[at[2]], m)
Brief == IF phase = "run" THEN [ id |-> Case.id, at |-> at, script |-> Scripts[at[2]], m |-> m ] ELSE [ phase |-> phase, id |-> Case.id ]
=============================================================================

----------------------------- MODULE ByaccTrace -----------------------------
(***************************************************************************)
(* Conformance of byacc to Byacc.tla.  Every case is one run of the real   *)
(* byacc on a generated grammar: the source grammar and what was observed  *)
(* (the state machine in the report, the packed tables in the generated    *)
(* parser, the messages and the exit status).  One behaviour per case:     *)
(* construct the automaton, then compare.                                  *)
(***************************************************************************)
EXTENDS Byacc, ByaccTables, Json, IOUtils

Cases == ndJsonDeserialize(IOEnv.CASES)

VARIABLES cid, src, phase, g, a, kernels, kgoto, trans, la, cellsOf, fails
vars == << cid, src, phase, g, a, kernels, kgoto, trans, la, cellsOf, fails >>

Obs == Cases[cid].obs
Src == src

Init ==
  /\ cid \in DOMAIN Cases
  /\ src = Cases[cid].src
  /\ phase = "source"
  /\ g = 0 /\ a = 0 /\ kernels = <<>> /\ kgoto = <<>> /\ trans = <<>> /\ la = <<>> /\ cellsOf = <<>>
  /\ fails = {}

ReadSource ==
  /\ phase = "source"
  /\ g' = TLCEval(Elaborate(Src))
  /\ a' = TLCEval(Analyse(g'))
  /\ kernels' = << { 0 } >>
  /\ phase' = "lr0"
  /\ UNCHANGED << cid, src, kgoto, trans, la, cellsOf, fails >>

Discover ==
  /\ phase = "lr0"
  /\ Len(kgoto) < Len(kernels)
  /\ kgoto' = kgoto \o ExpandGotos(g, a, kernels, Len(kgoto) + 1)
  /\ kernels' = kernels \o NewKernels(kernels, SubSeq(kgoto', Len(kgoto) + 1, Len(kernels)))
  /\ UNCHANGED << cid, src, phase, g, a, trans, la, cellsOf, fails >>

StartPropagation ==
  /\ phase = "lr0"
  /\ Len(kgoto) = Len(kernels)
  /\ trans' = TLCEval(Number(kernels, kgoto))
  /\ la' = TLCEval(InitLA(g, a, kernels, 1, {0}))
  /\ phase' = "la"
  /\ kgoto' = <<>>
  /\ UNCHANGED << cid, src, g, a, kernels, cellsOf, fails >>

Propagate ==
  /\ phase = "la"
  /\ la' = TLCEval(Sweep(g, a, trans, la))
  /\ phase' = IF la' = la THEN "resolve" ELSE "la"
  /\ UNCHANGED << cid, src, g, a, kernels, kgoto, trans, cellsOf, fails >>

---------------------------------------------------------------------------
(* comparison *)
FinalState == trans[1][g.rules[1].rhs[1]]
AllCells == [ s \in DOMAIN kernels |->
               LET red == TLCEval(Reductions(g, a, la[s]))
               IN CellsOf(g, trans[s], [ r \in DOMAIN red \ {1} |-> red[r] ], s = FinalState) ]

\* the impl's view of rules: names
ObsRulesOK ==
  /\ Len(Obs.rules) = Len(g.rules)
  /\ \A r \in 2..Len(g.rules) :
       Obs.rules[r] = << g.syms[g.rules[r].lhs + 1] >> \o
                      [ j \in DOMAIN g.rules[r].rhs |-> g.syms[g.rules[r].rhs[j] + 1] ]
  /\ Obs.rules[1] = << "$accept", g.syms[g.rules[1].rhs[1] + 1], "$end" >>

ObsKernel(st) == { it[1] * a.K + it[2] : it \in RangeOf(st.items) }

Fail(c, tag) == IF c THEN {} ELSE { tag }

\* n |-> spec state number of impl state n (1-based both)
MapStates == [ i \in DOMAIN Obs.states |->
                LET k == TLCEval(ObsKernel(Obs.states[i]))
                    S == { s \in DOMAIN kernels : kernels[s] = k }
                IN IF S = {} THEN 0 ELSE CHOOSE s \in S : TRUE ]

CheckState(pi, i, cells, def) ==
  LET st == TLCEval(Obs.states[i])
      s  == pi[i]
      tgt(n) == IF n + 1 \in DOMAIN pi THEN pi[n+1] ELSE 0
      \* expected visible actions
      live == UNION { { << t, k >> : k \in { x \in DOMAIN cells[t].acts : cells[t].sup[x] = 0 } } : t \in DOMAIN cells }
      act(p) == cells[p[1]].acts[p[2]]
      eShift == { << g.syms[p[1]+1], act(p).n >> : p \in { q \in live : act(q).k = "s" } }
      eRed   == { << g.syms[p[1]+1], act(p).n - 1 >> : p \in { q \in live : act(q).k = "r" /\ act(q).n # def } }
      oShift == { << x[1], tgt(x[3]) >> : x \in { y \in RangeOf(st.acts) : y[2] = "s" } }
      oRed   == { << x[1], x[3] >> : x \in { y \in RangeOf(st.acts) : y[2] = "r" } }
      trial == UNION { { << t, k >> : k \in { x \in DOMAIN cells[t].acts : cells[t].sup[x] = 1 } } : t \in DOMAIN cells }
      eTS == IF g.fB THEN { << g.syms[p[1]+1], act(p).n >> : p \in { q \in trial : act(q).k = "s" } } ELSE {}
      eTR == IF g.fB THEN { << g.syms[p[1]+1], act(p).n - 1 >> : p \in { q \in trial : act(q).k = "r" /\ act(q).n # def } } ELSE {}
      oTS == { << x[1], tgt(x[3]) >> : x \in { y \in RangeOf(st.acts) : y[2] = "ts" } }
      oTR == { << x[1], x[3] >> : x \in { y \in RangeOf(st.acts) : y[2] = "tr" } }
      eGoto == { << g.syms[x+1], trans[s][x] >> : x \in { y \in DOMAIN trans[s] : y >= g.nT } }
      oGoto == { << x[1], tgt(x[2]) >> : x \in RangeOf(st.gotos) }
      multi == { t \in DOMAIN cells : Len(cells[t].acts) > 1 }
      single(S) == { x \in S : g.num[x[1]] \notin multi }
      \* conflict lines: kind, first, second, token
      pref(t) == LET L == { k \in DOMAIN cells[t].acts : cells[t].sup[k] # 2 } IN MinS(L)
      eConf == UNION { { LET f == cells[t].acts[pref(t)]
                         IN << IF f.k = "r" THEN "rr" ELSE "sr",
                               IF f.k = "r" THEN f.n - 1 ELSE IF f.k = "acc" THEN -1 ELSE f.n,
                               cells[t].acts[k].n - 1, g.syms[t+1] >>
                         : k \in { x \in DOMAIN cells[t].acts : cells[t].sup[x] = 1 /\ cells[t].acts[x].k = "r"
                                                               /\ x # pref(t) } }
                       : t \in { u \in DOMAIN cells : cells[u].sr + cells[u].rr > 0 } }
      oConf == { << x[1], IF x[1] = "sr" /\ x[2] >= 0 THEN tgt(x[2]) ELSE x[2], x[3], x[4] >> : x \in RangeOf(st.confs) }
      eNull == { r - 1 : r \in { q \in RuleIds(g) : Len(g.rules[q].rhs) = 0 /\
                   \E t \in DOMAIN cells : \E k \in DOMAIN cells[t].acts :
                       cells[t].acts[k].k = "r" /\ cells[t].acts[k].n = q /\ cells[t].sup[k] < 2 } }
  IN Fail(single(oShift) = single(eShift), "shift") \cup
     Fail(single(oRed) = single(eRed), "reduce") \cup
     Fail(oShift = eShift, "resolve-shift") \cup
     Fail(oRed = eRed, "resolve-reduce") \cup
     Fail(oTS = eTS /\ oTR = eTR, "trial") \cup
     Fail(oGoto = eGoto, "goto") \cup
     Fail(st.acc = (s = FinalState), "accept") \cup
     Fail(st.def = (IF def = 0 THEN -1 ELSE def - 1), "default") \cup
     Fail("strict" \notin DOMAIN Cases[cid] \/ st.def < 0 \/ ~Emptied(g, cells), "nonassoc-default") \cup
     Fail(st.sr = StateSR(cells) /\ st.rr = StateRR(cells), "state-conflicts") \cup
     Fail(oConf = eConf /\ Len(st.confs) = Cardinality(eConf), "conflict-lines") \cup
     Fail(RangeOf(st.nulls) = eNull, "nulls")

\* the packed tables decode to the same decisions as the specification's
CheckTables(pi, i, cells, def) ==
  LET tb == Obs.tab
      s  == pi[i]
      tgt(n) == IF n + 1 \in DOMAIN pi THEN pi[n+1] ELSE 0
      tokOf == Obs.tokval   \* name -> value
      want(t) == IF def # 0 THEN << "r", def - 1 >>
                 ELSE IF t \notin DOMAIN cells THEN << "e", 0 >>
                 ELSE LET L == { k \in DOMAIN cells[t].acts : cells[t].sup[k] = 0 /\ cells[t].acts[k].k # "acc" }
                      IN IF L = {} THEN << "e", 0 >>
                         ELSE LET x == cells[t].acts[MinS(L)]
                              IN IF x.k = "s" THEN << "s", x.n >> ELSE << "r", x.n - 1 >>
      got(t) == LET r == Look(tb, i - 1, tokOf[g.syms[t+1]])
                IN IF r[1] = "s" THEN << "s", tgt(r[2]) >> ELSE r
      conf(t) == IF t \notin DOMAIN cells THEN <<>>
                 ELSE LET C == { k \in DOMAIN cells[t].acts : cells[t].sup[k] = 1 /\ cells[t].acts[k].n # def }
                      IN [ j \in 1..Cardinality(C) |->
                             LET k == CHOOSE x \in C : Cardinality({ y \in C : y < x }) = j - 1
                                 x == cells[t].acts[k]
                             IN IF x.k = "s" THEN << "s", x.n >> ELSE << "r", x.n - 1 >> ]
      \* a conflict cell lists the shift (if any), then -1 is skipped, then reductions
      gotConf(t) ==
        LET v == tokOf[g.syms[t+1]]
        IN IF ~HasConflict(tb, i - 1, v) THEN <<>>
           ELSE LET c == tb.table[tb.cindex[i] + v + 1]
                    hasShift == tb.ctable[c+1] # -1
                    l == CList(tb, IF hasShift THEN c ELSE c + 1)
                IN [ j \in DOMAIN l |-> IF hasShift /\ j = 1 THEN << "s", tgt(l[j]) >> ELSE << "r", l[j] >> ]
  IN Fail(\A t \in 0..(g.nT-1) : got(t) = want(t), "table-action") \cup
     Fail(\A x \in { y \in DOMAIN trans[s] : y >= g.nT } :
             \E r \in RuleIds(g) : g.rules[r].lhs = x /\ r > 1 /\
                tgt(LookGoto(tb, i - 1, tb.lhs[r])) = trans[s][x], "table-goto") \cup
     \* a state with a default reduction never consults its conflict row
     (IF g.fB /\ def = 0 THEN Fail(\A t \in 0..(g.nT-1) : gotConf(t) = conf(t), "table-conflict") ELSE {})

Totals(allcells) ==
  LET sr == SumSet([ s \in DOMAIN allcells |-> StateSR(allcells[s]) ], DOMAIN allcells)
      rr == SumSet([ s \in DOMAIN allcells |-> StateRR(allcells[s]) ], DOMAIN allcells)
      un == { r - 1 : r \in Unused(g, allcells) }
      m == Obs.msg
  IN Fail(m.sr = sr /\ m.rr = rr, "totals") \cup
     Fail(RangeOf(Obs.unused) = un /\ m.unused = Cardinality(un), "unused") \cup
     Fail(Obs.exit = ExitCode(Src, sr, rr), "exit") \cup
     Fail(m.expsr = (sr + rr > 0 /\ Src.sr >= 0 /\ sr # Src.sr) /\
          m.exprr = (sr + rr > 0 /\ Src.rr >= 0 /\ rr # Src.rr), "expect-message") \cup
     Fail(m.stats = <<>> \/ m.stats = << sr + rr, g.nT, g.nS - g.nT, g.nS, Len(g.rules) + 2, Len(kernels) >>, "stats") \cup
     Fail((m.stats = <<>>) = (sr + rr = 0), "stats-shown") \cup
     Fail(Obs.totals = << g.nT, g.nS - g.nT, Len(g.rules), Len(kernels) >>, "report-totals")

Verdict(allcells, defs) ==
  LET pi == TLCEval(MapStates)
      basic == Fail(ObsRulesOK, "rules")
      bij == Fail(/\ Len(Obs.states) = Len(kernels)
                  /\ RangeOf(pi) = DOMAIN kernels, "states")
  IN IF basic \cup bij # {} THEN basic \cup bij
     ELSE Totals(allcells) \cup
          UNION { CheckState(pi, i, allcells[pi[i]], defs[pi[i]]) : i \in DOMAIN pi } \cup
          (IF Obs.tab.final < 0 THEN {} ELSE
             Fail(pi[Obs.tab.final + 1] = FinalState, "table-final") \cup
             Fail(\A r \in 2..Len(g.rules) : Obs.tab.len[r] = Len(g.rules[r].rhs), "table-len") \cup
             Fail(\A r, q \in 2..Len(g.rules) :
                    (Obs.tab.lhs[r] = Obs.tab.lhs[q]) = (g.rules[r].lhs = g.rules[q].lhs), "table-lhs") \cup
             UNION { CheckTables(pi, i, allcells[pi[i]], defs[pi[i]]) : i \in DOMAIN pi })

Resolve ==
  /\ phase = "resolve"
  /\ cellsOf' = TLCEval(AllCells)
  /\ phase' = "compare"
  /\ UNCHANGED << cid, src, g, a, kernels, kgoto, trans, la, fails >>

Compare ==
  /\ phase = "compare"
  /\ phase' = "done"
  /\ fails' = TLCEval(Verdict(cellsOf, TLCEval([ s \in DOMAIN cellsOf |-> DefRed(g, cellsOf[s]) ])))
  /\ PrintT(ToJson([ verdict |-> Cases[cid].id, fails |-> fails', states |-> Len(kernels),
             conflicts |-> SumSet([ s \in DOMAIN cellsOf |-> StateSR(cellsOf[s]) + StateRR(cellsOf[s]) ], DOMAIN cellsOf) ]))
  /\ UNCHANGED << cid, src, g, a, kernels, kgoto, trans, la, cellsOf >>

Next == ReadSource \/ Discover \/ StartPropagation \/ Propagate \/ Resolve \/ Compare
Spec == Init /\ [][Next]_vars

Conforms == fails = {}
=============================================================================

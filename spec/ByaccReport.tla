----------------------------- MODULE ByaccReport -----------------------------
(***************************************************************************)
(* What byacc tells about the parser it generated: the verbose report, the *)
(* graph, the token header and the debugging tables, judged against the    *)
(* generated tables themselves and against the automaton constructed from  *)
(* the grammar (the construction is ByaccTrace's).                         *)
(* Additional observations (Obs.x):                                        *)
(*   graph   [nodes : Seq [n, items : Seq [lhs, rhs, dot, has, la]],       *)
(*            edges : Seq <<from, to, label>>]                             *)
(*   heads   Seq [file, defs : Seq <<name, value>>]  files with #defines   *)
(*   names   [len, str : Seq <<index, name>>], rnames the same for rules   *)
(*           (each rule split into <<lhs>> \o rhs)                         *)
(*   maxtok, undf;  cid: symbol -> the identifier the header defines for   *)
(*   it (those that are not identifiers are left out)                      *)
(***************************************************************************)
EXTENDS ByaccTrace

X == Obs.x
StatesIdx == DOMAIN Obs.states
Nm(x) == g.syms[x + 1]
RhsNames(r) == [ j \in DOMAIN g.rules[r].rhs |-> Nm(g.rules[r].rhs[j]) ] \o
               (IF r = 1 THEN << "$end" >> ELSE <<>>)

---------------------------------------------------------------------------
(* the report against the tables: what each says of a state and a token    *)
Explicit(st, t, kinds) == { i \in DOMAIN st.acts : st.acts[i][1] = t /\ st.acts[i][2] \in kinds }
ReportSays(st, t) ==
  LET E == TLCEval(Explicit(st, t, {"s", "r"}))
  IN IF Cardinality(E) > 1 THEN << "two", 0 >>
     ELSE IF E # {} THEN LET x == st.acts[CHOOSE i \in E : TRUE]
                         IN << x[2], x[3] >>
     ELSE IF st.def >= 0 THEN << "r", st.def >> ELSE << "e", 0 >>

TrialsOf(st, t) ==
  LET L == SelectSeq(st.acts, LAMBDA x : x[1] = t /\ x[2] \in {"ts", "tr"})
  IN [ j \in DOMAIN L |-> << IF L[j][2] = "ts" THEN "s" ELSE "r", L[j][3] >> ]
TableTrials(tb, s, v) ==
  IF ~HasConflict(tb, s, v) THEN <<>>
  ELSE LET c == tb.table[tb.cindex[s+1] + v + 1]
           sh == tb.ctable[c+1] # -1
           l == CList(tb, IF sh THEN c ELSE c + 1)
       IN [ j \in DOMAIN l |-> IF sh /\ j = 1 THEN << "s", l[j] >> ELSE << "r", l[j] >> ]

NtIndex(tb, x) == LET R == { r \in 2..Len(g.rules) : g.rules[r].lhs = x } IN tb.lhs[MinS(R)]

ReportVsTables(i) ==
  LET st == TLCEval(Obs.states[i])
      tb == Obs.tab
      says(t) == IF st.def > 0 THEN << "r", st.def >> ELSE ReportSays(st, Nm(t))
      looks(t) == Look(tb, i - 1, Obs.tokval[Nm(t)])
  IN Fail(\A t \in 0..(g.nT-1) : ReportSays(st, Nm(t))[1] # "two", "twice") \cup
     Fail(\A t \in 0..(g.nT-1) : says(t) = looks(t), "report-table") \cup
     \* with a default reduction, nothing else may be promised
     Fail(st.def < 0 \/ \A j \in DOMAIN st.acts : (st.acts[j][2] = "r" /\ st.acts[j][3] = st.def) \/ st.acts[j][2] \in {"ts", "tr"}, "report-default") \cup
     Fail(\A x \in RangeOf(st.gotos) :
            x[1] \in DOMAIN g.num /\ LookGoto(tb, i - 1, NtIndex(tb, g.num[x[1]])) = x[2], "report-goto") \cup
     Fail(st.acc = (tb.final = i - 1), "report-accept") \cup
     (IF g.fB /\ st.def < 0
      THEN Fail(\A t \in 0..(g.nT-1) :
             RangeOf(TrialsOf(st, Nm(t))) = RangeOf(TableTrials(tb, i - 1, Obs.tokval[Nm(t)])), "report-trial")
      ELSE {})

---------------------------------------------------------------------------
(* names: header, yyname, yyrule *)
TermNames == { Nm(t) : t \in 0..(g.nT-1) }
NtNames == { Nm(x) : x \in (g.nT)..(g.nS-1) }
ValueOf(n) == Obs.tokval[n]

HeadDefs(h) ==
  LET want == { << X.cid[n], ValueOf(n) >> : n \in { m \in TermNames \ {"$end", "error"} : m \in DOMAIN X.cid } }
      got == RangeOf(h.defs)
  IN got \ {<< "YYERRCODE", 256 >>} = want /\ Len(h.defs) = Cardinality(got)
     /\ (h.file = "code" => << "YYERRCODE", 256 >> \in got)

Names ==
  LET mx == MaxS({ ValueOf(n) : n \in TermNames })
      nts == SelectSeq(g.syms, LAMBDA n : n \in NtNames)
      got == RangeOf(X.names.str)
      terms == { << ValueOf(n), n >> : n \in TermNames }
      ntgot == { p \in got : p[1] > mx /\ p[2] # "illegal-symbol" }
  IN IF X.names.len = 0 THEN {}
     ELSE Fail(X.maxtok = mx /\ X.undf = mx + Cardinality(NtNames) + 1 /\ X.names.len = X.undf + 1
               /\ << X.undf, "illegal-symbol" >> \in got, "names-size") \cup
          Fail({ p \in got : p[1] <= mx } = terms, "names-token") \cup
          \* in the backtracking skeleton nonterminals are listed too, numbered after the tokens as the tables number them
          Fail(ntgot = {} \/
               ntgot = { << mx + 1 + 1 + Obs.tab.lhs[MinS({ r \in 2..Len(g.rules) : g.rules[r].lhs = g.num[n] })], n >>
                         : n \in { m \in NtNames : m # "$accept" } } \cup {<< mx + 1, "$accept" >>}, "names-nonterminal") \cup
          Fail(X.rnames.len = Len(g.rules) /\ \A r \in 1..Len(g.rules) :
               X.rnames.str[r] = << Nm(g.rules[r].lhs) >> \o [ j \in DOMAIN g.rules[r].rhs |-> Nm(g.rules[r].rhs[j]) ], "names-rule")

ReportNames ==
  IF ~(TermNames \subseteq DOMAIN Obs.tokval) THEN {"report-symbols"} ELSE
  Fail(\A n, m \in TermNames : n # m => ValueOf(n) # ValueOf(m), "report-values") \cup
  Fail(\A h \in DOMAIN X.heads : HeadDefs(X.heads[h]), "header")

---------------------------------------------------------------------------
(* against the automaton *)
ItemOf(it) == << it.lhs, it.rhs, it.dot >>
GraphState(pi, i) ==
  LET s == pi[i]
      nd == X.graph.nodes[i]
      cl == TLCEval(ClosureItems(g, a, kernels[s]))
      red == TLCEval(Reductions(g, a, la[s]))
      want == { << Nm(g.rules[ItemRule(a, k)].lhs), RhsNames(ItemRule(a, k)), ItemDot(a, k) >> : k \in cl }
      got == { ItemOf(it) : it \in RangeOf(nd.items) }
      wantLA == { << << Nm(g.rules[r].lhs), RhsNames(r), Len(g.rules[r].rhs) >>, { Nm(t) : t \in red[r] } >> : r \in DOMAIN red \ {1} }
      gotLA == { << ItemOf(it), RangeOf(it.la) >> : it \in { x \in RangeOf(nd.items) : x.has } }
      tr == { << i - 1, x >> : x \in DOMAIN trans[s] }
  IN Fail(nd.n = i - 1 /\ got = want /\ Len(nd.items) = Cardinality(cl), "graph-items") \cup
     Fail(gotLA = wantLA, "graph-lookahead")

GraphEdges(pi) ==
  LET got == { << pi[e[1] + 1], e[3], pi[e[2] + 1] >> : e \in RangeOf(X.graph.edges) }
      want == UNION { { << s, Nm(x), trans[s][x] >> : x \in DOMAIN trans[s] } : s \in DOMAIN trans }
  IN \* the accepting transition on $end is not drawn
     Fail({ e \in got : e[2] # "$end" } = want /\ Len(X.graph.edges) = Cardinality(got), "graph-edges")

ConfState(pi, i, cells) ==
  LET st == TLCEval(Obs.states[i])
      brackets == \A c \in RangeOf(st.confs) :
                    /\ c[3] + 1 \in RuleIds(g) /\ c[5] = Nm(g.rules[c[3] + 1].lhs)
                    /\ (c[1] = "rr" => c[2] + 1 \in RuleIds(g) /\ c[6] = Nm(g.rules[c[2] + 1].lhs))
      actBr == \A x \in RangeOf(st.acts) : x[2] = "r" => x[3] + 1 \in RuleIds(g) /\ x[4] = Nm(g.rules[x[3] + 1].lhs)
      itemOK(it) == LET r == it[1] + 1  d == it[2]
                    IN /\ r \in RuleIds(g) /\ d \in 0..Len(RhsNames(r))
                       /\ SubSeq(it, 3, Len(it)) = << Nm(g.rules[r].lhs) >> \o SubSeq(RhsNames(r), 1, d)
                                                   \o << "." >> \o SubSeq(RhsNames(r), d + 1, Len(RhsNames(r)))
      items == \A k \in DOMAIN st.items : itemOK(st.items[k])
  IN Fail(brackets /\ actBr, "brackets") \cup Fail(items, "report-items")

Rest(pi, cellsf) ==
  LET defs == TLCEval([ s \in DOMAIN cellsf |-> DefRed(g, cellsf[s]) ])
      keep == { "conflict-lines", "state-conflicts", "nulls" }
  IN UNION { ConfState(pi, i, cellsf[pi[i]]) : i \in DOMAIN pi } \cup
     UNION { (CheckState(pi, i, cellsf[pi[i]], defs[pi[i]]) \cap keep) : i \in DOMAIN pi } \cup
     (Totals(cellsf) \cap { "totals", "unused", "report-totals", "stats" }) \cup
     Fail(\A u \in RangeOf(Obs.unusedrules) : u[1] + 1 \in RuleIds(g) /\ u[2] = << Nm(g.rules[u[1] + 1].lhs) >> \o RhsNames(u[1] + 1), "unused-text")

\* the rules' own %prec marks
PrecMarks ==
  LET er == TLCEval(ElabRules(Src.rules))
  IN Fail(\A i \in DOMAIN er : Obs.precs[i + 1] = (IF Src.fu THEN "" ELSE er[i].prec), "report-prec")

RVerdict(cellsf) ==
  LET pi == TLCEval(MapStates)
      ok == Len(Obs.states) = Len(kernels) /\ RangeOf(pi) = DOMAIN kernels
      shape == Fail(ObsRulesOK, "rules")
  IN IF shape # {} THEN shape
     ELSE LET n == TLCEval(ReportNames)
          IN IF n # {} THEN n
             ELSE PrecMarks \cup Names \cup
                  (IF Obs.tab.final < 0 THEN {} ELSE UNION { ReportVsTables(i) : i \in StatesIdx }) \cup
                  (IF ~ok THEN {"states"}
                   ELSE Rest(pi, cellsf) \cup
                        (IF Len(X.graph.nodes) = 0 THEN {}
                         ELSE IF Len(X.graph.nodes) # Len(kernels) THEN {"graph-nodes"}
                         ELSE UNION { GraphState(pi, i) : i \in DOMAIN pi } \cup GraphEdges(pi)))

RCompare ==
  /\ phase = "compare"
  /\ phase' = "done"
  /\ fails' = TLCEval(RVerdict(cellsOf))
  /\ PrintT(ToJson([ verdict |-> Cases[cid].id, fails |-> fails', states |-> Len(kernels),
             conflicts |-> SumSet([ s \in DOMAIN cellsOf |-> StateSR(cellsOf[s]) + StateRR(cellsOf[s]) ], DOMAIN cellsOf) ]))
  /\ UNCHANGED << cid, src, g, a, kernels, kgoto, trans, la, cellsOf >>

RNext == ReadSource \/ Discover \/ StartPropagation \/ Propagate \/ Resolve \/ RCompare
RSpec == Init /\ [][RNext]_vars
=============================================================================

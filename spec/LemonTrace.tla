----------------------------- MODULE LemonTrace -----------------------------
(***************************************************************************)
(* Conformance of lemon to Lemon.tla.  Every case is a source grammar and  *)
(* what the real lemon made of it under several option sets: the report of *)
(* the uncompressed machine with the actions dropped (obs.raw), the        *)
(* messages and statistics, and for each option set the packed tables with *)
(* the report that numbers their states (obs.tabs).                        *)
(***************************************************************************)
EXTENDS Lemon, LemonTables, Json, IOUtils

Cases == ndJsonDeserialize(IOEnv.CASES)

VARIABLES cid, src, phase, g, a, kernels, kgoto, trans, la, cellsOf, fails
vars == << cid, src, phase, g, a, kernels, kgoto, trans, la, cellsOf, fails >>

Obs == Cases[cid].obs
Src == src

Init ==
  /\ cid \in DOMAIN Cases
  /\ src = Cases[cid].src
  /\ phase = "source"
  /\ g = 0 /\ a = 0 /\ kernels = <<>> /\ kgoto = <<>> /\ trans = <<>> /\ la = <<>> /\ cellsOf = <<>>
  /\ fails = {}

ReadSource ==
  /\ phase = "source"
  /\ g' = TLCEval(Elaborate(Src))
  /\ a' = TLCEval(Analyse(g'))
  /\ kernels' = << StartKernel(g', a') >>
  /\ phase' = "lr0"
  /\ UNCHANGED << cid, src, kgoto, trans, la, cellsOf, fails >>

Discover ==
  /\ phase = "lr0"
  /\ Len(kgoto) < Len(kernels)
  /\ kgoto' = kgoto \o ExpandGotos(g, a, kernels, Len(kgoto) + 1)
  /\ kernels' = kernels \o NewKernels(kernels, SubSeq(kgoto', Len(kgoto) + 1, Len(kernels)))
  /\ UNCHANGED << cid, src, phase, g, a, trans, la, cellsOf, fails >>

StartPropagation ==
  /\ phase = "lr0"
  /\ Len(kgoto) = Len(kernels)
  /\ trans' = TLCEval(Number(kernels, kgoto))
  /\ la' = TLCEval(InitLA(g, a, kernels, 1, {0}))
  /\ phase' = "la"
  /\ kgoto' = <<>>
  /\ UNCHANGED << cid, src, g, a, kernels, cellsOf, fails >>

Propagate ==
  /\ phase = "la"
  /\ la' = TLCEval(Sweep(g, a, trans, la))
  /\ phase' = IF la' = la THEN "resolve" ELSE "la"
  /\ UNCHANGED << cid, src, g, a, kernels, kgoto, trans, cellsOf, fails >>

Resolve ==
  /\ phase = "resolve"
  /\ cellsOf' = TLCEval([ s \in DOMAIN kernels |-> CellsOf(g, trans[s], TLCEval(Reductions(g, a, la[s]))) ])
  /\ phase' = "compare"
  /\ UNCHANGED << cid, src, g, a, kernels, kgoto, trans, la, fails >>

---------------------------------------------------------------------------
Fail(c, tag) == IF c THEN {} ELSE { tag }

Text(x) == IF x < g.nNT THEN g.syms[x + 1] ELSE Src.cls[x - g.nNT + 1].t
RuleText(r) == << Text(g.rules[r].lhs) >> \o [ j \in DOMAIN g.rules[r].rhs |-> Text(g.rules[r].rhs[j]) ]

\* rules with code come first in lemon's numbering
IRule == LET coded == { r \in RuleIds(g) : Src.rules[r].code }
         IN [ r \in RuleIds(g) |->
                IF r \in coded THEN Cardinality({ q \in coded : q < r })
                ELSE Cardinality(coded) + Cardinality({ q \in RuleIds(g) \ coded : q < r }) ]

ItemsOf(texts, its) == UNION { { (r - 1) * a.K + it.d : r \in { q \in RuleIds(g) : texts[q] = it.t } } : it \in RangeOf(its) }
KernelPart(S, first) == IF first THEN { i \in S : ItemDot(a, i) > 0 \/ g.rules[ItemRule(a, i)].lhs = g.start }
                        ELSE { i \in S : ItemDot(a, i) > 0 }

\* observed state number -> specification state (function on observed numbers), 0 when unknown
MapStates(texts, sts) ==
  [ n \in { sts[i].n : i \in DOMAIN sts } |->
      LET st == sts[CHOOSE i \in DOMAIN sts : sts[i].n = n]
          k  == TLCEval(KernelPart(ItemsOf(texts, st.items), n = 0))
          S  == { s \in DOMAIN kernels : kernels[s] = k }
      IN IF S = {} THEN 0 ELSE CHOOSE s \in S : TRUE ]

CheckRaw(texts, ir, pi, st) ==
  LET s == pi[st.n]
      cells == cellsOf[s]
      tgt(n) == IF n \in DOMAIN pi THEN pi[n] ELSE 0
      o == RangeOf(st.acts)      \* records [s, k, n, x]: symbol, kind, number, status
      inv(n) == { r \in RuleIds(g) : ir[r] = n }
      termActs == { y \in o : y.s \in DOMAIN g.num /\ g.num[y.s] < g.nT }
      oShifts(t) == { << tgt(y.n), y.x >> : y \in { z \in termActs : g.num[z.s] = t /\ z.k = "s" } }
      oReds == { << g.num[y.s], y.n, y.x >> : y \in { z \in termActs : z.k = "r" } }
      confst(x) == IF x \in {"csr", "crr"} THEN "conf" ELSE x
      eReds == UNION { { << t, ir[c.n], confst(c.st) >> : c \in RangeOf(cells[t].reds) } : t \in DOMAIN cells }
      nshift(t) == Cardinality({ i \in DOMAIN st.acts : st.acts[i].k = "s" /\ st.acts[i].s = Text(t) })
      shiftOK(t) ==
        LET c == cells[t] os == oShifts(t) IN
        IF c.sst \in {"none"} THEN os = {}
        ELSE IF c.sst = "err" THEN /\ \E y \in termActs : g.num[y.s] = t /\ y.k = "e"
                                   /\ \A p \in os : p[2] = "conf" /\ p[1] \in c.sh
                                   /\ Cardinality(os) = Cardinality(c.sh) - 1
        ELSE /\ { p[1] : p \in os } = c.sh
             /\ Cardinality(os) = Cardinality(c.sh)
             /\ Cardinality({ p \in os : p[2] = c.sst }) = 1
             /\ \A p \in os : p[2] \in { c.sst, "conf" }
      eErr == { t \in DOMAIN cells : cells[t].sst = "err" }
      oErr == { g.num[y.s] : y \in { z \in termActs : z.k = "e" } }
      eGoto == { << Text(x), trans[s][x] >> : x \in { y \in DOMAIN trans[s] : y >= g.nT /\ y < g.nNT } }
      oGoto == { << y.s, tgt(y.n) >> : y \in { z \in o : z.k = "s" /\ z.s \in DOMAIN g.num /\ g.num[z.s] >= g.nT } }
      plain(S) == { << p[1], p[2] >> : p \in S }
      acc == { y.s : y \in { z \in o : z.k = "acc" } }
  IN Fail(plain(oReds) = plain(eReds), "reduce") \cup
     Fail(oReds = eReds, "resolve-reduce") \cup
     Fail(\A t \in DOMAIN cells : shiftOK(t), "shift") \cup
     Fail(oErr = eErr, "nonassoc") \cup
     Fail(\A y \in termActs : g.num[y.s] \in DOMAIN cells, "extra-action") \cup
     Fail(\A y \in o : y.s \in DOMAIN g.num, "unknown-symbol") \cup
     Fail(oGoto = eGoto, "goto") \cup
     Fail(acc = (IF s = 1 THEN { Text(g.start) } ELSE {}), "accept") \cup
     Fail(ItemsOf(texts, st.items) = ClosureItems(g, a, kernels[s]), "items") \cup
     Fail(\A it \in RangeOf(st.items) :
            it.r = (IF it.d = Len(it.t) - 1 THEN ir[CHOOSE q \in RuleIds(g) : texts[q] = it.t] ELSE -1)
            \/ Cardinality({ q \in RuleIds(g) : texts[q] = it.t }) > 1, "item-rule")

---------------------------------------------------------------------------
(* the packed tables simulate the machine *)
Decisions == [ s \in DOMAIN kernels |-> [ t \in DOMAIN cellsOf[s] |-> Decision(cellsOf[s][t]) ] ]
WildShift(s, dec) == Src.wildcard # "" /\ LET w == g.num[Src.wildcard] IN w \in DOMAIN dec[s] /\ dec[s][w][1] = "s"
\* the rule a state reduces by on whatever comes next, or 0
Auto(s, dec) ==
  LET rs == { dec[s][t][2] : t \in { u \in DOMAIN dec[s] : dec[s][u][1] = "r" } }
  IN IF /\ Cardinality(rs) = 1
        /\ \A t \in DOMAIN dec[s] : dec[s][t][1] = "r"
        /\ \A x \in DOMAIN trans[s] : x < g.nT \/ x >= g.nNT
        /\ \A r \in rs : g.rules[r].lhs # g.start
     THEN CHOOSE r \in rs : TRUE ELSE 0

\* a parser may only enter a state whose row of token actions exists
Enter(pi, tb, n, S) == n \in DOMAIN pi /\ n <= tb.shiftcount /\ pi[n] \in S

\* red: how reducing straight away is encoded ("r" on a nonterminal, "sr" on the error symbol)
RECURSIVE GotoOK(_, _, _, _, _, _, _, _, _, _)
GotoOK(ir, pi, tb, auto, s, x, act, depth, unitOK, red) ==
  LET q == auto[trans[s][x]] IN
  \/ act[1] = "s" /\ Enter(pi, tb, act[2], { trans[s][x] })
  \/ act[1] = red /\ unitOK /\ q # 0 /\ act[2] = ir[q]
  \/ /\ q # 0 /\ unitOK /\ depth < 40
     /\ Len(g.rules[q].rhs) = 1 /\ ~Src.rules[q].code
     /\ IF g.rules[q].lhs = g.start THEN act[1] = "acc"
        ELSE GotoOK(ir, pi, tb, auto, s, g.rules[q].lhs, act, depth + 1, unitOK, red)

CheckTable(texts, ir, dec, auto, tab) ==
  LET tb == tab.tb
      pi == TLCEval(MapStates(texts, tab.states))
      err == IF "error" \in DOMAIN g.num THEN g.num["error"] ELSE -1
      actOK(s, t, act) ==
        IF t \notin DOMAIN dec[s] THEN
          \/ act[1] = "e"
          \/ /\ act[1] = "r" /\ ~tab.exact /\ ~WildShift(s, dec)
             /\ \E u \in DOMAIN dec[s] : /\ dec[s][u][1] = "r" /\ ir[dec[s][u][2]] = act[2]
                                         /\ g.rules[dec[s][u][2]].lhs # g.start
        ELSE CASE dec[s][t][1] = "e" -> act[1] = "e"
               [] dec[s][t][1] = "r" -> act = << "r", ir[dec[s][t][2]] >>
               [] dec[s][t][1] = "s" ->
                    \/ act[1] = "s" /\ Enter(pi, tb, act[2], dec[s][t][2])
                    \/ ~tab.exact /\ act[1] = "sr" /\ \E q \in dec[s][t][2] : auto[q] # 0 /\ ir[auto[q]] = act[2]
      gotoOK(s, x, act) ==
        GotoOK(ir, pi, tb, auto, s, x, act, 0, ~tab.exact, IF x = err THEN "sr" ELSE "r")
  IN IF \E n \in DOMAIN pi : pi[n] = 0 \/ 0 \notin DOMAIN pi THEN { "table-states" }
     ELSE Fail(pi[0] = 1, "table-start") \cup
          Fail(tb.maxshift < Len(tab.states) /\ \A n \in 0..tb.maxshift : n \in DOMAIN pi, "table-nstate") \cup
          Fail(0 <= tb.shiftcount /\ \A n \in 0..tb.shiftcount : n \in DOMAIN pi => \A t \in 0..(g.nT-1) : actOK(pi[n], t, FindShift(tb, n, t)), "table-action") \cup
          Fail(\A n \in 0..tb.maxshift : n \in DOMAIN pi =>
                 \A x \in { y \in DOMAIN trans[pi[n]] : y >= g.nT /\ y < g.nNT } : gotoOK(pi[n], x, FindReduce(tb, n, x)), "table-goto") \cup
          Fail(err = -1 \/ \A n \in 0..tb.maxshift : (n \in DOMAIN pi /\ err \notin DOMAIN trans[pi[n]]) =>
                 FindReduce(tb, n, err)[1] \notin {"s", "sr"}, "table-error") \cup
          Fail(FindReduce(tb, 0, g.start)[1] = "acc", "table-accept") \cup
          Fail(\A r \in RuleIds(g) : /\ ir[r] < Len(tb.rulelhs) /\ Nth(tb.rulelhs, ir[r]) = g.rules[r].lhs
                                     /\ Nth(tb.rulenrhs, ir[r]) = -Len(g.rules[r].rhs), "table-rules") \cup
          Fail(tb.ntoken = g.nT /\ tb.nrule = Len(g.rules)
               /\ tb.nact = Cardinality({ r \in RuleIds(g) : Src.rules[r].code }), "table-counts") \cup
          Fail(tb.wildcard = (IF Src.wildcard = "" THEN -1 ELSE g.num[Src.wildcard]), "table-wildcard") \cup
          Fail(tb.errsym = err, "table-errsym") \cup
          Fail(tb.fallback = (IF Src.fallback = <<>> THEN <<>> ELSE tb.fallback) /\
               (Src.fallback = <<>> \/ \A t \in 0..(g.nT-1) :
                  LET F == { f \in RangeOf(Src.fallback) : g.num[f[1]] = t }
                      v == IF t + 1 \in DOMAIN tb.fallback THEN tb.fallback[t+1] ELSE 0
                  IN v = (IF F = {} THEN 0 ELSE g.num[(CHOOSE f \in F : TRUE)[2]])), "table-fallback")

Symbols ==
  LET nul == a.nul IN
  [ i \in 1..g.nNT |->
     LET x == i - 1 IN
     [ i |-> x, n |-> g.syms[i],
       l |-> x \in nul,
       f |-> IF x < g.nT THEN <<>> ELSE [ k \in 1..Cardinality(a.first[x]) |-> g.syms[SortI(a.first[x])[k] + 1] ],
       p |-> IF x < g.nT /\ g.tprec[x] > 0 THEN g.tprec[x] ELSE -1 ] ]

Totals ==
  LET ss == SumCells(cellsOf, LAMBDA c : c.ss)
      sr == SumCells(cellsOf, LAMBDA c : c.sr)
      rr == SumCells(cellsOf, LAMBDA c : c.rr)
      n  == ss + sr + rr
      un == Cardinality(Unreducible(g, cellsOf))
      m  == Obs.msg
  IN Fail(m.stats = << g.nT, g.nNT - g.nT, g.nNT, Len(g.rules), Len(kernels) >>, "stats") \cup
     Fail(m.conf = n, "conflicts") \cup
     Fail(n = 0 \/ (m.sr = sr /\ m.rr = rr), "conflict-kinds") \cup
     Fail(m.said = (IF n = Src.expect THEN -1 ELSE n), "conflict-message") \cup
     Fail(m.unred = un, "unreducible") \cup
     Fail(Obs.exit = (IF un > 0 \/ n # Src.expect THEN 1 ELSE 0), "exit")

RulesOK(texts, ir) ==
  /\ Len(Obs.rules) = Len(g.rules)
  /\ \A r \in RuleIds(g) : /\ Obs.rules[ir[r] + 1].t = texts[r]
                           /\ Obs.rules[ir[r] + 1].p = (IF g.rtok[r] = -1 \/ (g.tprec[g.rtok[r]] = 0 /\ Src.rules[r].prec = "") THEN << "", 0 >>
                                                        ELSE << g.syms[g.rtok[r] + 1], IF g.tprec[g.rtok[r]] = 0 THEN -1 ELSE g.tprec[g.rtok[r]] >>)

Verdict ==
  LET texts == TLCEval([ r \in RuleIds(g) |-> RuleText(r) ])
      ir == TLCEval(IRule)
      pi == TLCEval(MapStates(texts, Obs.raw))
      dec == TLCEval(Decisions)
      auto == TLCEval([ s \in DOMAIN kernels |-> IF WildShift(s, dec) THEN 0 ELSE Auto(s, dec) ])
      bij == /\ Len(Obs.raw) = Len(kernels) /\ RangeOf(pi) = DOMAIN kernels /\ Cardinality(DOMAIN pi) = Len(kernels)
             /\ DOMAIN pi = 0 .. (Len(kernels) - 1) /\ pi[0] = 1
  IN Fail(RulesOK(texts, ir), "rules") \cup
     Fail(Obs.symbols = Symbols, "symbols") \cup
     Fail(Obs.header = [ i \in 1..(g.nT - 1) |-> << Src.prefix \o g.syms[i+1], i >> ], "header") \cup
     Fail(\A i \in DOMAIN Obs.tabs : Obs.tabs[i].defs = Obs.header, "defines") \cup
     (IF ~bij THEN { "states" }
      ELSE Totals \cup UNION { CheckRaw(texts, ir, pi, st) : st \in RangeOf(Obs.raw) } \cup
           UNION { CheckTable(texts, ir, dec, auto, tab) : tab \in RangeOf(Obs.tabs) })

Compare ==
  /\ phase = "compare"
  /\ phase' = "done"
  /\ fails' = TLCEval(Verdict)
  /\ PrintT(ToJson([ verdict |-> Cases[cid].id, fails |-> fails', states |-> Len(kernels),
             conflicts |-> SumCells(cellsOf, LAMBDA c : c.ss + c.sr + c.rr) ]))
  /\ UNCHANGED << cid, src, g, a, kernels, kgoto, trans, la, cellsOf >>

Next == ReadSource \/ Discover \/ StartPropagation \/ Propagate \/ Resolve \/ Compare
Spec == Init /\ [][Next]_vars

Conforms == fails = {}
=============================================================================

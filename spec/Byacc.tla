------------------------------- MODULE Byacc -------------------------------
(***************************************************************************)
(* What byacc makes of a grammar file: elaboration of the declarations and *)
(* rules into a grammar, conflict resolution, default reductions, the      *)
(* conflict counts and the exit status.                                    *)
(*                                                                         *)
(* A source grammar src is a record                                        *)
(*   names  every symbol name used or declared (order irrelevant)          *)
(*   decl   sequence of [k, syms]: k in token/left/right/nonassoc/start    *)
(*   rules  sequence of [lhs, rhs, prec]; rhs is a sequence of names and   *)
(*          "{}" marks (actions) and "(k)" marks (inherited attributes);   *)
(*          prec is a name or ""                                           *)
(*   fu, fz, fB  the options -u (no precedence), -z (lemon-like            *)
(*          precedence), -B (backtracking)                                 *)
(*   sr, rr  %expect / %expect-rr, -1 when absent                          *)
(***************************************************************************)
EXTENDS LR

NoAssoc == "none"

(* ---- mid-rule actions become empty rules placed before their rule ----- *)
(* out: sequence of [lhs, rhs, prec, mid]                                  *)
GenName(n) == "$$" \o ToString(n)

\* "(k)": the computation of an inherited attribute, put before the symbol it
\* is passed to.  It is an empty rule as well; equal computations are one rule.
ArgMarks == { "(" \o ToString(k) \o ")" : k \in 1..40 }

RECURSIVE SplitRhs(_, _, _, _)
\* i: position; pend: an action just seen; s: [rhs, gen, made, new] so far - the
\* symbols, how many rules were generated, the attributes made, the new rules
SplitRhs(rhs, i, pend, s) ==
  LET new(n, mid) == [ s EXCEPT !.rhs = Append(@, n), !.gen = @ + 1, !.new = Append(@, [ lhs |-> n, rhs |-> <<>>, prec |-> "", mid |-> mid ]) ]
  IN IF i > Len(rhs) THEN s
     ELSE IF pend
          THEN \* something follows an action: it was a mid-rule action
               SplitRhs(rhs, i, FALSE, new(GenName(s.gen + 1), TRUE))
     ELSE IF rhs[i] = "{}" THEN SplitRhs(rhs, i + 1, TRUE, s)
     ELSE IF rhs[i] \in ArgMarks /\ rhs[i] \notin s.made
          THEN SplitRhs(rhs, i + 1, FALSE, [ new(rhs[i], FALSE) EXCEPT !.made = @ \cup { rhs[i] } ])
     ELSE SplitRhs(rhs, i + 1, FALSE, [ s EXCEPT !.rhs = Append(@, rhs[i]) ])

RECURSIVE ElabFrom(_, _, _, _, _)
ElabFrom(rules, i, gen, made, out) ==
  IF i > Len(rules) THEN out
  ELSE LET r == rules[i]
           s == SplitRhs(r.rhs, 1, FALSE, [ rhs |-> <<>>, gen |-> gen, made |-> made, new |-> <<>> ])
       IN ElabFrom(rules, i + 1, s.gen, s.made,
            out \o s.new \o << [ lhs |-> r.lhs, rhs |-> s.rhs, prec |-> r.prec, mid |-> FALSE ] >>)
ElabRules(rules) == ElabFrom(rules, 1, 0, {}, <<>>)

(* ---- precedence declarations ----------------------------------------- *)
PrecKinds == { "left", "right", "nonassoc", "precedence" }
Level(src, d) == Cardinality({ e \in 1..d : src.decl[e].k \in PrecKinds })
PrecDeclOf(src, name) ==   \* index of the last declaration giving name a precedence, or 0
  LET D == { d \in DOMAIN src.decl : src.decl[d].k \in PrecKinds
                                  /\ name \in RangeOf(src.decl[d].syms) }
  IN IF D = {} THEN 0 ELSE MaxS(D)

StartName(src) ==
  LET D == { d \in DOMAIN src.decl : src.decl[d].k = "start" }
  IN IF D = {} THEN src.rules[1].lhs ELSE src.decl[MaxS(D)].syms[1]

(***************************************************************************)
(* The elaborated grammar: symbol 0 is $end, 1 is error, then the other    *)
(* terminals, then $accept, then the nonterminals.  Rule 1 is              *)
(* $accept : goal (followed by the end of the input).                      *)
(* tprec/tassoc: precedence of terminals; rprec/rassoc: of rules.          *)
(***************************************************************************)
Elaborate(src) ==
  LET er    == TLCEval(ElabRules(src.rules))
      lhss  == TLCEval({ er[i].lhs : i \in DOMAIN er })
      isT(n) == n \notin lhss /\ n # "error"
      others == SelectSeq(src.names, isT)
      isN(n) == n \in lhss
      tn    == << "$end", "error" >> \o others
      nn    == << "$accept" >> \o SelectSeq(src.names, isN) \o
               SelectSeq([ i \in DOMAIN er |-> IF er[i].mid \/ er[i].lhs \in ArgMarks THEN er[i].lhs ELSE "" ], LAMBDA n : n # "")
      syms  == TLCEval(tn \o nn)
      num   == TLCEval([ n \in RangeOf(syms) |-> (CHOOSE i \in DOMAIN syms : syms[i] = n) - 1 ])
      rules == TLCEval(<< [ lhs |-> num["$accept"], rhs |-> << num[StartName(src)] >> ] >> \o
               [ i \in DOMAIN er |-> [ lhs |-> num[er[i].lhs],
                                       rhs |-> [ j \in DOMAIN er[i].rhs |-> num[er[i].rhs[j]] ] ] ])
      pd    == TLCEval([ t \in 0..(Len(tn)-1) |-> IF src.fu THEN 0 ELSE PrecDeclOf(src, syms[t+1]) ])
      tprec == TLCEval([ t \in 0..(Len(tn)-1) |-> IF pd[t] = 0 THEN 0 ELSE Level(src, pd[t]) ])
      tassoc == TLCEval([ t \in 0..(Len(tn)-1) |-> IF pd[t] = 0 THEN NoAssoc ELSE src.decl[pd[t]].k ])
      ruleTok(i) ==  \* the terminal that lends the rule its precedence, or -1
        IF er[i].prec # "" /\ ~src.fu THEN (IF num[er[i].prec] < Len(tn) THEN num[er[i].prec] ELSE -1)
        ELSE LET ts == { j \in DOMAIN er[i].rhs : num[er[i].rhs[j]] < Len(tn) }
                 tz == { j \in ts : tprec[num[er[i].rhs[j]]] > 0 }
             IN IF src.fz THEN (IF tz = {} THEN -1 ELSE num[er[i].rhs[MinS(tz)]])
                ELSE (IF ts = {} THEN -1 ELSE num[er[i].rhs[MaxS(ts)]])
      rt    == TLCEval([ i \in DOMAIN er |-> IF er[i].mid THEN -1 ELSE ruleTok(i) ])
  IN [ nT |-> Len(tn), nS |-> Len(syms), syms |-> syms, num |-> num, rules |-> rules,
       tprec |-> tprec, tassoc |-> tassoc,
       mids |-> { i + 1 : i \in { j \in DOMAIN er : er[j].mid } },
       rprec |-> << 0 >> \o [ i \in DOMAIN er |-> IF rt[i] = -1 THEN 0 ELSE tprec[rt[i]] ],
       fz |-> src.fz, fB |-> src.fB, cls |-> <<>> ]

ErrorSym == 1

(***************************************************************************)
(* Conflict resolution in one cell.  The actions are considered in order:  *)
(* accept or shift first, then reductions by rule number.  The first is    *)
(* preferred; each following one is compared with the preferred one.       *)
(* sup: 0 stays, 1 suppressed by a conflict, 2 removed by precedence.      *)
(***************************************************************************)
\* acts: sequence of [k : "acc"/"s"/"r", n, prec, assoc]
RECURSIVE ResolveFrom(_, _, _, _, _)
ResolveFrom(g, acts, i, pref, res) ==
  IF i > Len(acts) THEN res
  ELSE
    LET p == acts[i]  q == acts[pref]
        both == q.prec > 0 /\ p.prec > 0
        conflictSR == [ res EXCEPT !.sup[i] = 1, !.sr = @ + 1,
                                   !.sup[pref] = IF g.fB /\ @ = 0 THEN 1 ELSE @ ]
        conflictRR == [ res EXCEPT !.sup[i] = 1, !.rr = @ + 1,
                                   !.sup[pref] = IF g.fB /\ @ = 0 THEN 1 ELSE @ ]
        newWins == [ res EXCEPT !.sup[pref] = 2 ]
        oldWins == [ res EXCEPT !.sup[i] = 2 ]
    IN IF q.k = "acc" THEN ResolveFrom(g, acts, i+1, pref, conflictSR)
       ELSE IF q.k = "s" THEN
         IF ~both THEN ResolveFrom(g, acts, i+1, pref, conflictSR)
         ELSE IF q.prec < p.prec \/ (q.prec = p.prec /\ q.assoc = "left")
              THEN ResolveFrom(g, acts, i+1, i, newWins)
         ELSE IF q.prec > p.prec \/ q.assoc = "right"
              THEN ResolveFrom(g, acts, i+1, pref, oldWins)
         ELSE ResolveFrom(g, acts, i+1, pref, [ res EXCEPT !.sup[pref] = 2, !.sup[i] = 2 ])
       ELSE \* reduce / reduce
         IF g.fz /\ both /\ q.prec # p.prec
         THEN IF q.prec < p.prec THEN ResolveFrom(g, acts, i+1, i, newWins)
              ELSE ResolveFrom(g, acts, i+1, pref, oldWins)
         ELSE ResolveFrom(g, acts, i+1, pref, conflictRR)

RECURSIVE SortedSeq(_)
SortedSeq(S) == IF S = {} THEN <<>> ELSE LET m == MinS(S) IN << m >> \o SortedSeq(S \ {m})

Cell(g, trans, red, final, t) ==
  LET sh == IF t = 0 THEN (IF final THEN << [ k |-> "acc", n |-> 0, prec |-> 0, assoc |-> NoAssoc ] >> ELSE <<>>)
            ELSE IF t \in DOMAIN trans
                 THEN << [ k |-> "s", n |-> trans[t], prec |-> g.tprec[t], assoc |-> g.tassoc[t] ] >>
                 ELSE <<>>
      rs == SortedSeq({ r \in DOMAIN red : t \in red[r] })
      acts == sh \o [ i \in DOMAIN rs |-> [ k |-> "r", n |-> rs[i], prec |-> g.rprec[rs[i]], assoc |-> NoAssoc ] ]
      r0 == [ sup |-> TLCEval([ i \in DOMAIN acts |-> 0 ]), sr |-> 0, rr |-> 0 ]
      res == ResolveFrom(g, acts, 2, 1, r0)
  IN [ acts |-> TLCEval(acts), sup |-> res.sup, sr |-> res.sr, rr |-> res.rr ]

(* the cells of a state, for the terminals that have any action *)
CellsOf(g, trans, red, final) ==
  LET ts == TLCEval({ x \in DOMAIN trans : x < g.nT } \cup UNION { red[r] : r \in DOMAIN red }
            \cup (IF final THEN {0} ELSE {}))
  IN TLCEval([ t \in ts |-> TLCEval(Cell(g, trans, red, final, t)) ])

Keeps(g, sup) == IF g.fB THEN sup <= 1 ELSE sup = 0

Live(g, cells, t) ==   \* indices of the actions of cell t that the parser may take
  { i \in DOMAIN cells[t].acts : Keeps(g, cells[t].sup[i]) }

(* The default reduction of a state: its only remaining action is to       *)
(* reduce by one rule (on something other than the error symbol alone).    *)
DefRed(g, cells) ==
  LET live == UNION { { << t, i >> : i \in Live(g, cells, t) } : t \in DOMAIN cells }
      act(p) == cells[p[1]].acts[p[2]]
      rs == { act(p).n : p \in { q \in live : act(q).k = "r" } }
  IN IF \E p \in live : act(p).k = "s" THEN 0
     ELSE IF Cardinality(rs) # 1 THEN 0
     ELSE IF \A p \in { q \in live : act(q).k = "r" } : p[1] = ErrorSym THEN 0
     ELSE CHOOSE r \in rs : TRUE

(* %nonassoc left no action on a token.  The declaration asks for an error *)
(* there, but byacc lets a default reduction take its place (the tests     *)
(* pin that down: expr.oxout).                                             *)
Emptied(g, cells) == \E t \in DOMAIN cells : cells[t].acts # <<>> /\ Live(g, cells, t) = {}

RECURSIVE SumSet(_, _)
SumSet(f, D) == IF D = {} THEN 0 ELSE LET x == CHOOSE y \in D : TRUE IN f[x] + SumSet(f, D \ {x})

StateSR(cells) == SumSet([ t \in DOMAIN cells |-> cells[t].sr ], DOMAIN cells)
StateRR(cells) == SumSet([ t \in DOMAIN cells |-> cells[t].rr ], DOMAIN cells)

(* rules that no remaining action reduces by ($accept aside)               *)
Unused(g, allcells) ==
  LET used == UNION { UNION { { allcells[s][t].acts[i].n :
                       i \in { j \in Live(g, allcells[s], t) : allcells[s][t].acts[j].k = "r" } }
                     : t \in DOMAIN allcells[s] } : s \in DOMAIN allcells }
  IN { r \in 2..Len(g.rules) : r \notin used }

(* exit status: a failure only if there are conflicts and their number is  *)
(* not the expected one                                                     *)
ExitCode(src, sr, rr) ==
  IF sr + rr > 0 /\ ((src.sr >= 0 /\ sr # src.sr) \/ (src.rr >= 0 /\ rr # src.rr)) THEN 1 ELSE 0
=============================================================================

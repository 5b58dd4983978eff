------------------------------- MODULE Lemon -------------------------------
(***************************************************************************)
(* What lemon makes of a grammar file: elaboration, conflict resolution,   *)
(* the conflict count, the error count and the exit status.                *)
(*                                                                         *)
(* A source grammar src is a record                                        *)
(*   terms  token names in order of first mention                          *)
(*   nts    nonterminal names in order of first mention (error included)   *)
(*   cls    sequence of [n, m]: the multi-terminal written n stands for    *)
(*          any of the tokens m                                            *)
(*   decl   sequence of [k, syms]: k in left/right/nonassoc/precedence     *)
(*   start  the declared start symbol, or ""                               *)
(*   rules  sequence of [lhs, rhs, prec, code]                             *)
(*   wildcard  token name or ""                                            *)
(*   expect    the value of %expect (0 when absent)                        *)
(*   fu, fz    ignore precedences; rule precedence the way of yacc         *)
(*                                                                         *)
(* There is no added goal rule: the first state holds every rule of the    *)
(* start symbol, whose reductions are on $, and the parser accepts on the  *)
(* start symbol itself.                                                    *)
(***************************************************************************)
EXTENDS LR

PrecKinds == { "left", "right", "nonassoc", "precedence" }
Level(src, d) == Cardinality({ e \in 1..d : src.decl[e].k \in PrecKinds }) 
PrecDeclOf(src, name) ==
  LET D == { d \in DOMAIN src.decl : src.decl[d].k \in PrecKinds /\ name \in RangeOf(src.decl[d].syms) }
  IN IF D = {} THEN 0 ELSE MinS(D)

Elaborate(src) ==
  LET tn    == << "$" >> \o src.terms
      mems  == TLCEval([ i \in DOMAIN src.cls |-> src.cls[i].m ])
      \* multi-terminals with the same members in the same order are one symbol
      canon == TLCEval([ i \in DOMAIN mems |-> MinS({ j \in DOMAIN mems : mems[j] = mems[i] }) ])
      nn    == src.nts
      base  == Len(tn) + Len(nn)
      names == TLCEval(tn \o nn)
      cn    == TLCEval([ n \in { src.cls[i].n : i \in DOMAIN src.cls } |->
                 base - 1 + canon[CHOOSE i \in DOMAIN src.cls : src.cls[i].n = n] ])
      sn    == TLCEval([ n \in RangeOf(names) |-> (CHOOSE i \in DOMAIN names : names[i] = n) - 1 ])
      num   == TLCEval([ n \in DOMAIN cn \cup DOMAIN sn |-> IF n \in DOMAIN cn THEN cn[n] ELSE sn[n] ])
      cls   == TLCEval([ c \in base .. (base + Len(mems) - 1) |-> { sn[t] : t \in RangeOf(mems[c - base + 1]) } ])
      rules == TLCEval([ i \in DOMAIN src.rules |-> [ lhs |-> num[src.rules[i].lhs],
                  rhs |-> [ j \in DOMAIN src.rules[i].rhs |-> num[src.rules[i].rhs[j]] ] ] ])
      pd    == TLCEval([ t \in 0..(Len(tn)-1) |-> IF src.fu THEN 0 ELSE PrecDeclOf(src, tn[t+1]) ])
      tprec == TLCEval([ t \in 0..(Len(tn)-1) |-> IF pd[t] = 0 THEN 0 ELSE Level(src, pd[t]) ])
      tassoc == TLCEval([ t \in 0..(Len(tn)-1) |-> IF pd[t] = 0 THEN "none" ELSE src.decl[pd[t]].k ])
      \* candidates of one right-hand-side symbol, in order
      cand(x) == IF x < Len(tn) THEN << x >>
                 ELSE IF x < base THEN <<>>
                 ELSE [ k \in DOMAIN mems[x - base + 1] |-> sn[mems[x - base + 1][k]] ]
      ruleTok(i) ==
        IF src.fu THEN -1
        ELSE IF src.rules[i].prec # "" THEN sn[src.rules[i].prec]
        ELSE LET seqs == [ j \in DOMAIN rules[i].rhs |-> cand(rules[i].rhs[j]) ]
                 nonempty == { j \in DOMAIN seqs : Len(seqs[j]) > 0 }
                 withp == { j \in nonempty : \E k \in DOMAIN seqs[j] : tprec[seqs[j][k]] > 0 }
             IN IF src.fz
                THEN \* the last terminal, and only that one
                     IF nonempty = {} THEN -1
                     ELSE LET s == seqs[MaxS(nonempty)] IN s[Len(s)]
                ELSE \* the first terminal that has a precedence
                     IF withp = {} THEN -1
                     ELSE LET s == seqs[MinS(withp)]
                          IN s[MinS({ k \in DOMAIN s : tprec[s[k]] > 0 })]
      rt    == TLCEval([ i \in DOMAIN rules |-> ruleTok(i) ])
  IN [ nT |-> Len(tn), nS |-> base + Len(mems), nNT |-> base, syms |-> names, num |-> num, rules |-> rules,
       cls |-> cls, tprec |-> tprec, tassoc |-> tassoc,
       rtok |-> rt,
       rprec |-> [ i \in DOMAIN rules |-> IF rt[i] = -1 THEN 0 ELSE tprec[rt[i]] ],
       start |-> num[IF src.start = "" THEN src.rules[1].lhs ELSE src.start] ]

StartKernel(g, a) == StartItems(a, g.start)

(***************************************************************************)
(* One cell: the shifts on a token (several when multi-terminals overlap), *)
(* then the reductions in rule order; each pair is settled in turn.        *)
(* Statuses: "ok" kept, "res" dropped by precedence, "csr"/"crr" dropped   *)
(* by a conflict with a shift / with another reduction, "err" made an      *)
(* error by a non-associative token.                                       *)
(***************************************************************************)
\* acts: sequence of [k : "s"/"r", n, st]; settle acts[j] against acts[i]
Settle(g, t, acts, i, j) ==
  LET x == acts[i] y == acts[j] IN
  IF x.k = "s" /\ y.k = "r" /\ x.st = "ok" /\ y.st = "ok" THEN
    LET pt == g.tprec[t] pr == g.rprec[y.n] IN
    IF pt = 0 \/ pr = 0 THEN [ acts EXCEPT ![j].st = "csr" ]
    ELSE IF pt > pr THEN [ acts EXCEPT ![j].st = "res" ]
    ELSE IF pt < pr THEN [ acts EXCEPT ![i].st = "res" ]
    ELSE IF g.tassoc[t] = "right" THEN [ acts EXCEPT ![j].st = "res" ]
    ELSE IF g.tassoc[t] = "left" THEN [ acts EXCEPT ![i].st = "res" ]
    ELSE [ acts EXCEPT ![i].st = "err", ![j].st = "res" ]
  ELSE IF x.st = "err" /\ y.st = "ok" THEN [ acts EXCEPT ![j].st = "res" ]
  ELSE IF x.k = "r" /\ y.k = "r" /\ x.st = "ok" /\ y.st = "ok" THEN
    LET px == g.rprec[x.n] py == g.rprec[y.n] IN
    IF px = 0 \/ py = 0 \/ px = py THEN [ acts EXCEPT ![j].st = "crr" ]
    ELSE IF px > py THEN [ acts EXCEPT ![j].st = "res" ]
    ELSE [ acts EXCEPT ![i].st = "res" ]
  ELSE acts

RECURSIVE SettleFrom(_, _, _, _, _)
SettleFrom(g, t, acts, i, j) ==
  IF i >= Len(acts) THEN acts
  ELSE IF j > Len(acts) THEN SettleFrom(g, t, acts, i + 1, i + 2)
  ELSE SettleFrom(g, t, TLCEval(Settle(g, t, acts, i, j)), i, j + 1)

RECURSIVE SortI(_)
SortI(S) == IF S = {} THEN <<>> ELSE << MinS(S) >> \o SortI(S \ { MinS(S) })

Cell(g, trans, red, t) ==
  LET sh == { trans[x] : x \in { y \in DOMAIN trans : y = t \/ (y \in DOMAIN g.cls /\ t \in g.cls[y]) } }
      rs == SortI({ r \in DOMAIN red : t \in red[r] })
      acts == (IF sh = {} THEN <<>> ELSE << [ k |-> "s", n |-> 0, st |-> "ok" ] >>) \o
              [ i \in DOMAIN rs |-> [ k |-> "r", n |-> rs[i], st |-> "ok" ] ]
      done == TLCEval(SettleFrom(g, t, acts, 1, 2))
      hasS == sh # {}
      reds == IF hasS THEN Tail(done) ELSE done
      conf(s) == Cardinality({ i \in DOMAIN reds : reds[i].st = s })
  IN [ sh |-> sh, sst |-> IF hasS THEN done[1].st ELSE "none", reds |-> reds,
       ss |-> IF hasS THEN Cardinality(sh) - 1 ELSE 0,
       sr |-> conf("csr"), rr |-> conf("crr") ]

CellsOf(g, trans, red) ==
  LET ts == TLCEval({ t \in 0..(g.nT-1) :
               \/ t \in DOMAIN trans
               \/ \E y \in DOMAIN trans : y \in DOMAIN g.cls /\ t \in g.cls[y]
               \/ \E r \in DOMAIN red : t \in red[r] })
  IN TLCEval([ t \in ts |-> TLCEval(Cell(g, trans, red, t)) ])

RECURSIVE SumSet(_, _)
SumSet(f, D) == IF D = {} THEN 0 ELSE LET x == CHOOSE y \in D : TRUE IN f[x] + SumSet(f, D \ {x})
SumCells(allcells, f(_)) ==
  SumSet([ s \in DOMAIN allcells |-> SumSet([ t \in DOMAIN allcells[s] |-> f(allcells[s][t]) ], DOMAIN allcells[s]) ], DOMAIN allcells)

(* what a cell finally does: << "s", targets >>, << "r", rule >>, << "e", 0 >> (declared an error) *)
Decision(c) ==
  LET ok == { i \in DOMAIN c.reds : c.reds[i].st = "ok" }
  IN IF c.sst = "ok" THEN << "s", c.sh >>
     ELSE IF c.sst = "err" THEN << "e", 0 >>
     ELSE IF ok = {} THEN << "e", 0 >>
     ELSE << "r", c.reds[MinS(ok)].n >>

Reduced(allcells) ==
  UNION { UNION { { c.n : c \in { x \in RangeOf(allcells[s][t].reds) : x.st = "ok" } }
          : t \in DOMAIN allcells[s] } : s \in DOMAIN allcells }
Unreducible(g, allcells) == RuleIds(g) \ Reduced(allcells)
=============================================================================

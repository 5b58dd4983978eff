-------------------------------- MODULE LR --------------------------------
(***************************************************************************)
(* The LR(0) automaton and the LALR(1) lookahead sets of a grammar, as a   *)
(* state machine: kernels are discovered level by level, and lookaheads    *)
(* are propagated in sweeps until nothing changes.  a is the record        *)
(* computed by Grammar!Analyse.                                            *)
(***************************************************************************)
EXTENDS Grammar

(* nonterminals in the closure of a kernel *)
ClosureNTs(g, a, ker) ==
  UNION { a.reach[a.next[i]] : i \in { j \in ker : a.next[j] >= g.nT } }
StartItems(a, A) == { (r-1) * a.K : r \in a.prods[A] }
ClosureItems(g, a, ker) ==
  ker \cup UNION { StartItems(a, A) : A \in ClosureNTs(g, a, ker) }

GotoFn(g, a, ker) ==
  LET C == TLCEval({ i \in ClosureItems(g, a, ker) : a.next[i] >= 0 })
      X == TLCEval({ a.next[i] : i \in C })
  IN TLCEval([ x \in X |-> { i + 1 : i \in { j \in C : a.next[j] = x } } ])

RECURSIVE SetToSeqI(_)
SetToSeqI(S) == IF S = {} THEN <<>>
                ELSE LET x == CHOOSE y \in S : TRUE IN <<x>> \o SetToSeqI(S \ {x})

(***************************************************************************)
(* One level of discovery: kernels is a sequence; the states from          *)
(* position `from' on have not been expanded: their goto functions         *)
(* (symbol -> kernel), and the kernels that are new in those.              *)
(***************************************************************************)
ExpandGotos(g, a, kernels, from) ==
  TLCEval([ s \in 1..(Len(kernels) - from + 1) |-> GotoFn(g, a, kernels[from + s - 1]) ])
NewKernels(kernels, gotos) ==
  SetToSeqI(TLCEval(UNION { RangeOf(gotos[s]) : s \in DOMAIN gotos } \ RangeOf(kernels)))

(* transitions as state numbers, once all kernels are known *)
Number(kernels, kgoto) ==
  LET idx == TLCEval([ k \in RangeOf(kernels) |-> CHOOSE s \in DOMAIN kernels : kernels[s] = k ])
  IN [ s \in DOMAIN kernels |-> [ x \in DOMAIN kgoto[s] |-> idx[kgoto[s][x]] ] ]

(***************************************************************************)
(* Lookaheads.  la[s][i] is the set of terminals that may follow kernel    *)
(* item i of state s; Ctx gives the lookaheads of the closure of s.        *)
(***************************************************************************)
Ctx(g, a, ker, las) ==
  LET src == { j \in ker : a.next[j] >= g.nT }
      follow == TLCEval([ j \in src |-> a.rf[j] \cup (IF a.rn[j] THEN las[j] ELSE {}) ])
      C == UNION { a.reach[a.next[j]] : j \in src }
  IN [ B \in C |->
        UNION { a.sp[a.next[j]][B] : j \in { q \in src : B \in a.reach[a.next[q]] } }
        \cup UNION { follow[j] : j \in { q \in src : B \in a.pr[a.next[q]] } } ]

InitLA(g, a, kernels, start, startLA) ==
  [ s \in DOMAIN kernels |-> [ i \in kernels[s] |-> IF s = start THEN startLA ELSE {} ] ]

(* what state s contributes to the kernel items of its successors *)
RECURSIVE PushAll(_, _, _, _, _)
PushAll(g, a, trans, la, s) ==
  IF s > Len(la) THEN la
  ELSE LET ker == DOMAIN la[s]
           ctx == TLCEval(Ctx(g, a, ker, la[s]))
           up(i) == IF i \in ker THEN la[s][i] ELSE ctx[g.rules[ItemRule(a, i)].lhs]
           dst == RangeOf(trans[s])
           la2 == TLCEval([ t \in DOMAIN la |->
                    IF t \notin dst THEN la[t]
                    ELSE [ k \in DOMAIN la[t] |->
                            \* k-1 belongs to the closure of s exactly when s goes to t
                            la[t][k] \cup up(k-1) ] ])
       IN PushAll(g, a, trans, la2, s+1)

Sweep(g, a, trans, la) == PushAll(g, a, trans, la, 1)

(* reductions of a state: function rule index -> lookahead set *)
Reductions(g, a, las) ==
  LET ker == DOMAIN las
      ctx == TLCEval(Ctx(g, a, ker, las))
      done == { i \in ker : a.next[i] = -1 }
      eps == { r \in UNION { a.prods[B] : B \in DOMAIN ctx } : Len(g.rules[r].rhs) = 0 }
  IN [ r \in { ItemRule(a, i) : i \in done } \cup eps |->
        UNION { las[i] : i \in { j \in done : ItemRule(a, j) = r } }
        \cup (IF r \in eps THEN ctx[g.rules[r].lhs] ELSE {}) ]
=============================================================================

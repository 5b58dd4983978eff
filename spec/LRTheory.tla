------------------------------ MODULE LRTheory ------------------------------
(***************************************************************************)
(* Is the automaton of LR.tla the right one?  For every small grammar:     *)
(*  - its lookaheads are those of the canonical LR(1) collection with      *)
(*    states of equal core merged (the definition of LALR(1)), and its     *)
(*    states are the cores;                                                *)
(*  - when no cell holds two actions, the machine accepts exactly the      *)
(*    strings the grammar derives, and it never shifts a token that no     *)
(*    sentence with the prefix read so far continues with;                 *)
(*  - byacc's conflict resolution leaves at most one action per cell and   *)
(*    only removes actions; and the actions kept are among the conflicting *)
(*    ones.                                                                *)
(***************************************************************************)
EXTENDS LR, IOUtils

CONSTANTS MaxRules, MaxLen, StrLen

\* terminals 0 ($end), 1, 2; nonterminals 3 ($accept), 4 (start), 5
NT2 == {4, 5}
Rhss == UNION { [1..n -> {1, 2, 4, 5}] : n \in 0..MaxLen }
Prods == { [ lhs |-> A, rhs |-> r ] : A \in NT2, r \in Rhss }

VARIABLES rs, phase, g, a, kernels, kgoto, trans, la
vars == << rs, phase, g, a, kernels, kgoto, trans, la >>

GrammarOf(S) == [ nT |-> 3, nS |-> 6, cls |-> <<>>, rules |-> << [ lhs |-> 3, rhs |-> << 4 >> ] >> \o SetToSeqI(S) ]

Init == /\ rs = {} /\ phase = "choose" /\ g = 0 /\ a = 0 /\ kernels = <<>> /\ kgoto = <<>>
        /\ trans = <<>> /\ la = <<>>

Code(p) == p.lhs * 1000 + Len(p.rhs) * 100 + (IF Len(p.rhs) > 0 THEN p.rhs[1] * 10 ELSE 0)
           + (IF Len(p.rhs) > 1 THEN p.rhs[2] ELSE 0) + (IF Len(p.rhs) > 2 THEN 500 * p.rhs[3] ELSE 0)
AddRule ==
  /\ phase = "choose" /\ Cardinality(rs) < MaxRules
  /\ \E p \in Prods : /\ \A q \in rs : Code(q) < Code(p)
                      /\ rs' = rs \cup { p }
  /\ UNCHANGED << phase, g, a, kernels, kgoto, trans, la >>

Build ==
  /\ phase = "choose" /\ \E p \in rs : p.lhs = 4
  /\ phase' = "lr0"
  /\ g' = GrammarOf(rs)
  /\ a' = TLCEval(Analyse(g'))
  /\ kernels' = << {0} >>
  /\ UNCHANGED << rs, kgoto, trans, la >>
Discover ==
  /\ phase = "lr0" /\ Len(kgoto) < Len(kernels)
  /\ kgoto' = kgoto \o ExpandGotos(g, a, kernels, Len(kgoto) + 1)
  /\ kernels' = kernels \o NewKernels(kernels, SubSeq(kgoto', Len(kgoto) + 1, Len(kernels)))
  /\ UNCHANGED << rs, phase, g, a, trans, la >>
StartPropagation ==
  /\ phase = "lr0" /\ Len(kgoto) = Len(kernels)
  /\ trans' = TLCEval(Number(kernels, kgoto))
  /\ la' = TLCEval(InitLA(g, a, kernels, 1, {0}))
  /\ phase' = "la"
  /\ UNCHANGED << rs, g, a, kernels, kgoto >>
Propagate ==
  /\ phase = "la"
  /\ la' = TLCEval(Sweep(g, a, trans, la))
  /\ phase' = IF la' = la THEN "built" ELSE "la"
  /\ UNCHANGED << rs, g, a, kernels, kgoto, trans >>

Next == AddRule \/ Build \/ Discover \/ StartPropagation \/ Propagate
Spec == Init /\ [][Next]_vars

---------------------------------------------------------------------------
(* canonical LR(1), by the book *)
RECURSIVE Close1(_)
Close1(I) ==
  LET new == TLCEval(UNION { UNION { { << i, t >> : i \in StartItems(a, a.next[x[1]]),
                                   t \in a.rf[x[1]] \cup (IF a.rn[x[1]] THEN { x[2] } ELSE {}) }
                           : x \in { y \in I : a.next[y[1]] >= g.nT } } })
  IN IF new \subseteq I THEN I ELSE Close1(I \cup new)
Goto1(I, X) == Close1({ << x[1] + 1, x[2] >> : x \in { y \in I : a.next[y[1]] = X } })
RECURSIVE Collect1(_, _)
Collect1(done, todo) ==
  IF todo = {} THEN done
  ELSE LET new == TLCEval(UNION { { Goto1(I, X) : X \in { a.next[x[1]] : x \in I } \ {-1} } : I \in todo })
       IN Collect1(done \cup todo, new \ (done \cup todo))
LR1 == Collect1({}, { Close1({ << 0, 0 >> }) })
IsKernelItem(i) == ItemDot(a, i) > 0 \/ i = 0
Core(I) == { x[1] : x \in { y \in I : IsKernelItem(y[1]) } }

\* every symbol in a rule derives some string (otherwise lookahead sets may be
\* empty and LR(1) items vanish, while the states remain)
AllProductive == \A r \in RuleIds(g) : \A i \in DOMAIN g.rules[r].rhs :
                   g.rules[r].rhs[i] < 3 \/ g.rules[r].rhs[i] \in Productive(g)
LalrIsMergedLR1 ==
  phase = "built" /\ AllProductive =>
    LET C == TLCEval(LR1)
    IN /\ { Core(I) : I \in C } = RangeOf(kernels)
       /\ \A s \in DOMAIN kernels :
            \A i \in kernels[s] :
              la[s][i] = UNION { { x[2] : x \in { y \in I : y[1] = i } }
                                 : I \in { J \in C : Core(J) = kernels[s] } }
       /\ \A s \in DOMAIN kernels :
            LET red == Reductions(g, a, la[s]) IN
            \A r \in DOMAIN red :
              red[r] = UNION { { x[2] : x \in { y \in I : y[1] = (r-1) * a.K + Len(g.rules[r].rhs) } }
                               : I \in { J \in C : Core(J) = kernels[s] } }

(* the language, up to strings of length StrLen *)
Cat(X, Y) == { s \o t : s \in X, t \in Y }
Trim(X) == { s \in X : Len(s) <= StrLen }
RECURSIVE SeqLang(_, _, _)
SeqLang(L, rhs, i) == IF i > Len(rhs) THEN { <<>> }
                      ELSE Trim(Cat(IF rhs[i] < 3 THEN { << rhs[i] >> } ELSE L[rhs[i]], SeqLang(L, rhs, i+1)))
RECURSIVE LangFix(_)
LangFix(L) == LET M == TLCEval([ A \in {4, 5} |-> UNION { SeqLang(L, g.rules[r].rhs, 1) : r \in a.prods[A] } ])
              IN IF M = L THEN L ELSE LangFix(M)
Lang == LangFix([ A \in {4, 5} |-> {} ])[4]
PreSym(P, x) == IF x < 3 THEN { <<>>, << x >> } ELSE P[x]
RECURSIVE PreFix(_, _)
PreFix(L, P) ==
  LET M == TLCEval([ A \in {4, 5} |-> P[A] \cup UNION { UNION { 
                Trim(Cat(SeqLang(L, SubSeq(g.rules[r].rhs, 1, k-1), 1), PreSym(P, g.rules[r].rhs[k])))
                : k \in DOMAIN g.rules[r].rhs } : r \in a.prods[A] } ])
  IN IF M = P THEN P ELSE PreFix(L, M)
Prefixes == PreFix(LangFix([ A \in {4, 5} |-> {} ]), [ A \in {4, 5} |-> { <<>> } ])[4]
Strings == UNION { [1..n -> {1, 2}] : n \in 0..StrLen }

RedFn == [ s \in DOMAIN kernels |-> TLCEval(Reductions(g, a, la[s])) ]
Deterministic(red) ==
  \A s \in DOMAIN kernels : \A t \in {0, 1, 2} :
    LET n == Cardinality({ r \in DOMAIN red[s] : t \in red[s][r] }) IN
    n = 0 \/ (n = 1 /\ t \notin DOMAIN trans[s])

(* the machine on an input: "acc", or the number of tokens shifted before the error *)
RECURSIVE RunLR(_, _, _, _)
RunLR(red, stack, w, i) ==
  LET s == stack[Len(stack)]
      t == IF i > Len(w) THEN 0 ELSE w[i]
      R == { r \in DOMAIN red[s] : t \in red[s][r] }
  IN IF t # 0 /\ t \in DOMAIN trans[s] THEN RunLR(red, Append(stack, trans[s][t]), w, i + 1)
     ELSE IF R = {} THEN i - 1
     ELSE LET r == CHOOSE x \in R : TRUE
              below == SubSeq(stack, 1, Len(stack) - Len(g.rules[r].rhs))
          IN IF r = 1 THEN -1
             ELSE RunLR(red, Append(below, trans[below[Len(below)]][g.rules[r].lhs]), w, i)

MachineAcceptsTheLanguage ==
  phase = "built" =>
    LET red == TLCEval(RedFn) IN
    Deterministic(red) =>
      LET L == TLCEval(Lang)
          P == TLCEval(Prefixes)
      IN \A w \in Strings :
           LET n == RunLR(red, << 1 >>, w, 1)
           IN /\ (n = -1) = (w \in L)
              \* correct prefix: what was shifted is always the beginning of a sentence
              /\ (n >= 0 /\ AllProductive => SubSeq(w, 1, n) \in P)
=============================================================================

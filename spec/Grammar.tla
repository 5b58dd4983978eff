------------------------------ MODULE Grammar ------------------------------
(***************************************************************************)
(* Context-free grammars over small integers, and the set-valued analyses  *)
(* every LR construction needs.  A grammar g is a record                   *)
(*    nT     symbols 0..nT-1 are terminals; 0 is the end of the input      *)
(*    nS     symbols nT..nS-1 are nonterminals                             *)
(*    rules  sequence of [lhs : nonterminal, rhs : Seq(symbol)]            *)
(*    cls    for the nonterminals that stand for "any one of these         *)
(*           terminals" (lemon's multi-terminals): the set of them         *)
(* Rule indices are 1-based here.  An item is the integer                  *)
(*    (rule-1) * K + dot                                                   *)
(* where K exceeds every dot position.                                     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

RangeOf(f) == { f[x] : x \in DOMAIN f }
MinS(S) == CHOOSE x \in S : \A y \in S : x <= y
MaxS(S) == CHOOSE x \in S : \A y \in S : x >= y

IsTerm(g, x)  == x < g.nT
NTs(g)        == g.nT .. (g.nS - 1)
Terms(g)      == 0 .. (g.nT - 1)
RuleIds(g)    == 1 .. Len(g.rules)

RECURSIVE UnionAll(_, _)
UnionAll(f(_), S) == UNION { f(x) : x \in S }

(* ---- nullable nonterminals: least fixpoint ---------------------------- *)
RECURSIVE NullFix(_, _)
NullFix(g, N) ==
  LET M == TLCEval({ g.rules[r].lhs : r \in { q \in RuleIds(g) :
                     \A i \in 1..Len(g.rules[q].rhs) : g.rules[q].rhs[i] \in N } })
  IN IF M \subseteq N THEN N ELSE NullFix(g, N \cup M)
Nullable(g) == NullFix(g, {})

(* ---- productive nonterminals: derive some terminal string ------------- *)
RECURSIVE ProdFix(_, _)
ProdFix(g, N) ==
  LET M == TLCEval({ g.rules[r].lhs : r \in { q \in RuleIds(g) :
             \A i \in 1..Len(g.rules[q].rhs) :
                  IsTerm(g, g.rules[q].rhs[i]) \/ g.rules[q].rhs[i] \in N } })
  IN IF M \subseteq N THEN N ELSE ProdFix(g, N \cup M)
Productive(g) == ProdFix(g, {})

(* ---- FIRST: least fixpoint over functions NT -> SUBSET Terms ---------- *)
RECURSIVE SeqFirstF(_, _, _, _, _)
SeqFirstF(g, nul, F, s, i) ==      \* FIRST of s from position i on
  IF i > Len(s) THEN {}
  ELSE IF IsTerm(g, s[i]) THEN {s[i]}
  ELSE IF s[i] \in nul THEN F[s[i]] \cup SeqFirstF(g, nul, F, s, i+1)
  ELSE F[s[i]]

RECURSIVE FirstFix(_, _, _, _)
FirstFix(g, nul, prods, F) ==
  LET F2 == TLCEval([ A \in NTs(g) |->
              F[A] \cup UNION { SeqFirstF(g, nul, F, g.rules[r].rhs, 1) : r \in prods[A] } ])
  IN IF F2 = F THEN F ELSE FirstFix(g, nul, prods, F2)

FirstInit(g) == [ A \in NTs(g) |-> IF A \in DOMAIN g.cls THEN g.cls[A] ELSE {} ]
ProdsOf(g) == [ A \in NTs(g) |-> { r \in RuleIds(g) : g.rules[r].lhs = A } ]
FirstOf(g) == FirstFix(g, Nullable(g), TLCEval(ProdsOf(g)), FirstInit(g))

SeqNullable(nul, s, i) == \A j \in i..Len(s) : s[j] \in nul

(* ---- reachability A =>* B... (B leftmost): closure of nonterminals ---- *)
RECURSIVE ReachFix(_, _, _)
ReachFix(g, step, R) ==
  LET R2 == TLCEval([ A \in NTs(g) |-> R[A] \cup UNION { step[B] : B \in R[A] } ])
  IN IF R2 = R THEN R ELSE ReachFix(g, step, R2)

(***************************************************************************)
(* Everything derived from the grammar alone that the automaton needs,     *)
(* gathered in one record so that it is computed once per grammar:         *)
(*   K, prods, next[item] (symbol after the dot or -1),                    *)
(*   rf[item] / rn[item]  FIRST and nullability of what follows the symbol *)
(*                        after the dot,                                   *)
(*   reach[A]             nonterminals in the closure of A,                *)
(*   sp[A][B]             terminals that may follow B inside the closure   *)
(*                        of A whatever follows A ("spontaneous"),         *)
(*   pr[A]                the B to which what follows A propagates.        *)
(***************************************************************************)
ItemRule(a, i) == (i \div a.K) + 1
ItemDot(a, i)  == i % a.K

RECURSIVE PropFix(_, _)
PropFix(step, P) ==
  LET P2 == TLCEval([ A \in DOMAIN P |-> P[A] \cup UNION { step[B] : B \in P[A] } ])
  IN IF P2 = P THEN P ELSE PropFix(step, P2)

(* sp[A][B] = UNION over C in reach[A] of direct[C][B'] for B' that        *)
(* propagates to B.  direct[C] is the set of <<B', terminals>> pairs.      *)
Analyse(g) ==
  LET nR   == Len(g.rules)
      K    == 1 + MaxS({0} \cup { Len(g.rules[r].rhs) : r \in RuleIds(g) }) 
      nul  == TLCEval(Nullable(g))
      prods == TLCEval(ProdsOf(g))
      F    == FirstFix(g, nul, prods, FirstInit(g))
      next == TLCEval([ i \in 0 .. (nR*K - 1) |->
                LET rhs == g.rules[(i \div K) + 1].rhs d == i % K
                IN IF d < Len(rhs) THEN rhs[d+1] ELSE -1 ])
      rf   == TLCEval([ i \in 0 .. (nR*K - 1) |->
                LET rhs == g.rules[(i \div K) + 1].rhs d == i % K
                IN SeqFirstF(g, nul, F, rhs, d+2) ])
      rn   == TLCEval([ i \in 0 .. (nR*K - 1) |->
                LET rhs == g.rules[(i \div K) + 1].rhs d == i % K
                IN SeqNullable(nul, rhs, d+2) ])
      start == [ A \in NTs(g) |-> { (r-1)*K : r \in prods[A] } ]
      step == TLCEval([ A \in NTs(g) |-> { next[i] : i \in start[A] } \cap NTs(g) ])
      reach == ReachFix(g, step, TLCEval([ A \in NTs(g) |-> {A} ]))
      pstep == TLCEval([ A \in NTs(g) |->
                 { next[i] : i \in { j \in start[A] : rn[j] } } \cap NTs(g) ])
      pr   == PropFix(pstep, TLCEval([ A \in NTs(g) |-> {A} ]))
      direct == TLCEval([ C \in NTs(g) |->
                  [ B \in step[C] |-> UNION { rf[i] : i \in { j \in start[C] : next[j] = B } } ] ])
      sp   == TLCEval([ A \in NTs(g) |-> [ B \in reach[A] |->
                UNION { UNION { direct[C][D] : D \in { E \in step[C] : B \in pr[E] } }
                        : C \in reach[A] } ] ])
  IN [ K |-> K, prods |-> prods, nul |-> nul, first |-> F, next |-> next,
       rf |-> rf, rn |-> rn, reach |-> reach, pr |-> pr, sp |-> sp ]
=============================================================================

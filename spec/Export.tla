-------------------------------- MODULE Export --------------------------------
(***************************************************************************)
(* When does an exported grammar say the same as the grammar it came from? *)
(* Both are reduced to what decides the language:                          *)
(*    toks   the set of token names                                        *)
(*    prec   set of [t, p, a]: token t has level p and associativity a     *)
(*    start  the start symbol                                              *)
(*    rules  sequence of [lhs, rhs, prec]; prec is the name in an explicit *)
(*           precedence mark, "" without one                               *)
(* Levels only matter by their order.  An export may rename symbols (the   *)
(* other tools do not take every name); it must then rename them           *)
(* consistently: one new name for every old one, no two the same, tokens   *)
(* to tokens.                                                              *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

Levels(P) == { e.p : e \in P.prec }
Rank(P, p) == Cardinality({ q \in Levels(P) : q < p })
HasPrec(P, t) == \E e \in P.prec : e.t = t
PrecOf(P, t) == IF HasPrec(P, t) THEN LET e == CHOOSE x \in P.prec : x.t = t IN << Rank(P, e.p), e.a >> ELSE << -1, "none" >>

(* ---- the rules ---------------------------------------------------------- *)
SameShape(P, Q) ==
  /\ Len(P.rules) = Len(Q.rules)
  /\ \A i \in DOMAIN P.rules : Len(P.rules[i].rhs) = Len(Q.rules[i].rhs)

\* the renaming that the rules show, as a set of pairs
Shown(P, Q) ==
  UNION { { << P.rules[i].lhs, Q.rules[i].lhs >> } \cup { << P.rules[i].rhs[j], Q.rules[i].rhs[j] >> : j \in DOMAIN P.rules[i].rhs } : i \in DOMAIN P.rules }
Consistent(M) == \A x, y \in M : (x[1] = y[1]) = (x[2] = y[2])
Identical(M) == \A x \in M : x[1] = x[2]

\* marks: every one is there and names the same token
MarkPairs(P, Q) == { << P.rules[i].prec, Q.rules[i].prec >> : i \in { k \in DOMAIN P.rules : P.rules[k].prec # "" /\ Q.rules[k].prec # "" } }
MarksThere(P, Q) == \A i \in DOMAIN P.rules : (P.rules[i].prec = "") = (Q.rules[i].prec = "")

(* ---- tokens and precedences ---------------------------------------------- *)
TokensKept(P, Q, M) == \A x \in M : (x[1] \in P.toks) = (x[2] \in Q.toks)
\* tokens that no rule mentions: only how many there are of which precedence can be compared under a renaming
Rest(T, D) == T \ (D \cup { "error" })
Kinds(P, T) == { PrecOf(P, t) : t \in T }
CountOf(P, T, k) == Cardinality({ t \in T : PrecOf(P, t) = k })
RestKept(P, Q, M) ==
  LET p == TLCEval(Rest(P.toks, { x[1] : x \in M }))  q == TLCEval(Rest(Q.toks, { x[2] : x \in M }))
  IN \A k \in Kinds(P, p) \cup Kinds(Q, q) : CountOf(P, p, k) = CountOf(Q, q, k)
PrecsKept(P, Q, M) == \A x \in M : x[1] \in P.toks => PrecOf(P, x[1]) = PrecOf(Q, x[2])

F(ok, tag) == IF ok THEN {} ELSE { tag }

(* what: which parts this kind of export carries                              *)
Compare(P, Q, what) ==
  IF ~SameShape(P, Q) THEN { "rules" }
  ELSE LET M0 == TLCEval(Shown(P, Q))
           M1 == TLCEval(M0 \cup (IF "start" \in what THEN { << P.start, Q.start >> } ELSE {}))
           M  == TLCEval(M1 \cup (IF "marks" \in what THEN MarkPairs(P, Q) ELSE {}))
       IN F(IF "same" \in what THEN Identical(M0) ELSE Consistent(M0), "symbols") \cup
          F(IF "same" \in what THEN Identical(M1) ELSE Consistent(M1), "start") \cup
          (IF "marks" \in what THEN F(MarksThere(P, Q) /\ (IF "same" \in what THEN Identical(M) ELSE Consistent(M)), "marks") ELSE {}) \cup
          (IF "tokens" \in what THEN F(IF "same" \in what THEN P.toks \cup {"error"} = Q.toks \cup {"error"} ELSE TokensKept(P, Q, M) /\ RestKept(P, Q, M), "tokens") ELSE {}) \cup
          (IF "prec" \in what THEN F(PrecsKept(P, Q, M), "precedences") ELSE {}) \cup
          (IF {"prec", "same"} \subseteq what THEN F(\A t \in P.toks : PrecOf(P, t) = PrecOf(Q, t), "precedences") ELSE {})

(* ---- multi-terminals written out ------------------------------------------- *)
\* alt: for every symbol the sequence of the names that may be written for it
RECURSIVE Written(_, _, _)
Written(rhs, i, alt) ==
  IF i > Len(rhs) THEN { <<>> }
  ELSE { << alt[rhs[i]][h] >> \o r : h \in DOMAIN alt[rhs[i]], r \in Written(rhs, i + 1, alt) }
RECURSIVE Product(_, _, _)
Product(rhs, i, alt) == IF i > Len(rhs) THEN 1 ELSE Len(alt[rhs[i]]) * Product(rhs, i + 1, alt)

\* for every rule of the written-out grammar, the rule of P it comes from
RECURSIVE Origin(_, _, _)
Origin(P, i, alt) ==
  IF i > Len(P.rules) THEN <<>> ELSE [ j \in 1 .. Product(P.rules[i].rhs, 1, alt) |-> i ] \o Origin(P, i + 1, alt)

\* the rules of Q, rule by rule of P, are all that P's rules stand for
WrittenOut(P, Q, alt, org) ==
  /\ Len(Q.rules) = Len(org)
  /\ \A k \in DOMAIN org : Q.rules[k].lhs = P.rules[org[k]].lhs
  /\ \A i \in DOMAIN P.rules : { Q.rules[k].rhs : k \in { m \in DOMAIN org : org[m] = i } } = Written(P.rules[i].rhs, 1, alt)
=============================================================================

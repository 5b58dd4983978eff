-------------------------- MODULE LemonExportTrace --------------------------
(***************************************************************************)
(* Conformance of lemon's grammar exports.  A case is a source grammar,    *)
(* what lemon printed for it (-g, -y, -Y, the SQL script of -S and the     *)
(* grammar its view prints), and whether lemon itself makes the same of    *)
(* the reprinted grammar.  One behaviour per case, as in ByaccExportTrace. *)
(***************************************************************************)
EXTENDS Export, Json, IOUtils
B == INSTANCE Byacc
BR == INSTANCE ByaccReader
L == INSTANCE Lemon
LRd == INSTANCE LemonReader

Cases == ndJsonDeserialize(IOEnv.CASES)

VARIABLES cid, phase, g, plain, k, txt, rd, fails
vars == << cid, phase, g, plain, k, txt, rd, fails >>
Case == Cases[cid]
X == Case.exports[k]
Src == Case.src

Elems(s) == { s[i] : i \in DOMAIN s }
IsCls(src, n) == \E c \in DOMAIN src.cls : src.cls[c].n = n
Cls(src, n) == src.cls[CHOOSE c \in DOMAIN src.cls : src.cls[c].n = n]
\* multi-terminals under the text of their members
Text(src, n) == IF IsCls(src, n) THEN Cls(src, n).t ELSE n
Precs(e) == { [ t |-> e.syms[t + 1], p |-> e.tprec[t], a |-> e.tassoc[t] ] : t \in { u \in 1..(e.nT - 1) : e.tprec[u] > 0 } }
Toks(e) == { e.syms[t + 1] : t \in 1..(e.nT - 1) }
OfLemon(src, e) ==
  [ toks |-> Toks(e), prec |-> Precs(e), start |-> IF src.start = "" THEN src.rules[1].lhs ELSE src.start,
    rules |-> [ i \in DOMAIN src.rules |-> [ lhs |-> src.rules[i].lhs, prec |-> src.rules[i].prec,
                                             rhs |-> [ j \in DOMAIN src.rules[i].rhs |-> Text(src, src.rules[i].rhs[j]) ] ] ] ]
OfRecord(r) ==
  [ toks |-> Elems(r.toks), prec |-> Elems(r.prec), start |-> r.start, rules |-> r.rules ]

Init ==
  /\ cid \in DOMAIN Cases
  /\ phase = "source" /\ g = 0 /\ plain = 0 /\ k = 0 /\ txt = 0 /\ rd = 0 /\ fails = {}

Source ==
  /\ phase = "source"
  /\ g' = TLCEval(L!Elaborate(Src))
  /\ plain' = TLCEval(OfLemon(Src, g'))
  /\ phase' = "next"
  /\ UNCHANGED << cid, k, txt, rd, fails >>

Next1 ==
  /\ phase = "next"
  /\ k < Len(Case.exports)
  /\ k' = k + 1
  /\ txt' = TLCEval(IF Case.exports[k'].fmt = "yacc" THEN BR!Lines(Case.exports[k'].text) ELSE IF Case.exports[k'].fmt = "lemon" THEN Case.exports[k'].text ELSE 0)
  /\ rd' = TLCEval(IF Case.exports[k'].fmt = "yacc" THEN BR!Reader0 ELSE IF Case.exports[k'].fmt = "lemon" THEN LRd!Reader0 ELSE 0)
  /\ phase' = IF Case.exports[k'].fmt = "rec" THEN "read" ELSE "text"
  /\ UNCHANGED << cid, g, plain, fails >>

ReadYacc ==
  /\ phase = "text" /\ X.fmt = "yacc"
  /\ rd' = TLCEval(BR!ReaderSteps(txt, rd, FALSE, 60))
  /\ phase' = IF rd'.i < 0 \/ rd'.mode = "end" THEN "read" ELSE "text"
  /\ UNCHANGED << cid, g, plain, k, txt, fails >>
ReadLemon ==
  /\ phase = "text" /\ X.fmt = "lemon"
  /\ rd' = TLCEval(LRd!ReaderSteps(txt, rd, Src.fu, 60))
  /\ phase' = IF LRd!ReaderDone(txt, rd') THEN "read" ELSE "text"
  /\ UNCHANGED << cid, g, plain, k, txt, fails >>

(* ---- lemon's notation: everything but codes and types ---------------------- *)
FallbackOf(fb) == { << fb[i][1], fb[i][2] >> : i \in DOMAIN fb }
InLemon ==
  IF LRd!AtEnd(rd).errs # <<>> \/ rd.rules = <<>> \/ rd.odd THEN { "unreadable" }
  ELSE LET s == TLCEval(LRd!Denotes(rd, Src.fu, FALSE))
           e == TLCEval(L!Elaborate(s))
       IN Compare(plain, TLCEval(OfLemon(s, e)), { "same", "start", "tokens", "prec", "marks" }) \cup
          F(s.terms = Src.terms, "token-order") \cup
          F(s.wildcard = Src.wildcard, "wildcard") \cup
          F(FallbackOf(s.fallback) = FallbackOf(Src.fallback), "fallback") \cup
          (IF X.k = "g" THEN F(s.fz = Src.fz, "rule-precedence-mode") ELSE {})

(* ---- yacc's notation: multi-terminals are written out ------------------------ *)
Members(n) == IF IsCls(Src, n) THEN Cls(Src, n).m ELSE << n >>
Alt == [ n \in UNION { Elems(Src.rules[i].rhs) : i \in DOMAIN Src.rules } |-> Members(n) ]
\* the rule's precedence in the eyes of lemon is not settled by the terminals of the written-out rule
Mixed(i) == Src.fz /\ g.rprec[i] = 0 /\ \E j \in DOMAIN Src.rules[i].rhs : IsCls(Src, Src.rules[i].rhs[j])
EffOK(Q, e, org, P) ==
  \A q \in DOMAIN org : Mixed(org[q]) \/
     (IF g.rprec[org[q]] = 0 THEN e.rprec[q + 1] = 0
      ELSE e.rprec[q + 1] > 0 /\ Rank(P, g.rprec[org[q]]) = Rank(Q, e.rprec[q + 1]))
InYacc ==
  IF rd.i < 0 \/ ~BR!Defined(rd) THEN { "unreadable" }
  ELSE LET s == TLCEval(BR!Denoted(rd, FALSE, FALSE, FALSE))
           e == TLCEval(B!Elaborate(s))
           Q == TLCEval([ toks |-> Toks(e), prec |-> Precs(e), rules |-> s.rules ])
           P == TLCEval([ plain EXCEPT !.rules = Src.rules ])
           alt == TLCEval(Alt)
           org == TLCEval(Origin(P, 1, alt))
       IN IF ~WrittenOut(P, Q, alt, org) THEN { "rules" }
          ELSE F(B!StartName(s) = P.start, "start") \cup
               F(Q.toks \cup { "error" } = P.toks \cup { "error" }, "tokens") \cup
               F(\A t \in P.toks : PrecOf(P, t) = PrecOf(Q, t), "precedences") \cup
               (IF X.k = "y" THEN F(\A q \in DOMAIN org : Q.rules[q].prec = P.rules[org[q]].prec, "marks")
                ELSE F(EffOK(Q, e, org, P), "rule-precedences"))

InTables ==
  IF ~X.ok THEN { "unreadable" }
  ELSE Compare(plain, TLCEval(OfRecord(X.rec)), { "same", "start", "tokens", "prec", "marks" }) \cup
       F(X.rec.wild = Src.wildcard, "wildcard") \cup F(FallbackOf(X.rec.fb) = FallbackOf(Src.fallback), "fallback")

Tagged(S) == { X.k \o "-" \o f : f \in S }
Judge ==
  /\ phase = "read"
  /\ fails' = TLCEval(fails \cup Tagged((IF X.fmt = "lemon" THEN InLemon ELSE IF X.fmt = "yacc" THEN InYacc ELSE InTables) \cup F(X.same, "again")))
  /\ phase' = "next"
  /\ txt' = 0 /\ rd' = 0
  /\ UNCHANGED << cid, g, plain, k >>

Done ==
  /\ phase = "next"
  /\ k = Len(Case.exports)
  /\ phase' = "done"
  /\ PrintT(ToJson([ verdict |-> Case.id, fails |-> fails, kind |-> ToString(k) ]))
  /\ UNCHANGED << cid, g, plain, k, txt, rd, fails >>

Next == Source \/ Next1 \/ ReadYacc \/ ReadLemon \/ Judge \/ Done
Spec == Init /\ [][Next]_vars
Conforms == fails = {}
=============================================================================

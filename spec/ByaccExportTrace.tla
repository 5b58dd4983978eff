-------------------------- MODULE ByaccExportTrace --------------------------
(***************************************************************************)
(* Conformance of byacc's grammar converters.  A case is a source grammar, *)
(* the texts the converters wrote for it, and what the tools make of them  *)
(* when they read them.  The exports in byacc's notation are read by the   *)
(* machine of ByaccReader, those in lemon's by LemonReader, those in other *)
(* notations come as records.  One behaviour per case: the source is       *)
(* elaborated, then every export is read and compared with it.             *)
(***************************************************************************)
EXTENDS Export, Json, IOUtils
B == INSTANCE Byacc
BR == INSTANCE ByaccReader
L == INSTANCE Lemon
LRd == INSTANCE LemonReader

Cases == ndJsonDeserialize(IOEnv.CASES)

VARIABLES cid, phase, plain, k, txt, rd, fails
vars == << cid, phase, plain, k, txt, rd, fails >>
Case == Cases[cid]
X == Case.exports[k]

\* what byacc's notation says about a source record
OfByacc(src, g) ==
  [ toks |-> { g.syms[t + 1] : t \in 1..(g.nT - 1) },
    prec |-> { [ t |-> g.syms[t + 1], p |-> g.tprec[t], a |-> g.tassoc[t] ] : t \in { u \in 1..(g.nT - 1) : g.tprec[u] > 0 } },
    start |-> B!StartName(src),
    rules |-> [ i \in DOMAIN src.rules |-> [ lhs |-> src.rules[i].lhs, rhs |-> SelectSeq(src.rules[i].rhs, LAMBDA x : x # "{}"),
                                             prec |-> src.rules[i].prec ] ] ]
OfLemon(src, g) ==
  [ toks |-> { g.syms[t + 1] : t \in 1..(g.nT - 1) },
    prec |-> { [ t |-> g.syms[t + 1], p |-> g.tprec[t], a |-> g.tassoc[t] ] : t \in { u \in 1..(g.nT - 1) : g.tprec[u] > 0 } },
    start |-> IF src.start = "" THEN src.rules[1].lhs ELSE src.start,
    rules |-> [ i \in DOMAIN src.rules |-> [ lhs |-> src.rules[i].lhs, rhs |-> src.rules[i].rhs, prec |-> src.rules[i].prec ] ] ]
OfRecord(r) ==
  [ toks |-> { r.toks[i] : i \in DOMAIN r.toks }, prec |-> { r.prec[i] : i \in DOMAIN r.prec }, start |-> r.start, rules |-> r.rules ]

What(kind) ==
  CASE kind = "n" -> { "same", "start", "tokens", "prec", "marks" }
    [] kind = "N" -> { "same", "start", "tokens", "prec", "marks" }
    [] kind = "E" -> { "start", "tokens", "prec", "marks" }
    [] kind \in {"S", "V"} -> { "same", "start", "tokens", "prec", "marks" }
    [] kind = "e" -> { "same" }
    [] kind = "C" -> { "start", "prec", "marks" }
    [] OTHER -> { "marks" }

\* what is to be found in an export of this kind
Expected(kind) ==
  IF kind \in {"S", "V"} THEN \* only marks that have a precedence
    [ plain EXCEPT !.rules = [ i \in DOMAIN @ |-> [ @[i] EXCEPT !.prec = IF HasPrec(plain, @) THEN @ ELSE "" ] ] ]
  ELSE plain

Init ==
  /\ cid \in DOMAIN Cases
  /\ phase = "source" /\ plain = 0 /\ k = 0 /\ txt = 0 /\ rd = 0 /\ fails = {}

Source ==
  /\ phase = "source"
  /\ plain' = TLCEval(OfByacc(Case.src, B!Elaborate(Case.src)))
  /\ phase' = "next"
  /\ UNCHANGED << cid, k, txt, rd, fails >>

Next1 ==
  /\ phase = "next"
  /\ k < Len(Case.exports)
  /\ k' = k + 1
  /\ txt' = TLCEval(IF Case.exports[k'].fmt = "yacc" THEN BR!Lines(Case.exports[k'].text) ELSE IF Case.exports[k'].fmt = "lemon" THEN Case.exports[k'].text ELSE 0)
  /\ rd' = TLCEval(IF Case.exports[k'].fmt = "yacc" THEN BR!Reader0 ELSE IF Case.exports[k'].fmt = "lemon" THEN LRd!Reader0 ELSE 0)
  /\ phase' = IF Case.exports[k'].fmt = "rec" THEN "read" ELSE "text"
  /\ UNCHANGED << cid, plain, fails >>

ReadYacc ==
  /\ phase = "text" /\ X.fmt = "yacc"
  /\ rd' = TLCEval(BR!ReaderSteps(txt, rd, FALSE, 60))
  /\ phase' = IF rd'.i < 0 \/ rd'.mode = "end" THEN "read" ELSE "text"
  /\ UNCHANGED << cid, plain, k, txt, fails >>
ReadLemon ==
  /\ phase = "text" /\ X.fmt = "lemon"
  /\ rd' = TLCEval(LRd!ReaderSteps(txt, rd, FALSE, 60))
  /\ phase' = IF LRd!ReaderDone(txt, rd') THEN "read" ELSE "text"
  /\ UNCHANGED << cid, plain, k, txt, fails >>

Readable ==
  CASE X.fmt = "yacc" -> rd.i > 0 /\ BR!Defined(rd)
    [] X.fmt = "lemon" -> LRd!AtEnd(rd).errs = <<>> /\ rd.rules # <<>> /\ ~rd.odd
    [] OTHER -> X.ok
Read ==
  IF X.fmt = "yacc" THEN LET s == TLCEval(BR!Denoted(rd, FALSE, FALSE, FALSE)) IN OfByacc(s, B!Elaborate(s))
  ELSE IF X.fmt = "lemon" THEN LET s == TLCEval(LRd!Denotes(rd, FALSE, FALSE)) IN OfLemon(s, L!Elaborate(s))
  ELSE OfRecord(X.rec)

Tagged(S) == { X.k \o "-" \o f : f \in S }
Judge ==
  /\ phase = "read"
  /\ fails' = TLCEval(fails \cup Tagged(IF ~Readable THEN { "unreadable" } ELSE Compare(Expected(X.k), TLCEval(Read), What(X.k) \ (IF Case.src.fu THEN { "marks" } ELSE {})) \cup F(X.same, "again")))
  /\ phase' = "next"
  /\ txt' = 0 /\ rd' = 0
  /\ UNCHANGED << cid, plain, k >>

Done ==
  /\ phase = "next"
  /\ k = Len(Case.exports)
  /\ phase' = "done"
  /\ PrintT(ToJson([ verdict |-> Case.id, fails |-> fails, kind |-> ToString(k) ]))
  /\ UNCHANGED << cid, plain, k, txt, rd, fails >>

Next == Source \/ Next1 \/ ReadYacc \/ ReadLemon \/ Judge \/ Done
Spec == Init /\ [][Next]_vars
Conforms == fails = {}
=============================================================================

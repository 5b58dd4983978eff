-------------------------- MODULE LemonReaderTrace --------------------------
(***************************************************************************)
(* Conformance of lemon's reader to LemonReader.tla.  A case is the text   *)
(* of a file given to the real lemon and what lemon did.  One behaviour    *)
(* per case: the preprocessor runs over the text, then the reader over     *)
(* what it leaves; a file it rejects must have been rejected with          *)
(* complaints about the same lines; for a file it accepts the grammar it   *)
(* denotes goes through the construction of LemonTrace and everything      *)
(* lemon reported and generated must agree.                                *)
(***************************************************************************)
EXTENDS LemonTrace, LemonReader

VARIABLES pre, rd
rvars == << vars, pre, rd >>
Case == Cases[cid]

RInit ==
  /\ cid \in DOMAIN Cases
  /\ src = 0
  /\ phase = "lines"
  /\ pre = Pre0
  /\ rd = Reader0
  /\ g = 0 /\ a = 0 /\ kernels = <<>> /\ kgoto = <<>> /\ trans = <<>> /\ la = <<>> /\ cellsOf = <<>>
  /\ fails = {}

Preprocess ==
  /\ phase = "lines"
  /\ pre' = TLCEval(PreSteps(Case.text, pre, {}, 4))
  /\ phase' = IF ~PreDone(Case.text, pre') THEN "lines" ELSE IF Outcome(pre')[1] = "text" THEN "text" ELSE "refused"
  /\ UNCHANGED << cid, src, g, a, kernels, kgoto, trans, la, cellsOf, fails, rd >>

Read ==
  /\ phase = "text"
  /\ rd' = TLCEval(ReaderSteps(pre.out, rd, Case.fu, 8))
  /\ phase' = IF ReaderDone(pre.out, rd') THEN "read" ELSE "text"
  /\ UNCHANGED << cid, src, g, a, kernels, kgoto, trans, la, cellsOf, fails, pre >>

Ended == AtEnd(rd)
Labelled == [ k \in DOMAIN rd.rules |-> LabelErrors(pre.out, rd.rules[k]) ]
WellFormed == Ended.errs = <<>> /\ rd.rules # <<>>
Judge ==
  /\ phase = "read"
  /\ src' = IF WellFormed /\ ~Open(rd) /\ ~Meaningless(rd) THEN TLCEval(Denotes(rd, Case.fu, Case.fz)) ELSE 0
  /\ phase' = IF WellFormed /\ ~Open(rd) /\ ~Meaningless(rd) THEN "source" ELSE "refused"
  /\ UNCHANGED << cid, g, a, kernels, kgoto, trans, la, cellsOf, fails, pre, rd >>

Kind ==
  IF Outcome(pre)[1] # "text" THEN Outcome(pre)[1]
  ELSE IF Ended.errs # <<>> THEN "errors"
  ELSE IF rd.rules = <<>> THEN "empty"
  ELSE IF Open(rd) THEN "open" ELSE "meaningless"
RefusedVerdict ==
  Fail(Case.exit \in {0, 1}, "crash") \cup
  (IF Kind = "open" \/ Case.exit \notin {0, 1} THEN {}
   ELSE IF Case.exit = 0 THEN { "accepted-malformed" }
   ELSE Fail(Case.complains, "no-complaint") \cup
        (IF Kind = "errors" THEN Fail(Case.lines = Ended.errs, "message-lines") ELSE {}))
Refused ==
  /\ phase = "refused"
  /\ phase' = "done"
  /\ fails' = TLCEval(RefusedVerdict)
  /\ PrintT(ToJson([ verdict |-> Case.id, fails |-> fails', kind |-> Kind ]))
  /\ UNCHANGED << cid, src, g, a, kernels, kgoto, trans, la, cellsOf, pre, rd >>

\* the complaints about labels, by line
LabelsOK ==
  LET n == TLCEval(Labelled)
      lines == { rd.rules[k].line : k \in DOMAIN rd.rules } \cup { Case.labels[k] : k \in DOMAIN Case.labels }
  IN \A l \in lines : Cardinality({ k \in DOMAIN Case.labels : Case.labels[k] = l }) =
                      Sum([ k \in DOMAIN n |-> IF rd.rules[k].line = l THEN n[k] ELSE 0 ], Len(n))
Mislabelled == \E k \in DOMAIN rd.rules : Labelled[k] > 0

ReadVerdict ==
  IF Case.exit \notin {0, 1} THEN { "crash" }
  ELSE IF ~Case.produced THEN { "refused-wellformed" }
  ELSE LET texts == TLCEval([ r \in RuleIds(g) |-> RuleText(r) ])
           ir == TLCEval(IRule)
       IN Fail(RulesOK(texts, ir), "rules") \cup
          Fail(Obs.symbols = Symbols, "symbols") \cup
          Fail(Obs.header = [ i \in 1..(g.nT - 1) |-> << Src.prefix \o g.syms[i+1], i >> ], "header") \cup
          Fail(LabelsOK, "label-messages") \cup
          Fail(~Mislabelled \/ Case.exit = 1, "label-exit") \cup
          Fail(Case.lines = <<>>, "message-lines")

ReadOnly ==
  /\ phase = "lr0"
  /\ Len(kgoto) = 0
  /\ ~Case.whole \/ Mislabelled \/ ReadVerdict # {}
  /\ phase' = "done"
  /\ fails' = TLCEval(ReadVerdict)
  /\ PrintT(ToJson([ verdict |-> Case.id, fails |-> fails', kind |-> IF Mislabelled THEN "labels" ELSE "grammar" ]))
  /\ UNCHANGED << cid, src, g, a, kernels, kgoto, trans, la, cellsOf, pre, rd >>

Whole ==
  /\ Case.whole
  /\ phase \notin { "lines", "text", "read", "refused", "source" }
  /\ phase = "lr0" /\ Len(kgoto) = 0 => ReadVerdict = {} /\ ~Mislabelled
  /\ Discover \/ StartPropagation \/ Propagate \/ Resolve \/ Compare
  /\ UNCHANGED << pre, rd >>

Source == ReadSource /\ UNCHANGED << pre, rd >>

RNext == Preprocess \/ Read \/ Judge \/ Refused \/ Source \/ ReadOnly \/ Whole
RSpec == RInit /\ [][RNext]_rvars

\* what the reader knows only grows, and every name is one kind of symbol
Kinds == /\ Elems(rd.terms) \cap Elems(rd.nts) = {}
         /\ \A k \in DOMAIN rd.cls : rd.cls[k].n \notin Elems(rd.terms) \cup Elems(rd.nts)
         /\ rd.line = 1 + Newlines(pre.out, 1, IF rd.i > Len(pre.out) THEN Len(pre.out) + 1 ELSE rd.i)
=============================================================================

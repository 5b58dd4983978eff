-------------------------- MODULE ByaccReaderTrace --------------------------
(***************************************************************************)
(* Conformance of byacc's reader to ByaccReader.tla.  A case is the text   *)
(* of a file given to the real byacc and what byacc did.  One behaviour    *)
(* per case: the reader machine runs over the text; a file it rejects must *)
(* have been rejected; for a file it accepts the grammar it denotes goes   *)
(* through the construction of ByaccTrace and everything byacc reported    *)
(* (rules, token numbers, and when the case asks for it the automaton, the *)
(* conflicts, the tables, which show the precedences) must agree.          *)
(***************************************************************************)
EXTENDS ByaccTrace, ByaccReader

VARIABLES txt, rd
rvars == << vars, txt, rd >>

Case == Cases[cid]

RInit ==
  /\ cid \in DOMAIN Cases
  /\ src = 0
  /\ phase = "text"
  /\ txt = TLCEval(Lines(Cases[cid].text))
  /\ rd = Reader0
  /\ g = 0 /\ a = 0 /\ kernels = <<>> /\ kgoto = <<>> /\ trans = <<>> /\ la = <<>> /\ cellsOf = <<>>
  /\ fails = {}

Read ==
  /\ phase = "text"
  /\ rd' = TLCEval(ReaderSteps(txt, rd, Case.fB, 8))
  /\ phase' = IF rd'.i < 0 \/ rd'.mode = "end" THEN "read" ELSE "text"
  /\ UNCHANGED << cid, src, g, a, kernels, kgoto, trans, la, cellsOf, fails, txt >>

Outcome ==
  /\ phase = "read"
  /\ src' = IF rd.i > 0 /\ Defined(rd) THEN TLCEval(Denoted(rd, Case.fu, Case.fz, Case.fB)) ELSE 0
  /\ phase' = IF rd.i > 0 /\ Defined(rd) THEN "source" ELSE "refused"
  /\ UNCHANGED << cid, g, a, kernels, kgoto, trans, la, cellsOf, fails, txt, rd >>

\* the file denotes nothing: byacc says so and fails
Refused ==
  /\ phase = "refused"
  /\ phase' = "done"
  /\ fails' = TLCEval(IF rd.i = Unknown THEN Fail(Case.exit \in {0, 1}, "crash")
              ELSE Fail(Case.exit \in {0, 1}, "crash") \cup
                   (IF Case.exit \in {0, 1} THEN Fail(~Case.accepted, "accepted-malformed") \cup Fail(Case.exit = 1 /\ Case.complains, "no-complaint") ELSE {}))
  /\ PrintT(ToJson([ verdict |-> Case.id, fails |-> fails', kind |-> IF rd.i = Unknown THEN "open" ELSE "refused" ]))
  /\ UNCHANGED << cid, src, g, a, kernels, kgoto, trans, la, cellsOf, txt, rd >>

\* the numbers of the tokens
NumbersOK ==
  LET toks == TokensOf(rd)  nums == TLCEval(TokenNumbers(rd))
  IN /\ \A k \in DOMAIN toks : toks[k] \in DOMAIN Obs.symvals /\ Obs.symvals[toks[k]] = nums[k]
     /\ Obs.symvals["$end"] = 0
     /\ Obs.totals[1] = Len(toks) + 1

ReadVerdict ==
  IF Case.exit \notin {0, 1} THEN { "crash" }
  ELSE IF ~Case.accepted THEN { "refused-wellformed" }
  ELSE Fail(ObsRulesOK, "rules") \cup Fail(NumbersOK, "numbers")

\* only what the reader decides is compared
ReadOnly ==
  /\ phase = "lr0"
  /\ Len(kgoto) = 0
  /\ ~Case.whole \/ ReadVerdict # {}
  /\ phase' = "done"
  /\ fails' = TLCEval(ReadVerdict)
  /\ PrintT(ToJson([ verdict |-> Case.id, fails |-> fails', kind |-> "grammar" ]))
  /\ UNCHANGED << cid, src, g, a, kernels, kgoto, trans, la, cellsOf, txt, rd >>

Whole ==
  /\ Case.whole
  /\ phase \notin {"text", "read", "refused"}
  /\ phase = "lr0" /\ Len(kgoto) = 0 => ReadVerdict = {}
  /\ Discover \/ StartPropagation \/ Propagate \/ Resolve \/ Compare
  /\ UNCHANGED << txt, rd >>

Source == ReadSource /\ UNCHANGED << txt, rd >>

RNext == Read \/ Outcome \/ Refused \/ Source \/ ReadOnly \/ Whole
RSpec == RInit /\ [][RNext]_rvars

\* the reader always gets to an end: every step consumes text or stops
Progress == phase = "text" => rd.i > 0
=============================================================================

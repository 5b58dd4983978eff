---------------------------- MODULE LemonPreTrace ----------------------------
(***************************************************************************)
(* Conformance of lemon -E to LemonPre: a case is a text, the names given  *)
(* with -D, and what the real lemon printed.  The machine reads the text   *)
(* line by line; at its end the outcomes must agree.                       *)
(***************************************************************************)
EXTENDS LemonPre, Json, IOUtils

Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLES cid, p, fails
vars == << cid, p, fails >>
Case == Cases[cid]
Defs == { Case.defs[k] : k \in DOMAIN Case.defs }

Init == cid \in DOMAIN Cases /\ p = Pre0 /\ fails = { "unread" }

Step ==
  /\ fails = { "unread" }
  /\ ~PreDone(Case.text, p)
  /\ p' = TLCEval(PreSteps(Case.text, p, Defs, 4))
  /\ UNCHANGED << cid, fails >>

Fail(c, tag) == IF c THEN {} ELSE { tag }
Verdict ==
  LET o == Outcome(p) IN
  Fail(Case.exit \in {0, 1}, "crash") \cup
  CASE o[1] = "open" -> {}
    [] o[1] = "bad"  -> Fail(Case.exit = 1, "accepted-malformed") \cup Fail(Case.exit # 1 \/ Case.line = o[2], "message-line")
    [] o[1] = "text" -> Fail(Case.exit = 0, "refused-wellformed") \cup Fail(Case.exit # 0 \/ Case.out = p.out, "selection")

Compare ==
  /\ fails = { "unread" }
  /\ PreDone(Case.text, p)
  /\ fails' = TLCEval(Verdict)
  /\ PrintT(ToJson([ verdict |-> Case.id, fails |-> fails', kind |-> Outcome(p)[1] ]))
  /\ UNCHANGED << cid, p >>

Next == Step \/ Compare
Spec == Init /\ [][Next]_vars

Conforms == fails \in { {}, { "unread" } }
\* as many lines come out as went in, and each is as long as it was
LinesStay == p.i > 0 => Len(p.out) = p.i - 1 \/ (p.i = Len(Case.text) + 2 /\ Len(p.out) = Len(Case.text))
=============================================================================

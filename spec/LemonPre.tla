------------------------------- MODULE LemonPre -------------------------------
(***************************************************************************)
(* lemon's conditional preprocessing.  A file is a sequence of lines; the  *)
(* directives nest; a machine reads line by line with a stack of the open  *)
(* conditions.  Lines that are not selected, and the directives, become    *)
(* blank lines of the same length, so that everything else keeps its line. *)
(***************************************************************************)
EXTENDS Chars

(* ---- the expressions of %if ---------------------------------------------*)
(* Parsing works on t from i up to (not including) e and returns           *)
(* << value, next position >>; position Bad when malformed.                *)
Blanks(t, i, e) == LET j == Skip(t, i, Space) IN IF j > e THEN e ELSE j
IsAt(t, i, e, c) == i < e /\ t[i] = c
Twice(t, i, e, c) == i + 1 < e /\ t[i] = c /\ t[i+1] = c

RECURSIVE OrExpr(_, _, _, _), OrRest(_, _, _, _), AndExpr(_, _, _, _), AndRest(_, _, _, _), Term(_, _, _, _)
Term(t, i0, e, D) ==
  LET i == Blanks(t, i0, e) IN
  IF i >= e THEN << FALSE, Bad >>
  ELSE IF t[i] = 33 THEN LET r == Term(t, i + 1, e, D) IN << ~r[1], r[2] >>
  ELSE IF t[i] = LPar THEN
       LET r == OrExpr(t, i + 1, e, D)
       IN IF r[2] < 0 \/ ~IsAt(t, r[2], e, RPar) THEN << FALSE, Bad >> ELSE << r[1], r[2] + 1 >>
  ELSE IF t[i] \in Alpha THEN LET j == Skip(t, i, AlNum \cup { Under }) IN << SubSeq(t, i, j - 1) \in D, j >>
  ELSE << FALSE, Bad >>
AndRest(t, r, e, D) ==
  IF r[2] < 0 THEN r
  ELSE LET i == Blanks(t, r[2], e) IN
       IF Twice(t, i, e, 38) THEN LET q == Term(t, i + 2, e, D) IN AndRest(t, << r[1] /\ q[1], q[2] >>, e, D)
       ELSE << r[1], i >>
AndExpr(t, i, e, D) == AndRest(t, Term(t, i, e, D), e, D)
OrRest(t, r, e, D) ==
  IF r[2] < 0 THEN r
  ELSE LET i == Blanks(t, r[2], e) IN
       IF Twice(t, i, e, Bar) THEN LET q == AndExpr(t, i + 2, e, D) IN OrRest(t, << r[1] \/ q[1], q[2] >>, e, D)
       ELSE << r[1], i >>
OrExpr(t, i, e, D) == OrRest(t, AndExpr(t, i, e, D), e, D)

\* the condition on the rest of a line: "true", "false" or "bad"
Condition(t, i, e, D) ==
  LET r == OrExpr(t, i, e, D) IN IF r[2] # e THEN "bad" ELSE IF r[1] THEN "true" ELSE "false"

(* ---- directives ----------------------------------------------------------*)
StartsWith(t, i, w) == i + Len(w) - 1 <= Len(t) /\ \A k \in DOMAIN w : t[i + k - 1] = w[k]
IfdefW  == << 37, 105, 102, 100, 101, 102, 32 >>         \* "%ifdef "
IfW     == << 37, 105, 102, 32 >>                         \* "%if "
IfndefW == << 37, 105, 102, 110, 100, 101, 102, 32 >>     \* "%ifndef "
ElseW   == << 37, 101, 108, 115, 101 >>                   \* "%else"
EndifW  == << 37, 101, 110, 100, 105, 102 >>              \* "%endif"
\* what the line that starts at i is
Directive(t, i) ==
  IF i > Len(t) \/ t[i] # Percent THEN "text"
  ELSE IF StartsWith(t, i, EndifW) /\ (i + 6 > Len(t) \/ t[i+6] \in Space) THEN "endif"
  ELSE IF StartsWith(t, i, ElseW) /\ i + 5 <= Len(t) /\ t[i+5] \in Space THEN "else"
  ELSE IF StartsWith(t, i, IfdefW) THEN "ifdef"
  ELSE IF StartsWith(t, i, IfndefW) THEN "ifndef"
  ELSE IF StartsWith(t, i, IfW) THEN "if"
  ELSE "text"

Blanked(t, i, e) == [ k \in 1..(e - i) |-> 32 ]

(* ---- the machine ----------------------------------------------------------*)
\* stack entries: [ live: are the lines around it selected, on: its present part selected, line: where it starts excluding,
\*                  alt: its %else has been seen ]
Pre0 == [ i |-> 1, line |-> 1, open |-> <<>>, out |-> <<>>, bad |-> 0, odd |-> FALSE ]
Live(p) == IF p.open = <<>> THEN TRUE ELSE LET top == p.open[Len(p.open)] IN top.live /\ top.on
Pop(s) == SubSeq(s, 1, Len(s) - 1)

PreLine(t, p, D) ==
  LET e == LineEnd(t, p.i)
      d == Directive(t, p.i)
      keep == d = "text" /\ Live(p)
      txt == IF keep THEN SubSeq(t, p.i, e - 1) ELSE Blanked(t, p.i, e)
      moved == [ p EXCEPT !.i = e + 1, !.line = p.line + 1, !.out = p.out \o txt \o (IF e <= Len(t) THEN << NL >> ELSE <<>>) ]
      n == Len(p.open)
  IN IF d = "text" THEN moved
     ELSE IF d = "endif" THEN
          IF n = 0 THEN [ moved EXCEPT !.odd = TRUE ]     \* nothing to end: left open
          ELSE [ moved EXCEPT !.open = Pop(p.open) ]
     ELSE IF d = "else" THEN
          IF n = 0 THEN [ moved EXCEPT !.odd = TRUE ]
          ELSE LET top == p.open[n] IN
               [ moved EXCEPT !.open = Pop(p.open) \o << [ top EXCEPT !.on = ~top.on, !.alt = TRUE, !.line = IF top.on THEN p.line ELSE top.line ] >>,
                              !.odd = p.odd \/ top.alt ]
     ELSE IF ~Live(p) THEN [ moved EXCEPT !.open = Append(p.open, [ live |-> FALSE, on |-> FALSE, line |-> p.line, alt |-> FALSE ]) ]
     ELSE LET w == IF d = "if" THEN 3 ELSE IF d = "ifdef" THEN 6 ELSE 7
              c == Condition(t, p.i + w, e, D)
          IN IF c = "bad" THEN [ moved EXCEPT !.i = Bad, !.bad = p.line ]
             ELSE [ moved EXCEPT !.open = Append(p.open, [ live |-> TRUE, on |-> (c = "true") # (d = "ifndef"), line |-> p.line, alt |-> FALSE ]) ]

RECURSIVE PreSteps(_, _, _, _)
PreSteps(t, p, D, n) ==
  IF n = 0 \/ p.i < 0 \/ p.i > Len(t) THEN p ELSE PreSteps(t, TLCEval(PreLine(t, p, D)), D, n - 1)
PreDone(t, p) == p.i < 0 \/ p.i > Len(t)

\* an excluded part is still open at the end; the line on which it starts to be excluded
ExcludedAtEnd(p) == { k \in DOMAIN p.open : p.open[k].live /\ ~p.open[k].on }
\* the outcome: "text", "bad" (line) or "open" (directives without partners)
Outcome(p) ==
  IF p.odd THEN << "open", 0 >>
  ELSE IF p.i < 0 THEN << "bad", p.bad >>
  ELSE IF ExcludedAtEnd(p) # {} THEN << "bad", p.open[CHOOSE k \in ExcludedAtEnd(p) : TRUE].line >>
  ELSE IF p.open # <<>> THEN << "open", 0 >>
  ELSE << "text", 0 >>
=============================================================================

---------------------------- MODULE LemonTables ----------------------------
(***************************************************************************)
(* The packed tables of a lemon parser and what looking them up means.     *)
(* tb: action, lookahead, shiftofst, reduceofst, dflt, rulelhs, rulenrhs   *)
(* (sequences; index 1 is C index 0); maxshift, minsr, maxsr, erract,      *)
(* accact, minred, maxred, shiftcount, reducecount, ntoken                 *)
(***************************************************************************)
EXTENDS Integers, Sequences

Nth(seq, i) == seq[i + 1]

Class(tb, a) ==
  IF a <= tb.maxshift THEN << "s", a >>
  ELSE IF a >= tb.minsr /\ a <= tb.maxsr THEN << "sr", a - tb.minsr >>
  ELSE IF a = tb.erract THEN << "e", 0 >>
  ELSE IF a = tb.accact THEN << "acc", 0 >>
  ELSE IF a >= tb.minred /\ a <= tb.maxred THEN << "r", a - tb.minred >>
  ELSE << "bad", a >>

\* a token in a state, before any fallback
HasShiftEntry(tb, s, t) ==
  /\ s <= tb.shiftcount
  /\ LET k == Nth(tb.shiftofst, s) + t
     IN k >= 0 /\ k < Len(tb.lookahead) /\ Nth(tb.lookahead, k) = t
FindShift(tb, s, t) ==
  IF s > tb.shiftcount THEN << "bad", s >>
  ELSE IF HasShiftEntry(tb, s, t) THEN
         LET k == Nth(tb.shiftofst, s) + t
         IN IF k < Len(tb.action) THEN Class(tb, Nth(tb.action, k)) ELSE << "bad", k >>
  ELSE IF s < Len(tb.dflt) THEN Class(tb, Nth(tb.dflt, s)) ELSE << "bad", s >>

\* a nonterminal in a state
FindReduce(tb, s, x) ==
  LET k == IF s > tb.reducecount THEN -1 ELSE Nth(tb.reduceofst, s) + x
  IN IF k < 0 \/ k >= Len(tb.action) \/ k >= Len(tb.lookahead) THEN Class(tb, Nth(tb.dflt, s))
     ELSE IF Nth(tb.lookahead, k) # x THEN Class(tb, Nth(tb.dflt, s))
     ELSE Class(tb, Nth(tb.action, k))
=============================================================================

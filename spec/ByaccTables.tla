---------------------------- MODULE ByaccTables ----------------------------
(***************************************************************************)
(* The packed tables of a byacc parser, and what looking them up means.    *)
(* tb: defred, sindex, rindex, table, check, dgoto, gindex, lhs, len       *)
(* (sequences; index 1 is C index 0), final, tsize; with backtracking also *)
(* cindex, ctable.  Tokens are the values the scanner returns.             *)
(***************************************************************************)
EXTENDS Integers, Sequences

InRow(tb, row, x) ==
  LET k == row + x IN row # 0 /\ k >= 0 /\ k <= tb.tsize /\ k < Len(tb.check) /\ tb.check[k+1] = x
Hit(tb, row, x) == tb.table[row + x + 1]

(* action of impl state s (0-based) on token value v                       *)
Look(tb, s, v) ==
  IF tb.defred[s+1] # 0 THEN << "r", tb.defred[s+1] >>
  ELSE IF InRow(tb, tb.sindex[s+1], v) THEN << "s", Hit(tb, tb.sindex[s+1], v) >>
  ELSE IF InRow(tb, tb.rindex[s+1], v) THEN << "r", Hit(tb, tb.rindex[s+1], v) >>
  ELSE << "e", 0 >>

(* state after reducing to nonterminal index y with s uncovered             *)
LookGoto(tb, s, y) ==
  IF InRow(tb, tb.gindex[y+1], s) THEN Hit(tb, tb.gindex[y+1], s) ELSE tb.dgoto[y+1]

(* backtracking: the alternatives of a conflict cell, in order              *)
RECURSIVE CList(_, _)
CList(tb, i) == IF tb.ctable[i+1] < 0 THEN <<>> ELSE << tb.ctable[i+1] >> \o CList(tb, i+1)
HasConflict(tb, s, v) == InRow(tb, tb.cindex[s+1], v)
=============================================================================

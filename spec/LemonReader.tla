----------------------------- MODULE LemonReader -----------------------------
(***************************************************************************)
(* How lemon reads a (preprocessed) grammar file: the tokens, the reader   *)
(* as a machine that takes one token per step, what it reports and on      *)
(* which lines, and the grammar the file denotes (a source record of       *)
(* Lemon.tla).                                                             *)
(***************************************************************************)
EXTENDS LemonPre

Word == AlNum \cup { Under }
Newlines(t, i, j) == Cardinality({ k \in i .. (j - 1) : t[k] = NL })

(* ---- tokens ---------------------------------------------------------------*)
RECURSIVE QuoteEnd(_, _, _)       \* just after the quote q that ends the literal
QuoteEnd(t, i, q) ==
  LET j == Find(t, i, { q, BSlash }) IN
  IF j > Len(t) THEN Bad ELSE IF t[j] = q THEN j + 1 ELSE QuoteEnd(t, j + 2, q)
RECURSIVE CodeEnd(_, _, _)        \* the position of the brace that closes the code
CodeEnd(t, i0, lv) ==
  LET i == Find(t, i0, { LCurl, RCurl, Slash, Quote1, Quote2 }) IN
  IF i > Len(t) THEN Bad
  ELSE IF t[i] = RCurl THEN IF lv = 1 THEN i ELSE CodeEnd(t, i + 1, lv - 1)
  ELSE IF t[i] = LCurl THEN CodeEnd(t, i + 1, lv + 1)
  ELSE IF t[i] \in { Quote1, Quote2 } THEN LET j == QuoteEnd(t, i + 1, t[i]) IN IF j < 0 THEN Bad ELSE CodeEnd(t, j, lv)
  ELSE IF At2(t, i, Slash, Star) THEN LET j == CommentEnd(t, i + 2) IN IF j < 0 THEN Bad ELSE CodeEnd(t, j, lv)
  ELSE IF At2(t, i, Slash, Slash) THEN CodeEnd(t, LineEnd(t, i), lv)
  ELSE CodeEnd(t, i + 1, lv)

\* the token at i: kind, first character, the end of its text, where reading goes on, whether it is cut off
Tok(k, t, i, e, n, cut) == [ k |-> k, c |-> t[i], i |-> i, e |-> e, n |-> n, cut |-> cut ]
Token(t, i) ==
  IF t[i] = Quote2 THEN LET j == Find(t, i + 1, { Quote2 }) IN Tok("string", t, i, j, j + 1, j > Len(t))
  ELSE IF t[i] = LCurl THEN LET j == CodeEnd(t, i + 1, 1)
                            IN IF j < 0 THEN Tok("code", t, i, Len(t) + 1, Len(t) + 1, TRUE) ELSE Tok("code", t, i, j, j + 1, FALSE)
  ELSE IF t[i] \in AlNum THEN LET j == Skip(t, i, Word) IN Tok("word", t, i, j, j, FALSE)
  ELSE IF At2(t, i, Colon, Colon) /\ i + 2 <= Len(t) /\ t[i+2] = Equal THEN Tok("arrow", t, i, i + 3, i + 3, FALSE)
  ELSE IF t[i] \in { Slash, Bar } /\ i < Len(t) /\ t[i+1] \in Alpha THEN LET j == Skip(t, i + 1, Word) IN Tok("bar", t, i, j, j, FALSE)
  ELSE Tok("char", t, i, i + 1, i + 1, FALSE)

(* ---- the reader -------------------------------------------------------------*)
Slots == { "name", "include", "code", "token_destructor", "default_destructor", "token_prefix", "syntax_error", "parse_accept",
           "parse_failure", "stack_overflow", "extra_argument", "extra_context", "token_type", "default_type", "stack_size",
           "expect", "start_symbol" }
Kept == { "name", "token_prefix", "expect", "start_symbol" }
Levels == { "left", "right", "nonassoc", "precedence" }
NoRule == [ lhs |-> "", la |-> "", rhs |-> <<>>, al |-> <<>> ]

Reader0 ==
  [ i |-> 1, line |-> 1, st |-> "top", errs |-> <<>>, odd |-> FALSE, terms |-> <<>>, nts |-> <<>>, cls |-> <<>>, typed |-> {},
    rules |-> <<>>, cur |-> NoRule, decl |-> <<>>, key |-> "", sym |-> "", wild |-> "", fb |-> <<>>, target |-> "", fz |-> FALSE,
    slot |-> [ s \in Kept |-> <<>> ], anytype |-> FALSE, given |-> {} ]

Elems(s) == { s[k] : k \in DOMAIN s }
IsClass(rd, n) == \E k \in DOMAIN rd.cls : rd.cls[k].n = n
ClassOf(rd, n) == rd.cls[CHOOSE k \in DOMAIN rd.cls : rd.cls[k].n = n]
Known(rd, n) == n \in Elems(rd.terms) \/ n \in Elems(rd.nts) \/ IsClass(rd, n)
Mention(rd, n, upper) ==
  IF Known(rd, n) THEN rd
  ELSE IF upper THEN [ rd EXCEPT !.terms = Append(@, n) ] ELSE [ rd EXCEPT !.nts = Append(@, n) ]
Err(rd, st) == [ rd EXCEPT !.errs = Append(@, rd.line), !.st = st ]
To(rd, st) == [ rd EXCEPT !.st = st ]

RECURSIVE Joined(_, _)
Joined(m, i) == IF i = Len(m) THEN m[i] ELSE m[i] \o "|" \o Joined(m, i + 1)

\* right-hand side elements: [ n: name, m: members of a compound formed here ]
EndRule(rd) ==
  LET r == rd.cur
      nm == [ j \in DOMAIN r.rhs |-> IF r.rhs[j].m = <<>> THEN r.rhs[j].n ELSE Joined(r.rhs[j].m, 1) ]
      new == SelectSeq([ j \in DOMAIN r.rhs |-> [ n |-> nm[j], m |-> r.rhs[j].m ] ], LAMBDA c : c.m # <<>> /\ ~IsClass(rd, c.n))
  IN [ rd EXCEPT !.st = "top", !.cls = @ \o new,
         !.rules = Append(@, [ lhs |-> r.lhs, la |-> r.la, rhs |-> nm, al |-> r.al, prec |-> "", code |-> FALSE, a |-> 1, e |-> 1, line |-> rd.line ]) ]

\* one token k of the text t; fu: -u is given
Take(t, k, rd, fu) ==
  LET upper == k.c \in Upper
      lower == k.c \in Lower
      name == Cut(t, k.i, k.e)
      is(c) == k.k = "char" /\ k.c = c
      st == rd.st
      n == Len(rd.rules)
  IN
  CASE st = "top" ->
         IF is(Percent) THEN To(rd, "keyword")
         ELSE IF lower THEN IF IsClass(rd, name) THEN Err(rd, "sync")
                            ELSE [ Mention(rd, name, FALSE) EXCEPT !.st = "arrow", !.cur = [ NoRule EXCEPT !.lhs = name ] ]
         ELSE IF k.k = "code" THEN
              IF n = 0 \/ (n > 0 /\ rd.rules[n].code) THEN Err(rd, "top")
              ELSE [ rd EXCEPT !.rules[n].code = TRUE, !.rules[n].a = k.i + 1, !.rules[n].e = k.e,
                               !.odd = @ \/ StartsWith(t, k.i, << 123, 78, 69, 86, 69, 82, 45 >>) ]
         ELSE IF is(LBrac) THEN To(rd, "mark")
         ELSE Err(rd, "top")
    [] st = "mark" ->
         IF ~upper \/ n = 0 \/ (n > 0 /\ rd.rules[n].prec # "") THEN Err(rd, "mark2")
         ELSE IF fu THEN To(rd, "mark2")
         ELSE [ Mention(rd, name, TRUE) EXCEPT !.st = "mark2", !.rules[n].prec = name ]
    [] st = "mark2" -> IF is(RBrac) THEN To(rd, "top") ELSE Err(rd, "top")
    [] st = "arrow" -> IF k.k = "arrow" THEN To(rd, "rhs") ELSE IF is(LPar) THEN To(rd, "la1") ELSE Err(rd, "sync")
    [] st = "la1" -> IF upper \/ lower THEN [ rd EXCEPT !.st = "la2", !.cur.la = name ] ELSE Err(rd, "sync")
    [] st = "la2" -> IF is(RPar) THEN To(rd, "la3") ELSE Err(rd, "sync")
    [] st = "la3" -> IF k.k = "arrow" THEN To(rd, "rhs") ELSE Err(rd, "sync")
    [] st = "rhs" ->
         LET r == rd.cur.rhs  l == Len(r) IN
         IF is(Dot) THEN EndRule(rd)
         ELSE IF upper \/ lower THEN
              [ Mention(rd, name, upper) EXCEPT !.cur.rhs = Append(@, [ n |-> name, m |-> <<>> ]), !.cur.al = Append(@, "") ]
         ELSE IF k.k = "bar" /\ t[k.i+1] \in Upper /\ l > 0 THEN
              LET x == Cut(t, k.i + 1, k.e)
                  m == Mention(rd, x, TRUE)
                  base == r[l].n
              IN IF r[l].m = <<>> /\ base \notin Elems(rd.terms) THEN Err(m, "rhs")
                 ELSE [ m EXCEPT !.cur.rhs[l].m = (IF @ = <<>> THEN << base >> ELSE @) \o << x >> ]
         ELSE IF is(LPar) /\ l > 0 THEN To(rd, "ra1")
         ELSE Err(rd, "sync")
    [] st = "ra1" -> IF upper \/ lower THEN [ rd EXCEPT !.st = "ra2", !.cur.al[Len(rd.cur.al)] = name ] ELSE Err(rd, "sync")
    [] st = "ra2" -> IF is(RPar) THEN To(rd, "rhs") ELSE Err(rd, "sync")
    [] st = "keyword" ->
         IF ~(upper \/ lower) THEN Err(rd, "sync")
         ELSE IF name \in Slots THEN [ rd EXCEPT !.st = "arg", !.key = name ]
         ELSE IF name \in Levels THEN [ rd EXCEPT !.st = "level", !.decl = Append(@, [ k |-> name, syms |-> <<>> ]) ]
         ELSE IF name = "destructor" THEN To(rd, "destructor")
         ELSE IF name = "type" THEN To(rd, "type")
         ELSE IF name = "fallback" THEN [ rd EXCEPT !.st = "fallback", !.target = "" ]
         ELSE IF name = "token" THEN To(rd, "token")
         ELSE IF name = "wildcard" THEN To(rd, "wildcard")
         ELSE IF name = "token_class" THEN To(rd, "class")
         ELSE IF name = "yacc_prec" THEN [ rd EXCEPT !.st = "top", !.fz = TRUE ]
         ELSE Err(rd, "sync")
    [] st = "destructor" ->
         IF upper \/ lower THEN [ Mention(rd, name, upper) EXCEPT !.st = "arg", !.key = "destructor" ] ELSE Err(rd, "sync")
    [] st = "type" ->
         IF ~(upper \/ lower) \/ name \in rd.typed THEN Err(rd, "sync")
         ELSE [ Mention(rd, name, upper) EXCEPT !.st = "arg", !.key = "type", !.sym = name ]
    [] st = "level" ->
         IF is(Dot) THEN To(rd, "top")
         ELSE IF ~upper THEN Err(rd, st)
         ELSE IF fu THEN rd
         ELSE LET m == Mention(rd, name, TRUE) IN
              IF \E d \in DOMAIN rd.decl : name \in Elems(rd.decl[d].syms) THEN Err(m, st)
              ELSE [ m EXCEPT !.decl[Len(m.decl)].syms = Append(@, name) ]
    [] st = "arg" ->
         IF k.k \in { "code", "string", "word" } THEN
           LET s == SubSeq(t, IF k.k = "word" THEN k.i ELSE k.i + 1, k.e - 1)
               r == IF rd.key \in Kept THEN [ rd EXCEPT !.slot[rd.key] = @ \o s ] ELSE rd
           IN [ r EXCEPT !.st = "top", !.typed = IF rd.key = "type" THEN @ \cup { rd.sym } ELSE @,
                         !.anytype = @ \/ rd.key \in { "type", "token_type", "default_type" },
                         !.given = @ \cup { rd.key } ]
         ELSE Err(rd, "sync")
    [] st = "fallback" ->
         IF is(Dot) THEN To(rd, "top")
         ELSE IF ~upper THEN Err(rd, st)
         ELSE LET m == Mention(rd, name, TRUE) IN
              IF rd.target = "" THEN [ m EXCEPT !.target = name ]
              ELSE IF \E f \in DOMAIN rd.fb : rd.fb[f][1] = name THEN Err(m, st)
              ELSE [ m EXCEPT !.fb = Append(@, << name, rd.target >>) ]
    [] st = "token" -> IF is(Dot) THEN To(rd, "top") ELSE IF upper THEN Mention(rd, name, TRUE) ELSE Err(rd, st)
    [] st = "wildcard" ->
         IF is(Dot) THEN To(rd, "top")
         ELSE IF ~upper THEN Err(rd, st)
         ELSE IF rd.wild # "" THEN Err(Mention(rd, name, TRUE), st)
         ELSE [ Mention(rd, name, TRUE) EXCEPT !.wild = name ]
    [] st = "class" ->
         IF ~lower \/ Known(rd, name) THEN Err(rd, "sync")
         ELSE [ rd EXCEPT !.st = "members", !.cls = Append(@, [ n |-> name, m |-> <<>> ]), !.sym = name ]
    [] st = "members" ->
         LET c == CHOOSE j \in DOMAIN rd.cls : rd.cls[j].n = rd.sym
             x == IF k.k = "bar" THEN Cut(t, k.i + 1, k.e) ELSE name
         IN IF is(Dot) THEN IF rd.cls[c].m = <<>> THEN Err(rd, "top") ELSE To(rd, "top")
            ELSE IF upper \/ (k.k = "bar" /\ t[k.i+1] \in Upper)
                 THEN [ Mention(rd, x, TRUE) EXCEPT !.cls[c].m = Append(@, x) ]
            ELSE Err(rd, "sync")
    [] st = "sync" -> IF is(Dot) THEN To(rd, "top") ELSE IF is(Percent) THEN To(rd, "keyword") ELSE rd

\* blanks and comments up to the next token; a comment that is cut off is reported on its line
RECURSIVE Lead(_, _)
Lead(t, rd) ==
  LET i == Skip(t, rd.i, Space)
      r == [ rd EXCEPT !.i = i, !.line = @ + Newlines(t, rd.i, i) ]
  IN IF At2(t, i, Slash, Slash) THEN Lead(t, [ r EXCEPT !.i = LineEnd(t, i) ])
     ELSE IF At2(t, i, Slash, Star) THEN
          LET j == CommentEnd(t, i + 2) IN
          IF j < 0 THEN [ r EXCEPT !.i = Len(t) + 1, !.line = @ + Newlines(t, i, Len(t) + 1), !.errs = Append(@, r.line) ]
          ELSE Lead(t, [ r EXCEPT !.i = j, !.line = @ + Newlines(t, i, j) ])
     ELSE r

RECURSIVE ReaderSteps(_, _, _, _)
ReaderSteps(t, rd, fu, n) ==
  IF n = 0 \/ rd.i > Len(t) THEN rd
  ELSE LET r == TLCEval(Lead(t, rd)) IN
       IF r.i > Len(t) THEN r
       ELSE LET k == TLCEval(Token(t, r.i))
                c == IF k.cut THEN [ r EXCEPT !.errs = Append(@, r.line) ] ELSE r
                m == TLCEval(Take(t, k, c, fu))
            IN ReaderSteps(t, TLCEval([ m EXCEPT !.i = k.n, !.line = @ + Newlines(t, k.i, k.e) ]), fu, n - 1)
ReaderDone(t, rd) == rd.i > Len(t)
\* the end of the file, seen in the middle of something
AtEnd(rd) == IF rd.st \in { "top", "sync" } THEN rd ELSE Err(rd, "top")

(* ---- labels -------------------------------------------------------------------*)
\* the words of the code c from i on: << word, position >>
RECURSIVE WordsFrom(_, _)
WordsFrom(c, i) ==
  LET j == Find(c, i, Word) IN
  IF j > Len(c) THEN {}
  ELSE LET e == Skip(c, j, Word) IN (IF c[j] \in Alpha THEN { << Cut(c, j, e), j >> } ELSE {}) \cup WordsFrom(c, e)
RECURSIVE Sum(_, _)
Sum(f, k) == IF k = 0 THEN 0 ELSE f[k] + Sum(f, k - 1)

\* where "/*la-overwrites-ra*/" stands in the code (0: nowhere), and its length
Overwrites(c, la, ra) ==
  LET W == WordsFrom(c, 1)
      P == { w \in W : w[1] = la /\ w[2] > 2 /\ c[w[2]-2] = Slash /\ c[w[2]-1] = Star
              /\ LET o == Skip(c, w[2], Word) IN
                 /\ o + 12 <= Len(c) /\ StartsWith(c, o, << 45, 111, 118, 101, 114, 119, 114, 105, 116, 101, 115, 45 >>)
                 /\ LET q == Skip(c, o + 12, Word) IN
                    /\ Cut(c, o + 12, q) = ra /\ At2(c, q, Star, Slash) }
  IN IF P = {} THEN << 0, 0 >>
     ELSE LET p == CHOOSE w \in P : \A v \in P : w[2] <= v[2]
              e == Skip(c, Skip(c, p[2], Word) + 12, Word) + 2
          IN << p[2] - 2, e >>

\* how many complaints the labels of a rule deserve
LabelErrors(t, r) ==
  LET c == IF r.code THEN SubSeq(t, r.a, r.e - 1) ELSE <<>>
      N == Len(r.rhs)
      same == N > 0 /\ r.la # "" /\ r.la = r.al[1]
      ow == IF N > 0 /\ r.la # "" /\ r.al[1] # "" /\ ~same THEN Overwrites(c, r.la, r.al[1]) ELSE << 0, 0 >>
      W == { w \in WordsFrom(c, 1) : ow[1] = 0 \/ w[2] < ow[1] \/ w[2] >= ow[2] }
      names == { w[1] : w \in W }
      lhsUsed == same \/ r.la \in names
      first(i) == \A j \in 1..(i-1) : r.al[j] # r.al[i]
      used(i) == (i = 1 /\ same) \/ (r.al[i] # r.la /\ first(i) /\ r.al[i] \in names)
      late == IF ow[1] = 0 THEN 0 ELSE Cardinality({ w \in W : w[1] = r.al[1] /\ w[2] > ow[1] })
      one(b) == IF b THEN 1 ELSE 0
      per == [ i \in 1..N |->
                 IF r.al[i] = "" THEN 0
                 ELSE one(i > 1 /\ r.la = r.al[i]) + one(i > 1 /\ \E j \in 1..(i-1) : r.al[j] = r.al[i]) + one(~used(i)) ]
  IN late + one(r.la # "" /\ ~lhsUsed) + Sum(per, N)

(* ---- what the file denotes --------------------------------------------------*)
AllIn(s, S) == \A k \in DOMAIN s : s[k] \in S
RECURSIVE Num(_, _)
Num(s, k) == IF k = 0 THEN 0 ELSE 10 * Num(s, k - 1) + (s[k] - 48)

\* the specification does not say what such a file means
Open(rd) ==
  \/ rd.odd
  \/ ~AllIn(rd.slot["name"], Word) \/ ~AllIn(rd.slot["token_prefix"], Word)
  \/ ~AllIn(rd.slot["expect"], Digit) \/ Len(rd.slot["expect"]) > 6
  \/ rd.terms = <<>>
  \/ \E k \in DOMAIN rd.rules : rd.rules[k].lhs = "error"
  \/ \E k \in DOMAIN rd.rules : LET r == rd.rules[k] IN Len(r.rhs) > 0 /\ r.la # "" /\ r.la = r.al[1] /\ (rd.anytype \/ r.rhs[1] = "error")

StartOf(rd) == IF "start_symbol" \notin rd.given THEN rd.rules[1].lhs
               ELSE IF AllIn(rd.slot["start_symbol"], Word) THEN Str(rd.slot["start_symbol"], 1) ELSE " "
\* nothing can be generated for it
Meaningless(rd) ==
  LET L == { rd.rules[k].lhs : k \in DOMAIN rd.rules }
      R == UNION { Elems(rd.rules[k].rhs) : k \in DOMAIN rd.rules }
  IN \/ StartOf(rd) \notin L
     \/ StartOf(rd) \in R
     \/ \E x \in R : x # "error" /\ x \in Elems(rd.nts) /\ x \notin L

Denotes(rd, fu, fz) ==
  [ terms |-> rd.terms, nts |-> rd.nts,
    cls |-> [ k \in DOMAIN rd.cls |-> [ n |-> rd.cls[k].n, m |-> rd.cls[k].m, t |-> Joined(rd.cls[k].m, 1) ] ],
    decl |-> rd.decl,
    start |-> IF "start_symbol" \notin rd.given THEN "" ELSE Str(rd.slot["start_symbol"], 1),
    wildcard |-> rd.wild, fallback |-> rd.fb,
    rules |-> [ k \in DOMAIN rd.rules |-> [ lhs |-> rd.rules[k].lhs, rhs |-> rd.rules[k].rhs, prec |-> rd.rules[k].prec, code |-> rd.rules[k].code ] ],
    expect |-> Num(rd.slot["expect"], Len(rd.slot["expect"])), fu |-> fu, fz |-> fz \/ rd.fz,
    prefix |-> Str(rd.slot["token_prefix"], 1) ]
=============================================================================

----------------------------- MODULE ByaccReader -----------------------------
(***************************************************************************)
(* The grammar a byacc input file denotes, defined on the characters of    *)
(* the file.  The reader is a machine over the text: each step consumes    *)
(* one declaration, or one element of the rules section.  Its state st is  *)
(*    i      the position in the text, Len+1 at the end; negative when the *)
(*           file is malformed (Bad) or left open (Unknown)                *)
(*    mode   "decl", "start" (before the first rule), "rules", "end"       *)
(*    order  the symbols in order of first mention                         *)
(*    sym    name -> [cls, val, tag]; cls is "U" (only mentioned), "T", "N"*)
(*    decl   the precedence and %start declarations, as Byacc.tla wants    *)
(*    rules  the finished rules; lhs, rhs, prec: the one being read        *)
(*    tags   whether any value tag was seen; uni whether a %union was      *)
(*    sr, rr %expect, %expect-rr                                           *)
(*    act    the last element of the current right-hand side is an action  *)
(* B: the -B option (actions in brackets).                                 *)
(***************************************************************************)
EXTENDS Chars

NoSym == [ cls |-> "U", val |-> -1, tag |-> "" ]
Reader0 == [ i |-> 1, mode |-> "decl", order |-> << "error" >>,
             sym |-> ( "error" :> [ NoSym EXCEPT !.cls = "T" ] ),
             decl |-> <<>>, rules |-> <<>>, lhs |-> "", rhs |-> <<>>, prec |-> "", goal |-> "",
             tags |-> FALSE, uni |-> FALSE, sr |-> -1, rr |-> -1, act |-> FALSE ]

Fail0(st, n) == [ st EXCEPT !.i = n ]

(* ---- lines: a line that is a complete #line directive is not text ----- *)
IsLineDirective(t, i) ==
  LET e == Find(t, i, { NL, 0 })      \* (what follows a NUL is not looked at)
      inl == Space \ { NL }
      h == Skip(t, i, inl)
  IN IF h >= e \/ t[h] # Hash THEN FALSE
     ELSE LET l == Skip(t, h + 1, inl)
          IN IF l + 4 > e \/ << t[l], t[l+1], t[l+2], t[l+3] >> # << 108, 105, 110, 101 >> THEN FALSE
             ELSE IF t[l+4] \notin inl THEN FALSE
             ELSE LET n == Skip(t, l + 4, inl)  m == Skip(t, n, Digit)
                  IN IF n >= e \/ m = n \/ t[m] \notin inl THEN FALSE
                     ELSE LET f == Skip(t, m, inl)
                          IN f < e /\ t[f] = Quote2 /\ t[f+1] # Quote2 /\ Find(t, f + 1, { Quote2, NL }) < e

RECURSIVE DropDirectives(_, _)
DropDirectives(t, i) ==
  IF i > Len(t) THEN <<>>
  ELSE LET e == LineEnd(t, i)
       IN (IF IsLineDirective(t, i) THEN <<>> ELSE SubSeq(t, i, e)) \o DropDirectives(t, e + 1)

\* a last line without a newline counts as a line
Lines(raw) == LET t == IF Len(raw) = 0 \/ raw[Len(raw)] = NL THEN raw ELSE Append(raw, NL)
              IN IF \E i \in DOMAIN t : t[i] = Hash THEN DropDirectives(t, 1) ELSE t

(* ---- lexical elements -------------------------------------------------- *)
Blank == Space \cup { Comma, Semi }

RECURSIVE White(_, _)
White(t, i) ==
  IF i > Len(t) THEN i
  ELSE IF t[i] \in Blank THEN White(t, i + 1)
  ELSE IF At2(t, i, Slash, Star)
       THEN LET e == CommentEnd(t, i + 2) IN IF e < 0 THEN e ELSE White(t, e)
  ELSE IF At2(t, i, Slash, Slash) THEN White(t, LineEnd(t, i) + 1)
  ELSE i

Ident == AlNum \cup { Under, Dot, Dollar }
Name1 == Alpha \cup { Under, Dollar }
Name2 == AlNum \cup { Under, Dollar }
SymStart == Alpha \cup { Under, Dot, Dollar }

Reserved(s) ==
  \/ s \in { << Dot >>, << 36, 97, 99, 99, 101, 112, 116 >>, << 36, 101, 110, 100 >> }
  \/ Len(s) > 2 /\ s[1] = Dollar /\ s[2] = Dollar /\ \A k \in 3..Len(s) : s[k] \in Digit

\* << number, position after it >>; the position is Bad when it does not fit
RECURSIVE NumAt(_, _, _)
NumAt(t, i, n) ==
  IF i > Len(t) \/ t[i] \notin Digit THEN << n, i >>
  ELSE IF n > 214748364 \/ (n = 214748364 /\ t[i] - 48 > 7) THEN << 0, Bad >>
  ELSE NumAt(t, i + 1, 10 * n + t[i] - 48)

\* a string or character constant inside copied code; i: after the opening quote
RECURSIVE StringEnd(_, _, _)
StringEnd(t, i, q) ==
  IF i > Len(t) \/ t[i] = NL THEN Bad
  ELSE IF t[i] = q THEN i + 1
  ELSE IF t[i] = BSlash THEN (IF i + 2 > Len(t) THEN Bad ELSE StringEnd(t, i + 2, q))
  ELSE StringEnd(t, i + 1, q)

\* i: after a '/' inside copied code
SlashEnd(t, i) ==
  IF i > Len(t) THEN Bad
  ELSE IF t[i] = Slash THEN LineEnd(t, i)
  ELSE IF t[i] = Star THEN CommentEnd(t, i + 1)
  ELSE i

Esc(c) == CASE c = 97 -> 7 [] c = 98 -> 8 [] c = 102 -> 12 [] c = 110 -> 10
            [] c = 114 -> 13 [] c = 116 -> 9 [] c = 118 -> 11 [] OTHER -> c

RECURSIVE HexRun(_, _, _)
HexRun(t, i, n) == IF n > 255 THEN << n, Bad >>
                   ELSE IF HexVal(t[i]) < 0 THEN << n, i >>
                   ELSE HexRun(t, i + 1, 16 * n + HexVal(t[i]))
OctRun(t, i) ==
  LET a == t[i] - 48
  IN IF t[i+1] \notin Octal THEN << a, i + 1 >>
     ELSE LET b == 8 * a + t[i+1] - 48
          IN IF t[i+2] \notin Octal THEN << b, i + 2 >>
             ELSE LET c == 8 * b + t[i+2] - 48 IN << c, IF c > 255 THEN Bad ELSE i + 3 >>

\* the codes of a quoted symbol; i: after the opening quote.  << codes, position >>
RECURSIVE Quoted(_, _, _, _)
Quoted(t, i, q, acc) ==
  IF i > Len(t) \/ t[i] = NL THEN << acc, Bad >>
  ELSE IF t[i] = q THEN << acc, i + 1 >>
  ELSE IF t[i] # BSlash THEN Quoted(t, i + 1, q, Append(acc, t[i]))
  ELSE LET d == t[i+1]
       IN IF d = NL THEN (IF i + 2 > Len(t) THEN << acc, Bad >> ELSE Quoted(t, i + 2, q, acc))
          ELSE IF d \in Octal
               THEN LET r == OctRun(t, i + 1)
                    IN IF r[2] < 0 THEN << acc, Bad >> ELSE Quoted(t, r[2], q, Append(acc, r[1]))
          ELSE IF d = 120
               THEN IF HexVal(t[i+2]) < 0 THEN << acc, Bad >>
                    ELSE LET r == HexRun(t, i + 2, 0)
                         IN IF r[2] < 0 THEN << acc, Bad >> ELSE Quoted(t, r[2], q, Append(acc, r[1]))
          ELSE Quoted(t, i + 2, q, Append(acc, Esc(d)))

\* how a quoted symbol is named: one spelling per sequence of characters
EscGlyph(c) == CASE c = 7 -> "a" [] c = 8 -> "b" [] c = 12 -> "f" [] c = 10 -> "n"
                 [] c = 13 -> "r" [] c = 9 -> "t" [] c = 11 -> "v"
                 [] OTHER -> Chr(48 + ((c \div 64) % 8)) \o Chr(48 + ((c \div 8) % 8)) \o Chr(48 + (c % 8))
RECURSIVE QuotedBody(_, _, _)
QuotedBody(s, i, q) ==
  IF i > Len(s) THEN ""
  ELSE (IF s[i] = BSlash \/ s[i] = q THEN "\\" \o Chr(s[i])
        ELSE IF s[i] \in 32..126 THEN Chr(s[i]) ELSE "\\" \o EscGlyph(s[i])) \o QuotedBody(s, i + 1, q)
QuotedName(s) == LET q == IF Len(s) = 1 THEN Quote1 ELSE Quote2
                 IN Chr(q) \o QuotedBody(s, 1, q) \o Chr(q)

(* ---- the symbol table -------------------------------------------------- *)
Mention(st, n) == IF n \in DOMAIN st.sym THEN st
                  ELSE [ st EXCEPT !.order = Append(@, n), !.sym = @ @@ ( n :> NoSym ) ]

\* read the symbol that starts at i (a name or a quoted symbol): [n |-> name, st |-> the state after it]
SymbolAt(t, st, i) ==
  IF t[i] \in { Quote1, Quote2 }
  THEN LET r == TLCEval(Quoted(t, i + 1, t[i], <<>>))
       IN IF r[2] < 0 THEN [ n |-> "", st |-> Fail0(st, Bad) ]
          ELSE LET n == QuotedName(r[1])
                   s == Mention(st, n)
                   e == s.sym[n]
               IN [ n |-> n, st |-> [ s EXCEPT !.i = r[2],
                      !.sym = [ @ EXCEPT ![n] = [ @ EXCEPT !.cls = "T",
                                !.val = IF Len(r[1]) = 1 /\ e.val = -1 THEN r[1][1] ELSE e.val ] ] ] ]
  ELSE LET j == Skip(t, i, Ident)
       IN IF Reserved(SubSeq(t, i, j - 1)) THEN [ n |-> "", st |-> Fail0(st, Bad) ]
          ELSE LET n == Cut(t, i, j) IN [ n |-> n, st |-> [ Mention(st, n) EXCEPT !.i = j ] ]

\* the tag opened at i: << tag, position after it >>
TagAt(t, i) ==
  LET a == White(t, i + 1)
  IN IF a < 0 \/ a > Len(t) THEN << "", Bad >>
     ELSE IF t[a] \notin Name1 THEN << "", Bad >>
     ELSE LET b == Skip(t, a, Ident)  c == White(t, b)
          IN IF c < 0 \/ c > Len(t) THEN << "", Bad >>
             ELSE IF t[c] # More THEN << "", Bad >> ELSE << Cut(t, a, b), c + 1 >>

(* ---- declarations ------------------------------------------------------ *)
\* %token, %left, ...: tag, then symbols each with an optional number
RECURSIVE TokenList(_, _, _, _, _)
TokenList(t, st, k, tag, names) ==
  LET j == White(t, st.i)
      done == [ st EXCEPT !.i = j, !.decl = IF k = "token" THEN @ ELSE Append(@, [ k |-> k, syms |-> names ]) ]
  IN IF j < 0 \/ j > Len(t) THEN Fail0(st, Bad)
     ELSE IF t[j] \notin SymStart \cup { Quote1, Quote2 } THEN done
     ELSE LET r == TLCEval(SymbolAt(t, st, j))
          IN IF r.st.i < 0 THEN r.st
             ELSE IF r.n = st.goal THEN Fail0(st, Bad)
             ELSE LET s1 == [ r.st EXCEPT !.sym = [ @ EXCEPT ![r.n] =
                               [ @ EXCEPT !.cls = "T", !.tag = IF tag = "" THEN @ ELSE tag ] ] ]
                      m == White(t, s1.i)
                  IN IF m < 0 \/ m > Len(t) THEN Fail0(st, Bad)
                     ELSE IF t[m] \notin Digit THEN TokenList(t, [ s1 EXCEPT !.i = m ], k, tag, Append(names, r.n))
                     ELSE LET v == NumAt(t, m, 0)
                          IN IF v[2] < 0 THEN Fail0(st, Bad)
                             ELSE TokenList(t, TLCEval([ s1 EXCEPT !.i = v[2], !.sym = [ @ EXCEPT ![r.n] = [ @ EXCEPT !.val = v[1] ] ] ]),
                                            k, tag, Append(names, r.n))

OptTag(t, st, j) == IF t[j] = Less THEN TagAt(t, j) ELSE << "", j >>

DeclTokens(t, st, k) ==
  LET j == White(t, st.i)
  IN IF j < 0 \/ j > Len(t) THEN Fail0(st, Bad)
     ELSE LET g == OptTag(t, st, j)
          IN IF g[2] < 0 THEN Fail0(st, Bad)
             ELSE TokenList(t, [ st EXCEPT !.i = g[2], !.tags = @ \/ g[1] # "" ], k, g[1], <<>>)

RECURSIVE TypeList(_, _, _)
TypeList(t, st, tag) ==
  LET j == White(t, st.i)
  IN IF j < 0 \/ j > Len(t) THEN Fail0(st, Bad)
     ELSE IF t[j] \notin SymStart \cup { Quote1, Quote2 } THEN [ st EXCEPT !.i = j ]
     ELSE LET r == TLCEval(SymbolAt(t, st, j))
              m == IF r.st.i < 0 THEN Bad ELSE White(t, r.st.i)
          IN IF m < 0 THEN Fail0(st, Bad)
             ELSE IF m <= Len(t) /\ t[m] = LPar /\ t[j] \in SymStart THEN Fail0(st, Unknown)   \* inherited attributes
             ELSE TypeList(t, TLCEval([ r.st EXCEPT !.i = m, !.sym = [ @ EXCEPT ![r.n] = [ @ EXCEPT !.tag = IF tag = "" THEN @ ELSE tag ] ] ]), tag)

DeclTypes(t, st) ==
  LET j == White(t, st.i)
  IN IF j < 0 \/ j > Len(t) THEN Fail0(st, Bad)
     ELSE LET g == OptTag(t, st, j)
          IN IF g[2] < 0 THEN Fail0(st, Bad) ELSE TypeList(t, [ st EXCEPT !.i = g[2], !.tags = @ \/ g[1] # "" ], g[1])

DeclStart(t, st) ==
  LET j == White(t, st.i)
  IN IF j < 0 \/ j > Len(t) THEN Fail0(st, Bad)
     ELSE IF t[j] \notin SymStart THEN Fail0(st, Bad)
     ELSE LET r == TLCEval(SymbolAt(t, st, j))
          IN IF r.st.i < 0 THEN r.st
             ELSE IF r.st.sym[r.n].cls = "T" THEN Fail0(st, Bad)
             ELSE [ r.st EXCEPT !.goal = r.n ]

\* the number stands on the line of the keyword, one character after it
DeclExpect(t, st, which) ==
  IF t[st.i] = NL THEN Fail0(st, Bad)
  ELSE LET j == Skip(t, st.i + 1, Space \ { NL })
       IN IF t[j] \notin Digit THEN Fail0(st, Bad)
          ELSE LET v == NumAt(t, j, 0)
               IN IF v[2] < 0 THEN Fail0(st, Bad)
                  ELSE IF which = "sr" THEN [ st EXCEPT !.i = v[2], !.sr = v[1] ] ELSE [ st EXCEPT !.i = v[2], !.rr = v[1] ]

\* %{ ... %}
RECURSIVE TextEnd(_, _)
TextEnd(t, i) ==
  IF i > Len(t) THEN Bad
  ELSE IF t[i] \in { Quote1, Quote2 } THEN LET e == StringEnd(t, i + 1, t[i]) IN IF e < 0 THEN e ELSE TextEnd(t, e)
  ELSE IF t[i] = Slash THEN LET e == SlashEnd(t, i + 1) IN IF e < 0 THEN e ELSE TextEnd(t, e)
  ELSE IF t[i] \in { Percent, BSlash } /\ t[i+1] = RCurl THEN i + 2
  ELSE TextEnd(t, i + 1)

\* %union: everything up to the brace that closes the first one
RECURSIVE UnionEnd(_, _, _)
UnionEnd(t, i, depth) ==
  IF i > Len(t) THEN Bad
  ELSE IF t[i] \in { Quote1, Quote2 } THEN LET e == StringEnd(t, i + 1, t[i]) IN IF e < 0 THEN e ELSE UnionEnd(t, e, depth)
  ELSE IF t[i] = Slash THEN LET e == SlashEnd(t, i + 1) IN IF e < 0 THEN e ELSE UnionEnd(t, e, depth)
  ELSE IF t[i] = LCurl THEN UnionEnd(t, i + 1, depth + 1)
  ELSE IF t[i] = RCurl THEN (IF depth = 1 THEN i + 1 ELSE UnionEnd(t, i + 1, depth - 1))
  ELSE UnionEnd(t, i + 1, depth)

\* %code [place] { ... }.  A brace inside a string or comment of the code is left open.
CodeWords == << << 114, 101, 113, 117, 105, 114, 101, 115 >>, << 112, 114, 111, 118, 105, 100, 101, 115 >>,
                << 116, 111, 112 >>, << 105, 109, 112, 111, 114, 116, 115 >> >>
RECURSIVE CurlEnd(_, _, _)
CurlEnd(t, i, depth) ==
  IF i > Len(t) THEN Bad
  ELSE IF t[i] = LCurl THEN CurlEnd(t, i + 1, depth + 1)
  ELSE IF t[i] = RCurl THEN (IF depth = 1 THEN i + 1 ELSE CurlEnd(t, i + 1, depth - 1))
  ELSE CurlEnd(t, i + 1, depth)
CodeEnd(t, i) ==
  LET j == Skip(t, i, Space)
      W == { k \in DOMAIN CodeWords : j + Len(CodeWords[k]) <= Len(t) /\ SubSeq(t, j, j + Len(CodeWords[k]) - 1) = CodeWords[k] }
      body(b) == LET e == UnionEnd(t, b + 1, 1) IN IF e = CurlEnd(t, b + 1, 1) THEN e ELSE Unknown
  IN IF j > Len(t) THEN Bad
     ELSE IF t[j] = LCurl THEN body(j)
     ELSE IF W = {} THEN Bad
     ELSE LET w == CHOOSE k \in W : TRUE
              m == j + Len(CodeWords[w])
              b == Skip(t, m, Space)
          IN IF t[m] \notin Space \cup { LCurl } THEN Bad
             ELSE IF b > Len(t) THEN Bad
             ELSE IF t[b] = LCurl THEN body(b) ELSE Unknown

\* the code of %destructor and %initial-action, on the line of the keyword: << position, tag seen >>
RECURSIVE GetCode(_, _, _, _)
GetCode(t, i, depth, tg) ==
  IF i > Len(t) THEN << Bad, tg >>
  ELSE LET c == t[i]
  IN IF c = Dollar /\ t[i+1] = Less
     THEN LET g == TagAt(t, i + 1)
          IN IF g[2] < 0 THEN << Bad, tg >>
             ELSE IF g[2] > Len(t) \/ t[g[2]] # Dollar THEN << Bad, tg >> ELSE GetCode(t, g[2] + 1, depth, TRUE)
  ELSE IF At2(t, i, Dollar, Dollar) THEN GetCode(t, i + 2, depth, tg)
  ELSE IF c \in Name1 THEN GetCode(t, Skip(t, i, Name2), depth, tg)
  ELSE IF c \in { Quote1, Quote2 } THEN LET e == StringEnd(t, i + 1, c) IN IF e < 0 THEN << e, tg >> ELSE GetCode(t, e, depth, tg)
  ELSE IF c = Slash THEN LET e == SlashEnd(t, i + 1) IN IF e < 0 THEN << e, tg >> ELSE GetCode(t, e, depth, tg)
  ELSE IF c = LCurl THEN GetCode(t, i + 1, depth + 1, tg)
  ELSE IF c = RCurl THEN (IF depth <= 1 THEN << i + 1, tg >> ELSE GetCode(t, i + 1, depth - 1, tg))
  ELSE GetCode(t, i + 1, depth, tg)

CodeBlock(t, st) ==
  LET j == Skip(t, st.i, Space \ { NL })
  IN IF t[j] # LCurl THEN Fail0(st, Bad)
     ELSE LET r == TLCEval(GetCode(t, j, 0, FALSE)) IN [ st EXCEPT !.i = r[1], !.tags = @ \/ r[2] ]

RECURSIVE DestructorList(_, _)
DestructorList(t, st) ==
  LET j == White(t, st.i)
  IN IF j < 0 \/ j > Len(t) THEN Fail0(st, Bad)
     ELSE IF t[j] = Less
     THEN IF t[j+1] = More THEN DestructorList(t, [ st EXCEPT !.i = j + 2 ])
          ELSE IF At2(t, j + 1, Star, More) THEN DestructorList(t, [ st EXCEPT !.i = j + 3 ])
          ELSE LET g == TagAt(t, j)
               IN IF g[2] < 0 THEN Fail0(st, Bad) ELSE DestructorList(t, [ st EXCEPT !.i = g[2], !.tags = TRUE ])
     ELSE IF t[j] \in SymStart
     THEN LET r == TLCEval(SymbolAt(t, st, j)) IN IF r.st.i < 0 THEN r.st ELSE DestructorList(t, r.st)
     ELSE [ st EXCEPT !.i = j ]

\* %parse-param, %lex-param: one braced list of simple declarations; anything else is left open
ParamEnd(t, i) ==
  LET inl == Space \ { NL }
      j == Skip(t, i, inl)
      e == Find(t, j + 1, { RCurl })
      in == { t[k] : k \in (j + 1)..(e - 1) }
      words(k) == t[k] \in AlNum \cup { Under }
      last == CHOOSE k \in (j + 1)..(e - 1) : t[k] \notin inl /\ \A m \in (k + 1)..(e - 1) : t[m] \in inl
      first == Skip(t, last, {}) \* the end of the last word
      wstart == CHOOSE k \in (j + 1)..last : (\A m \in k..last : words(m)) /\ (k = j + 1 \/ ~words(k - 1))
      ok == /\ in \subseteq AlNum \cup inl \cup { Under, Star }
            /\ \E k \in (j + 1)..(e - 1) : t[k] \notin inl
      restOfLine == SubSeq(t, e + 1, LineEnd(t, e))
  IN IF t[j] # LCurl THEN (IF t[j] = Slash THEN Unknown ELSE Bad)
     ELSE IF e > Len(t) THEN Unknown
     ELSE IF ~ok THEN Unknown
     ELSE IF RCurl \in { restOfLine[k] : k \in DOMAIN restOfLine } \/ Slash \in { restOfLine[k] : k \in DOMAIN restOfLine } THEN Unknown
     ELSE IF ~words(last) THEN Unknown
     ELSE IF t[Skip(t, j + 1, inl)] \notin Alpha \/ Skip(t, j + 1, inl) = wstart THEN Unknown
     ELSE e + 1

\* %define name value, on one line
DefineEnd(t, i) ==
  LET inl == { 32, TabC }
      e == LineEnd(t, i)
      body == SubSeq(t, i, e)
      j == Skip(t, i, inl)  m == Skip(t, j, Ident)
      k == Skip(t, m, inl)  n == Skip(t, k, Ident)
  IN IF \E x \in DOMAIN body : body[x] = Slash \/ body[x] = 0 THEN Unknown
     ELSE IF j = e THEN Unknown
     ELSE IF SubSeq(t, j, m - 1) # << 97, 112, 105, 46, 112, 117, 114, 101 >> THEN Bad
     ELSE IF n > k /\ Cut(t, k, n) \notin { "true", "false", "full" } THEN Bad
     ELSE e

Keywords == [ token |-> "token", term |-> "token", left |-> "left", right |-> "right", nonassoc |-> "nonassoc", binary |-> "nonassoc",
              precedence |-> "precedence", type |-> "type", nterm |-> "type", start |-> "start", expect |-> "expect",
              union |-> "union", code |-> "code", ident |-> "ident", destructor |-> "destructor", locations |-> "nop",
              debug |-> "nop", yacc |-> "nop", define |-> "define" ] @@
            ( "expect-rr" :> "expect-rr" ) @@ ( "pure-parser" :> "nop" ) @@ ( "token-table" :> "nop" ) @@ ( "error-verbose" :> "nop" ) @@
            ( "parse-param" :> "param" ) @@ ( "lex-param" :> "param" ) @@ ( "initial-action" :> "initial" )

RECURSIVE KeyText(_, _, _)
KeyText(t, i, j) == IF i >= j THEN "" ELSE (IF t[i] = Under THEN "-" ELSE Chr(ToLower(t[i]))) \o KeyText(t, i + 1, j)

\* the keyword whose '%' is at i: << kind, position after it >>
KeywordAt(t, i) ==
  LET c == t[i+1]
  IN IF c \in Alpha
     THEN LET j == Skip(t, i + 1, AlNum \cup { Under, Dot, Dollar, Minus })
              w == KeyText(t, i + 1, j)
          IN IF w \in DOMAIN Keywords THEN << Keywords[w], j >> ELSE << "", Bad >>
     ELSE CASE c = LCurl -> << "text", i + 2 >> [] c \in { Percent, BSlash } -> << "mark", i + 2 >>
            [] c = Less -> << "left", i + 2 >> [] c = More -> << "right", i + 2 >>
            [] c = 48 -> << "token", i + 2 >> [] c = 50 -> << "nonassoc", i + 2 >> [] OTHER -> << "", Bad >>

IdentEnd(t, i) ==
  LET j == White(t, i)
  IN IF j < 0 \/ j > Len(t) THEN Bad
     ELSE IF t[j] # Quote2 THEN Bad
     ELSE LET e == Find(t, j + 1, { Quote2, NL }) IN IF t[e] = NL THEN e ELSE e + 1

Declaration(t, st0) ==
  LET p == White(t, st0.i)
  IN IF p < 0 \/ p > Len(t) THEN Fail0(st0, Bad)
     ELSE IF t[p] \notin { Percent, BSlash } THEN Fail0(st0, Bad)
     ELSE LET kw == KeywordAt(t, p)
              k == kw[1]
              st == [ st0 EXCEPT !.i = kw[2] ]
          IN IF st.i < 0 THEN st
             ELSE CASE k = "mark" -> [ st EXCEPT !.mode = "start" ]
                    [] k \in { "token", "left", "right", "nonassoc", "precedence" } -> DeclTokens(t, st, k)
                    [] k = "type" -> DeclTypes(t, st)
                    [] k = "start" -> DeclStart(t, st)
                    [] k = "expect" -> DeclExpect(t, st, "sr")
                    [] k = "expect-rr" -> DeclExpect(t, st, "rr")
                    [] k = "text" -> [ st EXCEPT !.i = TextEnd(t, st.i) ]
                    [] k = "union" -> IF st.uni THEN Fail0(st, Bad) ELSE [ st EXCEPT !.i = UnionEnd(t, st.i, 0), !.uni = TRUE ]
                    [] k = "code" -> [ st EXCEPT !.i = CodeEnd(t, st.i) ]
                    [] k = "ident" -> [ st EXCEPT !.i = IdentEnd(t, st.i) ]
                    [] k = "define" -> [ st EXCEPT !.i = DefineEnd(t, st.i) ]
                    [] k = "param" -> [ st EXCEPT !.i = ParamEnd(t, st.i) ]
                    [] k = "initial" -> CodeBlock(t, st)
                    [] k = "destructor" -> LET s == TLCEval(CodeBlock(t, st)) IN IF s.i < 0 THEN s ELSE DestructorList(t, s)
                    [] OTHER -> st

(* ---- rules -------------------------------------------------------------- *)
StartRule(st, n) ==
  IF st.sym[n].cls = "T" THEN Fail0(st, Bad)
  ELSE [ st EXCEPT !.lhs = n, !.rhs = <<>>, !.prec = "", !.act = FALSE, !.sym = [ @ EXCEPT ![n] = [ @ EXCEPT !.cls = "N" ] ] ]

EndRule(st) == [ st EXCEPT !.rules = Append(@, [ lhs |-> st.lhs, rhs |-> st.rhs, prec |-> st.prec ]) ]

\* before the first rule: code, %start, then "name :"
FirstRule(t, st) ==
  LET p == White(t, st.i)
  IN IF p < 0 \/ p > Len(t) THEN Fail0(st, Bad)
     ELSE IF t[p] \in { Percent, BSlash }
     THEN LET kw == KeywordAt(t, p)  s == [ st EXCEPT !.i = kw[2] ]
          IN IF s.i < 0 THEN s
             ELSE CASE kw[1] = "code" -> [ s EXCEPT !.i = CodeEnd(t, s.i) ]
                    [] kw[1] = "text" -> [ s EXCEPT !.i = TextEnd(t, s.i) ]
                    [] kw[1] = "start" -> DeclStart(t, s)
                    [] OTHER -> Fail0(s, Bad)
     ELSE IF t[p] \notin SymStart \ { Dollar } THEN Fail0(st, Bad)
     ELSE LET r == TLCEval(SymbolAt(t, st, p))
              q == IF r.st.i < 0 THEN Bad ELSE White(t, r.st.i)
          IN IF q < 0 \/ q > Len(t) THEN Fail0(st, Bad)
             ELSE IF t[q] = LPar THEN Fail0(st, Unknown)
             ELSE IF t[q] # Colon THEN Fail0(st, Bad)
             ELSE LET s == StartRule(r.st, r.n)
                  IN IF s.i < 0 THEN s
                     ELSE [ s EXCEPT !.i = q + 1, !.mode = "rules", !.goal = IF @ = "" THEN r.n ELSE @ ]

(* An action.  e: what the action can refer to:                            *)
(*   n the symbols before it, tag(k) their tags, ltag the tag of the       *)
(*   left-hand side, B; s: [i, depth, tg (tags seen), trial, yv ($$ used)] *)
ActFail(s, n) == [ s EXCEPT !.i = n ]
RECURSIVE Action(_, _, _)
Action(t, e, s) ==
  IF s.i < 0 THEN s
  ELSE IF s.i > Len(t) THEN ActFail(s, Bad)
  ELSE LET i == s.i
           c == t[i]
           d == IF i < Len(t) THEN t[i+1] ELSE NL
           go(j) == Action(t, e, [ s EXCEPT !.i = j ])
           stop(j) == [ s EXCEPT !.i = j ]
           after == LET j == White(t, i + 1) IN j      \* -B: what follows a part of an action
  IN
  IF c = Dollar /\ d = Less
  THEN LET g == TLCEval(TagAt(t, i + 1))
           s1 == [ s EXCEPT !.tg = TRUE ]
           x == IF g[2] < 0 \/ g[2] > Len(t) THEN NL ELSE t[g[2]]
       IN IF g[2] < 0 THEN ActFail(s, Bad)
          ELSE IF x = Dollar THEN Action(t, e, [ s1 EXCEPT !.i = g[2] + 1 ])
          ELSE IF x \in Digit THEN Action(t, e, [ s1 EXCEPT !.i = NumAt(t, g[2], 0)[2] ])
          ELSE IF x = Minus /\ t[g[2]+1] \in Digit THEN Action(t, e, [ s1 EXCEPT !.i = NumAt(t, g[2] + 1, 0)[2] ])
          ELSE IF x \in Alpha \cup { Under } THEN Action(t, e, [ s1 EXCEPT !.i = Skip(t, g[2], Name2) ])
          ELSE ActFail(s, Bad)
  ELSE IF c = Dollar /\ d = Dollar
  THEN IF s.tg /\ e.ltag = "" THEN ActFail(s, Bad) ELSE Action(t, e, [ s EXCEPT !.i = i + 2, !.yv = TRUE ])
  ELSE IF c = Dollar /\ d \in Digit
  THEN LET v == NumAt(t, i + 1, 0)
       IN IF v[2] < 0 THEN ActFail(s, Bad)
          ELSE IF s.tg /\ Len(e.tags) > 0 /\ (v[1] < 1 \/ v[1] > Len(e.tags)) THEN ActFail(s, Bad)
          ELSE IF s.tg /\ Len(e.tags) > 0 THEN (IF e.tags[v[1]] = "" THEN ActFail(s, Bad) ELSE go(v[2]))
          ELSE go(v[2])
  ELSE IF c = Dollar /\ d = Minus
  THEN LET v == NumAt(t, i + 2, 0) IN IF v[2] < 0 \/ s.tg THEN ActFail(s, Bad) ELSE go(v[2])
  ELSE IF c = Dollar /\ d \in Alpha \cup { Under } THEN go(Skip(t, i + 1, Name2))
  ELSE IF c = At /\ d = Dollar THEN go(i + 2)
  ELSE IF c = At /\ d \in Digit THEN go(NumAt(t, i + 1, 0)[2])
  ELSE IF c = At /\ d = Minus THEN go(NumAt(t, i + 2, 0)[2])
  ELSE IF c \in Name1 THEN go(Skip(t, i, Name2))
  ELSE IF e.B /\ s.trial /\ c = LBrac /\ s.depth = 0 THEN Action(t, e, [ s EXCEPT !.i = i + 1, !.depth = 1 ])
  ELSE IF e.B /\ s.trial /\ c = RBrac /\ s.depth = 1
  THEN IF after < 0 THEN ActFail(s, after)
       ELSE IF after <= Len(t) /\ ~s.yv /\ t[after] = LBrac THEN Action(t, e, [ s EXCEPT !.i = after, !.depth = 0 ])
       ELSE IF after <= Len(t) /\ ~s.yv /\ t[after] = LCurl THEN Action(t, e, [ s EXCEPT !.i = after, !.depth = 0, !.trial = FALSE ])
       ELSE stop(after)
  ELSE IF c = Semi THEN (IF s.depth > 0 THEN go(i + 1) ELSE stop(i + 1))
  ELSE IF c \in { LBrac, RBrac } /\ e.B
       THEN Action(t, e, [ s EXCEPT !.i = i + 1, !.depth = IF c = LBrac THEN @ + 1 ELSE @ - 1 ])
  ELSE IF c = LCurl THEN Action(t, e, [ s EXCEPT !.i = i + 1, !.depth = @ + 1 ])
  ELSE IF c = RCurl
  THEN IF s.depth > 1 THEN Action(t, e, [ s EXCEPT !.i = i + 1, !.depth = @ - 1 ])
       ELSE IF ~e.B THEN stop(i + 1)
       ELSE IF after < 0 THEN ActFail(s, after)
       ELSE IF after <= Len(t) /\ ~s.yv /\ t[after] = LBrac THEN Action(t, e, [ s EXCEPT !.i = after, !.depth = @ - 1, !.trial = TRUE ])
       ELSE IF after <= Len(t) /\ ~s.yv /\ t[after] = LCurl THEN Action(t, e, [ s EXCEPT !.i = after, !.depth = @ - 1 ])
       ELSE stop(after)
  ELSE IF c \in { Quote1, Quote2 } THEN go(StringEnd(t, i + 1, c))
  ELSE IF c = Slash THEN go(SlashEnd(t, i + 1))
  ELSE go(i + 1)

\* mid-rule actions so far count as symbols; their value has the type of the left-hand side
TagsOf(st) == [ k \in DOMAIN st.rhs |-> IF st.rhs[k] = "{}" THEN st.sym[st.lhs].tag ELSE st.sym[st.rhs[k]].tag ]

RuleAction(t, st, p, B) ==
  LET e == [ tags |-> TLCEval(TagsOf(st)), ltag |-> st.sym[st.lhs].tag, B |-> B ]
      q == IF t[p] = Equal THEN p + 1 ELSE p
      z == Skip(t, q, Space \ { NL })
      r == TLCEval(Action(t, e, [ i |-> IF t[z] = LCurl THEN z ELSE q, depth |-> 0, tg |-> st.tags, trial |-> t[p] = LBrac, yv |-> FALSE ]))
  IN IF r.i < 0 THEN Fail0(st, r.i)
     ELSE [ st EXCEPT !.i = r.i, !.tags = r.tg, !.rhs = Append(@, "{}") ]

PrecWord(t, i, w) == i + Len(w) <= Len(t) /\ (\A k \in DOMAIN w : ToLower(t[i + k - 1]) = w[k]) /\ t[i + Len(w)] \notin Ident

RuleElement(t, st, B) ==
  LET p == White(t, st.i)
  IN IF p < 0 THEN Fail0(st, p)
     ELSE IF p > Len(t) THEN [ EndRule(st) EXCEPT !.mode = "end" ]
     ELSE LET c == t[p]
     IN IF c \in SymStart \cup { Quote1, Quote2 }
        THEN LET r == TLCEval(SymbolAt(t, st, p))
                 q == IF r.st.i < 0 THEN r.st.i ELSE White(t, r.st.i)
             IN IF q < 0 THEN Fail0(st, q)
                ELSE IF q <= Len(t) /\ t[q] = LPar THEN Fail0(st, Unknown)
                ELSE IF q <= Len(t) /\ t[q] = Colon
                THEN LET s == TLCEval(StartRule(EndRule(r.st), r.n)) IN IF s.i < 0 THEN s ELSE [ s EXCEPT !.i = q + 1 ]
                ELSE [ r.st EXCEPT !.i = q, !.rhs = Append(@, r.n) ]
        ELSE IF c \in { LCurl, Equal } \/ (B /\ c = LBrac) THEN RuleAction(t, st, p, B)
        ELSE IF c = Bar THEN [ StartRule(EndRule(st), st.lhs) EXCEPT !.i = p + 1 ]
        ELSE IF c \in { Percent, BSlash }
        THEN IF t[p+1] \in { Percent, BSlash } THEN [ EndRule(st) EXCEPT !.i = p + 2, !.mode = "end" ]
             ELSE IF PrecWord(t, p + 1, << 101, 109, 112, 116, 121 >>)
             THEN \* nothing more: %empty only says that nothing stands here
                  [ st EXCEPT !.i = p + 6 ]
             ELSE LET a == IF t[p+1] = Equal THEN p + 2 ELSE IF PrecWord(t, p + 1, << 112, 114, 101, 99 >>) THEN p + 5 ELSE Bad
                      q == IF a < 0 THEN Bad ELSE White(t, a)
                  IN IF q < 0 \/ q > Len(t) THEN Fail0(st, Bad)
                     ELSE IF t[q] \notin SymStart \cup { Quote1, Quote2 } THEN Fail0(st, Bad)
                     ELSE LET r == TLCEval(SymbolAt(t, st, q))
                          IN IF r.st.i < 0 THEN r.st ELSE [ r.st EXCEPT !.prec = r.n ]
        ELSE Fail0(st, Bad)

ReaderStep(t, st, B) ==
  CASE st.mode = "decl" -> Declaration(t, st)
    [] st.mode = "start" -> FirstRule(t, st)
    [] OTHER -> RuleElement(t, st, B)

RECURSIVE ReaderSteps(_, _, _, _)
ReaderSteps(t, st, B, n) ==
  IF n = 0 \/ st.i < 0 \/ st.mode = "end" THEN st
  ELSE ReaderSteps(t, TLCEval(ReaderStep(t, st, B)), B, n - 1)

(* ---- the grammar denoted ------------------------------------------------ *)
Defined(st) == st.sym[st.goal].cls # "U"

\* symbols mentioned but not defined are tokens
TokensOf(st) == SelectSeq(st.order, LAMBDA n : st.sym[n].cls # "N")

(* token numbers: the declared one, else a character's code, 256 for error, *)
(* else the numbers from 257 up that no token was declared to have          *)
RECURSIVE Assign(_, _, _, _, _)
Assign(toks, sym, k, n, taken) ==
  IF k > Len(toks) THEN <<>>
  ELSE IF sym[toks[k]].val # -1 THEN << sym[toks[k]].val >> \o Assign(toks, sym, k + 1, n, taken)
  ELSE IF toks[k] = "error" THEN << 256 >> \o Assign(toks, sym, k + 1, n, taken)
  ELSE LET m == CHOOSE x \in n..(n + Cardinality(taken)) : x \notin taken /\ \A y \in n..(x - 1) : y \in taken
       IN << m >> \o Assign(toks, sym, k + 1, m + 1, taken)
TokenNumbers(st) ==
  LET toks == TokensOf(st) IN Assign(toks, st.sym, 1, 257, { st.sym[toks[k]].val : k \in DOMAIN toks })

Denoted(st, fu, fz, fB) ==
  [ names |-> SelectSeq(st.order, LAMBDA n : n # "error"),
    decl |-> Append(st.decl, [ k |-> "start", syms |-> << st.goal >> ]),
    rules |-> st.rules, fu |-> fu, fz |-> fz, fB |-> fB, sr |-> st.sr, rr |-> st.rr ]
=============================================================================

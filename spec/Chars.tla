-------------------------------- MODULE Chars --------------------------------
(***************************************************************************)
(* Texts as sequences of character codes, and what every reader of the     *)
(* repository does with them.  Positions are 1-based; Len(t) + 1 is the    *)
(* end of the file.  A negative position means failure:                    *)
(*    Bad       the text is malformed here                                 *)
(*    Unknown   the specification leaves open what happens                 *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

Bad == -1
Unknown == -2

Glyphs == << " ", "!", "\"", "#", "$", "%", "&", "'", "(", ")", "*", "+", ",", "-", ".", "/", "0", "1", "2", "3", "4", 
"5", "6", "7", "8", "9", ":", ";", "<", "=", ">", "?", "@", "A", "B", "C", "D", "E", "F", "G", "H", "I", "J", 
"K", "L", "M", "N", "O", "P", "Q", "R", "S", "T", "U", "V", "W", "X", "Y", "Z", "[", "\\", "]", "^", "_", 
"`", "a", "b", "c", "d", "e", "f", "g", "h", "i", "j", "k", "l", "m", "n", "o", "p", "q", "r", "s", "t", "u", 
"v", "w", "x", "y", "z", "{", "|", "}", "~" >>
Chr(c) == Glyphs[c - 31]

Lower == 97..122
Upper == 65..90
Digit == 48..57
Alpha == Lower \cup Upper
AlNum == Alpha \cup Digit
TabC == 9
Space == { 9, 10, 11, 12, 13, 32 }
Octal == 48..55
NL == 10
Under == 95
Dot == 46
Dollar == 36
Minus == 45
Quote1 == 39
Quote2 == 34
BSlash == 92
Slash == 47
Star == 42
LCurl == 123
RCurl == 125
LBrac == 91
RBrac == 93
LPar == 40
RPar == 41
Percent == 37
Colon == 58
Semi == 59
Comma == 44
Bar == 124
Equal == 61
Less == 60
More == 62
Hash == 35
At == 64

ToLower(c) == IF c \in Upper THEN c + 32 ELSE c
HexVal(c) == IF c \in Digit THEN c - 48 ELSE IF c \in 65..70 THEN c - 55 ELSE IF c \in 97..102 THEN c - 87 ELSE -1

\* the string of the printable codes s
RECURSIVE Str(_, _)
Str(s, i) == IF i > Len(s) THEN "" ELSE Chr(s[i]) \o Str(s, i + 1)
\* the string of t from i up to (not including) j
RECURSIVE Cut(_, _, _)
Cut(t, i, j) == IF i >= j THEN "" ELSE Chr(t[i]) \o Cut(t, i + 1, j)

RECURSIVE Skip(_, _, _)       \* first position from i on whose character is not in S
Skip(t, i, S) == IF i <= Len(t) /\ t[i] \in S THEN Skip(t, i + 1, S) ELSE i
RECURSIVE Find(_, _, _)       \* first position from i on whose character is in S; past the end if none
Find(t, i, S) == IF i > Len(t) \/ t[i] \in S THEN i ELSE Find(t, i + 1, S)

\* i: just after the opening of a comment; the position after its end
RECURSIVE CommentEnd(_, _)
CommentEnd(t, i) ==
  IF i + 1 > Len(t) THEN Bad
  ELSE IF t[i] = Star /\ t[i+1] = Slash THEN i + 2
  ELSE CommentEnd(t, i + 1)

\* the line that starts at i, without its newline, ends just before this
LineEnd(t, i) == Find(t, i, { NL })

At2(t, i, x, y) == i < Len(t) /\ t[i] = x /\ t[i+1] = y

=============================================================================

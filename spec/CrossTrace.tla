------------------------------ MODULE CrossTrace ------------------------------
(***************************************************************************)
(* byacc and lemon on the same grammar.  Every case is one grammar that    *)
(* was carried from one tool to the other by a converter, and the state    *)
(* machines both real tools built from it (byacc -v and lemon -c -p).      *)
(*                                                                         *)
(* The specification runs the two machines side by side: from the pair of  *)
(* their initial states, on every symbol, over all pairs that can be       *)
(* reached.  In every pair, both must do the same: shift, reduce by the    *)
(* same rule, accept or report an error (byacc's default reductions may    *)
(* reduce where lemon already sees the error; that changes no sentence).   *)
(* Such a pairing means that the parsers accept the same sentences with    *)
(* the same reductions.  One state of the one machine must be paired with  *)
(* only one of the other, and the numbers of states and conflicts agree.   *)
(*                                                                         *)
(* Names are not compared: the rules, read in parallel, must show a one to *)
(* one renaming.  Lemon's multi-terminals are written out in yacc's        *)
(* notation, so a lemon state may then stand for several byacc states.     *)
(***************************************************************************)
EXTENDS Export, Json, IOUtils, SequencesExt

Cases == ndJsonDeserialize(IOEnv.CASES)

VARIABLES cid, phase,
  org,          \* for every byacc rule, lemon's number of the rule
  ren,          \* the renaming
  toks, nts,    \* its tokens and nonterminals
  pairs, todo, fails
vars == << cid, phase, org, ren, toks, nts, pairs, todo, fails >>

Case == Cases[cid]
Init == cid \in DOMAIN Cases /\ phase = "source" /\ org = <<>> /\ ren = <<>> /\ toks = {} /\ nts = {} /\ pairs = {} /\ todo = {} /\ fails = {}

(* ---- the rules in parallel ------------------------------------------------ *)
Range1(s) == { s[i] : i \in DOMAIN s }
ClsAt(n) == { i \in DOMAIN Case.cls : Case.cls[i].n = n \/ Case.cls[i].t = n }
IsClass(n) == ClsAt(n) # {}
MembersOf(n) == IF IsClass(n) THEN Case.cls[CHOOSE i \in ClsAt(n) : TRUE].m ELSE << n >>

\* lemon numbers the rules with code first
Coded == { i \in DOMAIN Case.code : Case.code[i] }
Number(i) == IF Case.code[i] THEN Cardinality({ j \in Coded : j < i }) ELSE Cardinality(Coded) + Cardinality({ j \in DOMAIN Case.code \ Coded : j < i })
LRule(i) == Case.lrules[Number(i) + 1]          \* the i-th rule of lemon's file
LRules == [ i \in DOMAIN Case.code |-> [ lhs |-> LRule(i)[1], rhs |-> Tail(LRule(i)) ] ]

OrgNow(rules) ==
  LET alt == TLCEval([ n \in UNION { Range1(rules[i].rhs) : i \in DOMAIN rules } |-> MembersOf(n) ])
  IN Origin([ rules |-> rules ], 1, alt)

RenOf(rules, o) ==
  UNION { { << Case.brules[q][1], rules[o[q]].lhs >> } \cup
          UNION { LET x == rules[o[q]].rhs[j] IN
                  IF IsClass(x) THEN (IF \E h \in DOMAIN MembersOf(x) : MembersOf(x)[h] = Case.brules[q][j + 1] THEN { << Case.brules[q][j + 1], Case.brules[q][j + 1] >> } ELSE { << "", x >>, << "", "" >> })
                  ELSE { << Case.brules[q][j + 1], x >> } : j \in DOMAIN rules[o[q]].rhs } : q \in DOMAIN o }

\* Two multi-terminals with a common token after the same prefix: one byacc state stands for two lemon
\* states then, and the machines are no longer comparable.
Overlap == \E l \in DOMAIN Case.lstates :
  LET R == Case.lstates[l].acts IN \E i, j \in DOMAIN R : i # j /\ R[i].s = R[j].s /\ R[i].k = "s" /\ R[j].k = "s"

Source ==
  /\ phase = "source"
  /\ LET shape == Len(Case.code) = Len(Case.lrules)
         rules == TLCEval(IF shape THEN LRules ELSE <<>>)
         o == TLCEval(IF shape THEN OrgNow(rules) ELSE <<>>)
         good == shape /\ Len(o) = Len(Case.brules) /\ \A q \in DOMAIN o : Len(Case.brules[q]) = Len(rules[o[q]].rhs) + 1
         m == TLCEval(IF good THEN RenOf(rules, o) ELSE {})
         sound == good /\ Consistent(m)
     IN /\ org' = TLCEval([ q \in DOMAIN o |-> Number(o[q]) ])
        /\ ren' = TLCEval(IF sound THEN [ x \in { y[1] : y \in m } \cup { "$end" } |-> IF x = "$end" THEN "$" ELSE (CHOOSE y \in m : y[1] = x)[2] ] ELSE <<>>)
        /\ nts' = TLCEval({ Case.brules[q][1] : q \in DOMAIN Case.brules })
        /\ toks' = TLCEval(DOMAIN ren' \ nts')
        /\ fails' = F(good, "rules") \cup F(~good \/ sound, "symbols")
        /\ phase' = IF sound /\ (Case.cls = <<>> \/ ~Overlap) THEN "pairs" ELSE "judge"
        /\ todo' = { << 0, 0 >> } /\ pairs' = { << 0, 0 >> }
  /\ UNCHANGED cid

(* ---- the two machines ------------------------------------------------------ *)
B(b) == Case.bstates[b + 1]
L(l) == Case.lstates[l + 1]
\* what the two rows hold on the token t: byacc's explicit actions, lemon's actions
BRow(b) == LET R == B(b).acts IN [ t \in { R[i][1] : i \in DOMAIN R } |-> { R[i] : i \in { j \in DOMAIN R : R[j][1] = t } } ]
LRow(l) == LET R == L(l).acts IN [ t \in { R[i].s : i \in DOMAIN R } |-> { << i, R[i] >> : i \in { j \in DOMAIN R : R[j].s = t } } ]
At(row, t) == IF t \in DOMAIN row THEN row[t] ELSE {}
\* the tokens one of the two machines does something on
Busy(br, lr) == { t \in toks : t \in DOMAIN br \/ ren[t] \in DOMAIN lr }

\* lemon settles reduce/reduce conflicts by precedence, byacc only with -z; of three actions the order decides
Settled(A) ==
  \/ ~ \E x \in A : x[2].x = "res" \/ x[2].k = "e"
  \/ Cardinality(A) <= 2 /\ (Case.zmode \/ \E x \in A : x[2].k = "s" \/ x[2].k = "e")

\* E: byacc's actions, A: lemon's; def: byacc's default reduction
SameOn(t, E, A, def) ==
  LET K == { x \in A : x[2].x = "ok" }
      E1 == IF t = "error" /\ ~Case.tolemon THEN { e \in E : e[2] # "r" } ELSE E     \* (lemon's error is not looked ahead to)
  IN IF ~Settled(A) THEN {}
     ELSE IF Cardinality(K) > 1 \/ Cardinality(E1) > 1 THEN { "two-actions" }
     ELSE IF K = {} \/ \A x \in K : x[2].k = "e"
          THEN F(E1 = {}, "error") \cup F(~Case.strict \/ K = {} \/ def < 0, "nonassoc")
     ELSE LET a == (CHOOSE x \in K : TRUE)[2]
          IN IF a.k = "s" THEN F(\E e \in E1 : e[2] = "s", "shift")
             ELSE IF a.k = "r" THEN
                  LET n == IF E1 = {} THEN def ELSE LET e == CHOOSE e \in E1 : TRUE IN IF e[2] = "r" THEN e[3] ELSE -1
                  IN IF n < 1 THEN { "reduce" } ELSE F(org[n] = a.n, "reduce")
             ELSE { "action" }

ShiftsOn(E, A) ==
  IF ~Settled(A) THEN {}
  ELSE { << e[3], x[2].n >> : e \in { y \in E : y[2] = "s" }, x \in { y \in A : y[2].x = "ok" /\ y[2].k = "s" } }

\* lemon: [symbol, state], -1 for accept
LGotos(l) == { << L(l).acts[i].s, IF L(l).acts[i].k = "acc" THEN -1 ELSE L(l).acts[i].n >> : i \in { j \in DOMAIN L(l).acts : \E n \in nts : ren[n] = L(l).acts[j].s } }
BGotos(b) == { << ren[B(b).gotos[i][1]], B(b).gotos[i][2] >> : i \in DOMAIN B(b).gotos }
SameGotos(b, l) ==
  LET G == TLCEval(BGotos(b))  H == TLCEval(LGotos(l))
  IN F({ x[1] : x \in G } = { x[1] : x \in H } /\ Cardinality(G) = Len(B(b).gotos), "goto") \cup
     F(\A x \in G, y \in H : x[1] = y[1] => ((y[2] < 0) = B(x[2]).acc), "accept")
Gotos(b, l) ==
  LET G == TLCEval(BGotos(b))  H == TLCEval({ y \in LGotos(l) : y[2] >= 0 })
  IN { << x[2], (CHOOSE y \in H : y[1] = x[1])[2] >> : x \in { z \in G : \E y \in H : y[1] = z[1] } }

Known(b, l) == b \in 0 .. Len(Case.bstates) - 1 /\ l \in 0 .. Len(Case.lstates) - 1 /\ \A i \in DOMAIN B(b).gotos : B(b).gotos[i][1] \in nts

\* [complaints, pairs reached] of one pair
Step(b, l) ==
  LET br == TLCEval(BRow(b))  lr == TLCEval(LRow(l))  T == TLCEval(Busy(br, lr))
  IN [ f |-> SameGotos(b, l) \cup UNION { SameOn(t, At(br, t), At(lr, ren[t]), B(b).def) : t \in T },
       n |-> Gotos(b, l) \cup UNION { ShiftsOn(At(br, t), At(lr, ren[t])) : t \in T } ]
Walk ==
  /\ phase = "pairs"
  /\ todo # {}
  /\ LET now == TLCEval(IF Cardinality(todo) <= 12 THEN todo ELSE LET s == SetToSeq(todo) IN { s[i] : i \in 1 .. 12 })
         good == TLCEval({ p \in now : Known(p[1], p[2]) })
         steps == TLCEval({ Step(p[1], p[2]) : p \in good })
         new == TLCEval(UNION { x.n : x \in steps } \ pairs)
     IN /\ fails' = TLCEval(fails \cup F(good = now, "state") \cup UNION { x.f : x \in steps })
        /\ pairs' = TLCEval(pairs \cup new)
        /\ todo' = TLCEval((todo \ now) \cup new)
        /\ phase' = IF fails' # {} THEN "judge" ELSE "pairs"
  /\ UNCHANGED << cid, org, ren, toks, nts >>
Walked == phase = "pairs" /\ todo = {} /\ phase' = "judge" /\ UNCHANGED << cid, org, ren, toks, nts, pairs, todo, fails >>

(* ---- counts ------------------------------------------------------------------ *)
Plain == Case.cls = <<>>
AllSettled ==
  /\ Case.tolemon \/ "error" \notin toks
  /\ \A l \in 0 .. Len(Case.lstates) - 1 :
       LET lr == TLCEval(LRow(l)) IN \A t \in DOMAIN lr : Settled(lr[t]) /\ Cardinality(lr[t]) <= 2
Judge ==
  /\ phase = "judge"
  /\ LET counted == fails = {} /\ Plain /\ AllSettled
         f == TLCEval(fails \cup
           (IF fails # {} THEN {} ELSE
              F(Cardinality(pairs) = Cardinality({ p[1] : p \in pairs }), "pairing") \cup
              (IF Plain THEN F(Cardinality(pairs) = Cardinality({ p[2] : p \in pairs }), "pairing") \cup F(Len(Case.bstates) = Len(Case.lstates) + 1, "states") ELSE {}) \cup
              (IF counted THEN F(Case.bsr = Case.lsr /\ Case.brr = Case.lrr, "conflicts") \cup F(Case.bunused = Case.lunused, "never-reduced") ELSE {})))
     IN /\ fails' = f
        /\ PrintT(ToJson([ verdict |-> Case.id, fails |-> f, pairs |-> Cardinality(pairs), counted |-> counted ]))
  /\ phase' = "done"
  /\ UNCHANGED << cid, org, ren, toks, nts, pairs, todo >>

Next == Source \/ Walk \/ Walked \/ Judge
Spec == Init /\ [][Next]_vars
Conforms == fails = {}
=============================================================================

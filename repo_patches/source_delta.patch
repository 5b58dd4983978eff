From abb3b094c9be7e972f7d89a97450f7f51ca82e8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:32:02 +0000
Subject: [PATCH 01/52] fix: byacc verbose report names the wrong rule in
 reduce/reduce conflicts

---
 byacc/verbose.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/byacc/verbose.c b/byacc/verbose.c
index e2879a5..2377268 100644
--- a/byacc/verbose.c
+++ b/byacc/verbose.c
@@ -163,7 +163,7 @@ print_conflicts(byacc_t* S, int state)
                     r1 = number - RULE_NUM_OFFSET;
 		    fprintf(S->verbose_file, "%d: reduce/reduce conflict \
 (reduce %ld [%s], reduce %ld [%s]) on %s\n", state,
-                            (long)(r1), S->symbol_name[S->rlhs[r1]],
+                            (long)(r1), S->symbol_name[S->rlhs[number]],
                             (long)(r2), S->symbol_name[S->rlhs[p->number]],
 			    S->symbol_name[symbol]);
 		}
-- 
2.43.0


From edc25dd7ad4b743b3c9251c3602d643e44887fdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:32:02 +0000
Subject: [PATCH 02/52] fix: byacc build_relations overflows its edge array on
 grammars with many nullable suffixes

---
 byacc/lalr.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/byacc/lalr.c b/byacc/lalr.c
index 33c8e21..147105c 100644
--- a/byacc/lalr.c
+++ b/byacc/lalr.c
@@ -265,7 +265,8 @@ initialize_F(byacc_t* S)
     S->fs3_F = NEW2(nwords, bitword_t);
 
     reads = NEW2(S->fs3_ngotos, Value_t *);
-    edge = NEW2(S->fs3_ngotos + 1, Value_t);
+    /* one goto can get an edge from every position of every rule */
+    edge = NEW2(S->nitems + 1, Value_t);
     nedges = 0;
 
     rowp = S->fs3_F;
@@ -341,7 +342,8 @@ build_relations(byacc_t* S)
     Value_t **new_includes;
 
     S->fs3_includes = NEW2(S->fs3_ngotos, Value_t *);
-    edge = NEW2(S->fs3_ngotos + 1, Value_t);
+    /* one goto can get an edge from every position of every rule */
+    edge = NEW2(S->nitems + 1, Value_t);
     states = NEW2(S->fs3_maxrhs + 1, Value_t);
 
     for (i = 0; i < S->fs3_ngotos; i++)
-- 
2.43.0


From 480c1923a62d879c66d07f0f9d530584d72f401d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:32:02 +0000
Subject: [PATCH 03/52] fix: lemon closes the header comment of the generated
 parser too early

---
 lemon/lemon.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lemon/lemon.c b/lemon/lemon.c
index 3163026..332dd49 100644
--- a/lemon/lemon.c
+++ b/lemon/lemon.c
@@ -4955,7 +4955,7 @@ void ReportTable(
 
   fprintf(out,
      "/* This file is automatically generated by Lemon from input grammar\n"
-     "** source file \"%s\". */\n", lemp->filename); lineno += 2;
+     "** source file \"%s\"", lemp->filename); lineno++;
   if( lemp->nDefineUsed==0 ){
     fprintf(out, ".\n*/\n"); lineno += 2;
   }else{
-- 
2.43.0


From e8baea7a056f369b0ff0734b5fb4a6560584b7ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:32:02 +0000
Subject: [PATCH 04/52] fix: lemon tplt_print reads before the start of an
 empty string

---
 lemon/lemon.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lemon/lemon.c b/lemon/lemon.c
index 332dd49..4523134 100644
--- a/lemon/lemon.c
+++ b/lemon/lemon.c
@@ -4065,7 +4065,7 @@ PRIVATE void tplt_linedir(FILE *out, int lineno, char *filename)
 /* Print a string to the file and keep the linenumber up to date */
 PRIVATE void tplt_print(FILE *out, struct lemon *lemp, char *str, int *lineno)
 {
-  if( str==0 ) return;
+  if( str==0 || str[0]==0 ) return;
   while( *str ){
     putc(*str,out);
     if( *str=='\n' ) (*lineno)++;
-- 
2.43.0


From c50f904c6916fc36677e61341ba76700461c1a8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:32:25 +0000
Subject: [PATCH 05/52] fix: lemon -S -u dereferences a missing rule precedence

---
 lemon/lemon.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lemon/lemon.c b/lemon/lemon.c
index 4523134..e18b5cf 100644
--- a/lemon/lemon.c
+++ b/lemon/lemon.c
@@ -2408,9 +2408,10 @@ static void parseonetoken(struct lemon *lem, struct pstate *psp)
           "to follow the previous rule.");
         psp->errorcnt++;
       }else{
-        if(!psp->gp->ignorePrec)
+        if(!psp->gp->ignorePrec) {
             psp->prevrule->precsym = Symbol_new(lem, x);
             psp->prevrule->precsym_decl = LEMON_TRUE;
+        }
       }
       psp->state = PRECEDENCE_MARK_2;
       break;
-- 
2.43.0


From bf5a0b4e3c8ffb53ebca19a00c765922e99d5316 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:32:25 +0000
Subject: [PATCH 06/52] fix: lemon keeps (or asserts on) the reductions that a
 non-associative token forbids

---
 lemon/lemon.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/lemon/lemon.c b/lemon/lemon.c
index e18b5cf..c13428a 100644
--- a/lemon/lemon.c
+++ b/lemon/lemon.c
@@ -1321,6 +1321,7 @@ static int resolve_conflict(
     }else{
       assert( spx->prec==spy->prec && (spx->assoc==NONE || spx->assoc==PRECEDENCE));
       apx->type = ERROR;
+      apy->type = RD_RESOLVED;
     }
   }else if( apx->type==REDUCE && apy->type==REDUCE ){
     spx = apx->x.rp->precsym;
@@ -1335,6 +1336,10 @@ static int resolve_conflict(
     }else if( spx->prec<spy->prec ){
       apx->type = RD_RESOLVED;
     }
+  }else if( apx->type==ERROR ){
+    /* A non-associative token stays an error whatever else could be
+    ** reduced on it. */
+    if( apy->type==REDUCE ) apy->type = RD_RESOLVED;
   }else{
     assert(
       apx->type==SH_RESOLVED ||
-- 
2.43.0


From ab77797256fc7a1cd48ea178e18de9af153a459f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:32:25 +0000
Subject: [PATCH 07/52] fix: lemon -g, -y, -Y and -S ignore %start_symbol

---
 lemon/lemon.c | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/lemon/lemon.c b/lemon/lemon.c
index c13428a..23f4fea 100644
--- a/lemon/lemon.c
+++ b/lemon/lemon.c
@@ -3499,6 +3499,14 @@ static int ruleline_compare(const void *a, const void *b){
   return p1->line - p2->line;
 }
 
+/* The start symbol that is in effect: the one declared with %start_symbol,
+** or else the left-hand side of the first rule */
+static struct symbol *effective_start_symbol(struct lemon *lemp)
+{
+  struct symbol *sp = lemp->start ? Symbol_find(lemp, lemp->start) : 0;
+  return sp ? sp : lemp->startRule->lhs;
+}
+
 /* Duplicate the input file without comments and without actions
 ** on rules */
 void Reprint(struct lemon *lemp)
@@ -3517,7 +3525,7 @@ void Reprint(struct lemon *lemp)
     printf("\n%%wildcard %s .\n", lemp->wildcard->name);
   }
 
-  printf("\n%%start_symbol %s\n\n", lemp->startRule->lhs->name);
+  printf("\n%%start_symbol %s\n\n", effective_start_symbol(lemp)->name);
 
   for(rp=lemp->rule, prev_rp=NULL; rp; prev_rp=rp, rp=rp->next){
     if(prev_rp && strcmp(prev_rp->lhs->name, rp->lhs->name))
@@ -3624,7 +3632,7 @@ void Reprint_yacc(struct lemon *lemp)
   char *idList;
   Reprint_token_numbers(lemp);
   Reprint_tokens(lemp, "", 1);
-  printf("\n%%start %s\n\n%%%%\n\n", lemp->startRule->lhs->name);
+  printf("\n%%start %s\n\n%%%%\n\n", effective_start_symbol(lemp)->name);
 
   for(rp=lemp->rule, prev_rp=NULL; rp; prev_rp=rp, rp=rp->next){
     if(prev_rp && strcmp(prev_rp->lhs->name, rp->lhs->name))
@@ -4792,7 +4800,7 @@ void ReportSQL(
 
   fprintf(sql,
     "UPDATE directives SET start_symbol=%d;\n",
-        lemp->startRule->lhs->index
+        effective_start_symbol(lemp)->index
   );
 
   if(lemp->stacksize) {
-- 
2.43.0


From 6a94d72caa8b165962caed3438b880f9f40000ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:06 +0000
Subject: [PATCH 08/52] fix: lemon -y and -Y lose combinations of several
 multi-terminals in one rule

---
 lemon/lemon.c | 49 ++++++++++++++++++++++++-------------------------
 1 file changed, 24 insertions(+), 25 deletions(-)

diff --git a/lemon/lemon.c b/lemon/lemon.c
index 23f4fea..71fc317 100644
--- a/lemon/lemon.c
+++ b/lemon/lemon.c
@@ -3572,8 +3572,10 @@ void Reprint(struct lemon *lemp)
 
 /* Print the text of a rule
 */
-void rule_print_yacc0(FILE *out, struct rule *rp, int mt_idx){
-  int i, j;
+/* mt_idx[i] selects the alternative to print where rhs[i] is a MULTITERMINAL.
+*/
+void rule_print_yacc0(FILE *out, struct rule *rp, const int *mt_idx){
+  int i;
   fprintf(out, "%s", rp->lhs->name);
   /*    if( rp->lhsalias ) fprintf(out,"(%s)",rp->lhsalias); */
   fprintf(out," :");
@@ -3585,8 +3587,8 @@ void rule_print_yacc0(FILE *out, struct rule *rp, int mt_idx){
       struct symbol *sp = rp->rhs[i];
       if( sp->type==MULTITERMINAL ){
         //fprintf(out," m_t_%d", sp->id);
-        fprintf(out," %s", sp->subsym[mt_idx]->name);
-        print_symbol_prec_commented(out, sp->subsym[mt_idx]);
+        fprintf(out," %s", sp->subsym[mt_idx[i]]->name);
+        print_symbol_prec_commented(out, sp->subsym[mt_idx[i]]);
       }else{
         fprintf(out," %s", sp->name);
         print_symbol_prec_commented(out, sp);
@@ -3596,29 +3598,26 @@ void rule_print_yacc0(FILE *out, struct rule *rp, int mt_idx){
   }
 }
 
+/* Print one yacc rule for every combination of alternatives of the
+** MULTITERMINALs on the right-hand side */
 void rule_print_yacc(FILE *out, struct rule *rp){
-    int i, j;
-    for(i=0; i<rp->nrhs; i++){
-      struct symbol *sp = rp->rhs[i];
-      if( sp->type==MULTITERMINAL ){
-        for(j=0; j<sp->nsubsym; j++){
-          rule_print_yacc0(out, rp, j);
-          if( rp->precsym ) {
-              fprintf(out, " %%prec %s",rp->precsym->name);
-              print_symbol_prec_commented(out, rp->precsym);
-          }
-          fprintf(out, " ;\n");
-        }
-        return;
+    int i;
+    int *mt_idx = (int *)calloc(rp->nrhs+1, sizeof(int));
+    MemoryCheck(mt_idx);
+    do{
+      rule_print_yacc0(out, rp, mt_idx);
+      if( rp->precsym ) {
+          fprintf(out, " %%prec %s",rp->precsym->name);
+          print_symbol_prec_commented(out, rp->precsym);
       }
-      /* if( rp->rhsalias[i] ) fprintf(out,"(%s)",rp->rhsalias[i]); */
-    }
-    rule_print_yacc0(out, rp, -1);
-    if( rp->precsym ) {
-        fprintf(out, " %%prec %s",rp->precsym->name);
-        print_symbol_prec_commented(out, rp->precsym);
-    }
-    fprintf(out, " ;\n");
+      fprintf(out, " ;\n");
+      for(i=rp->nrhs-1; i>=0; i--){
+        if( rp->rhs[i]->type!=MULTITERMINAL ) continue;
+        if( ++mt_idx[i]<rp->rhs[i]->nsubsym ) break;
+        mt_idx[i] = 0;
+      }
+    }while( i>=0 );
+    free(mt_idx);
 }
 
 /* Duplicate the input file without comments and without actions
-- 
2.43.0


From cd100bb5153dab891886f775207f13cda774b664 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:39 +0000
Subject: [PATCH 09/52] fix: lemon -r generates empty parser tables

---
 lemon/lemon.c | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/lemon/lemon.c b/lemon/lemon.c
index 71fc317..a1691fe 100644
--- a/lemon/lemon.c
+++ b/lemon/lemon.c
@@ -226,7 +226,7 @@ void ReportOutput(struct lemon *);
 void ReportTable(struct lemon *, int);
 void ReportHeader(struct lemon *);
 void CompressTables(struct lemon *);
-void ResortStates(struct lemon *);
+void ResortStates(struct lemon *, int);
 
 /********** From the file "set.h" ****************************************/
 void  SetSize(struct lemon *, int);             /* All sets will be of size N */
@@ -1841,7 +1841,7 @@ int main(int argc, char **argv){
     /* Reorder and renumber the states so that states with fewer choices
     ** occur at the end.  This is an optimization that helps make the
     ** generated parser tables smaller. */
-    if( noResort==0 ) ResortStates(&lem);
+    ResortStates(&lem, noResort);
 
     /* Generate a report of the parser generated.  (the "y.output" file) */
     if( !quiet ) ReportOutput(&lem);
@@ -5710,7 +5710,7 @@ static int stateResortCompare(const void *a, const void *b){
 ** Renumber and resort states so that states with fewer choices
 ** occur at the end.  Except, keep state 0 as the first state.
 */
-void ResortStates(struct lemon *lemp)
+void ResortStates(struct lemon *lemp, int noResort)
 {
   int i;
   struct state *stp;
@@ -5736,12 +5736,13 @@ void ResortStates(struct lemon *lemp)
       }
     }
   }
+  lemp->nxstate = lemp->nstate;
+  if( noResort ) return;
   qsort(&lemp->sorted[1], lemp->nstate-1, sizeof(lemp->sorted[0]),
         stateResortCompare);
   for(i=0; i<lemp->nstate; i++){
     lemp->sorted[i]->statenum = i;
   }
-  lemp->nxstate = lemp->nstate;
   while( lemp->nxstate>1 && lemp->sorted[lemp->nxstate-1]->autoReduce ){
     lemp->nxstate--;
   }
-- 
2.43.0


From 03935cb49c31f055abe0c28bd4b59cf821f482a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:39 +0000
Subject: [PATCH 10/52] fix: lemon table compression drops the errors required
 by %nonassoc

---
 lemon/lemon.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lemon/lemon.c b/lemon/lemon.c
index a1691fe..c995b20 100644
--- a/lemon/lemon.c
+++ b/lemon/lemon.c
@@ -5625,7 +5625,7 @@ void CompressTables(struct lemon *lemp)
     stp->ap = Action_sort(stp->ap);
 
     for(ap=stp->ap; ap; ap=ap->next){
-      if( ap->type==SHIFT ) break;
+      if( ap->type==SHIFT || ap->type==ERROR ) break;
       if( ap->type==REDUCE && ap->x.rp!=rbest ) break;
     }
     if( ap==0 ){
-- 
2.43.0


From 5e8b09e4682a51c8c78b2fc87d4f6e2c6e62e5d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:10 +0000
Subject: [PATCH 11/52] fix: byacc -E and -C misname quoted and non-printable
 character tokens

---
 byacc/reader.c | 23 +++++++++++------------
 1 file changed, 11 insertions(+), 12 deletions(-)

diff --git a/byacc/reader.c b/byacc/reader.c
index 83ea4d5..0832cd8 100644
--- a/byacc/reader.c
+++ b/byacc/reader.c
@@ -4245,27 +4245,26 @@ static const char *get_lemon_token_name(char64_t *buf, const char *tkname)
 {
     int ch;
     if(tkname[0] == '\'') {
-        if(tkname[2] == '\'') {
-            ch = tkname[1];
-            if(ch < 127) snprintf(*buf, sizeof(char64_t), "Tk_%s", ygv_ascii_names_st[ch]);
-            else snprintf(*buf, sizeof(char64_t), "Tk_%d", ch);
-        }            
-        else if(tkname[3] == '\'') {
+        /* see get_literal() for the spelling of character literals */
+        if(tkname[1] != '\\')
+            ch = UCH(tkname[1]);
+        else {
             ch = tkname[2];
             switch(ch) {
+                case 'a': ch = 7; break;
+                case 'b': ch = '\b'; break;
                 case 'n': ch = '\n'; break;
                 case 't': ch = '\t'; break;
                 case 'f': ch = '\f'; break;
                 case 'r': ch = '\r'; break;
                 case 'v': ch = '\v'; break;
-                case '\\': ch = '\\'; break;
                 default:
-                    ch = -1;
+                    if(IS_OCTAL(ch))
+                        ch = ((ch - '0') << 6) | ((tkname[3] - '0') << 3) | (tkname[4] - '0');
             }
-            if(ch < 127) snprintf(*buf, sizeof(char64_t), "Tk_%s", ygv_ascii_names_st[ch]);
-            else snprintf(*buf, sizeof(char64_t), "Tk_%d", ch);
-        } else
-            snprintf(*buf, sizeof(char64_t), "Tk_%*s", (int)strlen(tkname)-2, tkname+1);            
+        }
+        if(ch < 127) snprintf(*buf, sizeof(char64_t), "Tk_%s", ygv_ascii_names_st[ch]);
+        else snprintf(*buf, sizeof(char64_t), "Tk_%d", ch);
     }
     else if(tkname[0] == '"') {
             snprintf(*buf, sizeof(char64_t), "Tk_%s", tkname+1);
-- 
2.43.0


From c708767eb040f668554329a7781e3c866baf3147 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:10 +0000
Subject: [PATCH 12/52] fix: byacc -S writes invalid SQL when the first rule is
 empty

---
 byacc/reader.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/byacc/reader.c b/byacc/reader.c
index 0832cd8..9a4d8a9 100644
--- a/byacc/reader.c
+++ b/byacc/reader.c
@@ -5022,8 +5022,12 @@ print_grammar_sql(byacc_t* S)
                 }
                 ++k;
             }
-        } else { /* empty rule */
-            if(!skip_rule) fprintf(f,
+        } else if(!skip_rule) { /* empty rule */
+            if(b==0) {
+              fprintf(f,
+                "INSERT INTO rulerhs(ruleid,pos,sym) VALUES\n");
+            }
+            fprintf(f,
               " %s(%d,%d,NULL)",
               (b > 0) ? "," : " ", i, j++
             );
-- 
2.43.0


From 314b64c9d5f71ee9aa77e8ed1cf7b0118db8b251 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:35 +0000
Subject: [PATCH 13/52] fix: lemon -r parsers miss the shift offsets of states
 without token actions

---
 lemon/lemon.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lemon/lemon.c b/lemon/lemon.c
index c995b20..d8e9515 100644
--- a/lemon/lemon.c
+++ b/lemon/lemon.c
@@ -5252,7 +5252,9 @@ void ReportTable(
 
   /* Output the yy_shift_ofst[] table */
   n = lemp->nxstate;
-  while( n>0 && lemp->sorted[n-1]->iTknOfst==NO_OFFSET ) n--;
+  /* Only states that the parser never rests in can do without an entry. */
+  while( n>0 && lemp->sorted[n-1]->iTknOfst==NO_OFFSET
+         && lemp->sorted[n-1]->autoReduce ) n--;
   fprintf(out, "#define YY_SHIFT_COUNT    (%d)\n", n-1); lineno++;
   fprintf(out, "#define YY_SHIFT_MIN      (%d)\n", mnTknOfst); lineno++;
   fprintf(out, "#define YY_SHIFT_MAX      (%d)\n", mxTknOfst); lineno++;
-- 
2.43.0


From 052ce820d0656ebfef908f95ff87def863ef0d5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:21 +0000
Subject: [PATCH 14/52] fix: lemon crashes or never ends on cycles of unit
 rules

---
 lemon/lemon.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/lemon/lemon.c b/lemon/lemon.c
index d8e9515..ea3223e 100644
--- a/lemon/lemon.c
+++ b/lemon/lemon.c
@@ -5661,7 +5661,8 @@ void CompressTables(struct lemon *lemp)
   */
   for(i=0; i<lemp->nstate; i++){
     stp = lemp->sorted[i];
-    for(ap=stp->ap; ap; ap=nextap){
+    n = 0;   /* Times in a row that the same action has been replaced */
+    for(ap=stp->ap; ap; n = nextap==ap ? n+1 : 0, ap=nextap){
       nextap = ap->next;
       if( ap->type!=SHIFTREDUCE ) continue;
       rp = ap->x.rp;
@@ -5674,9 +5675,9 @@ void CompressTables(struct lemon *lemp)
       if( ap->sp->index<lemp->nterminal ) continue;
 #endif
       /* If we reach this point, it means the optimization can be applied */
-      nextap = ap;
       for(ap2=stp->ap; ap2 && (ap2==ap || ap2->sp!=rp->lhs); ap2=ap2->next){}
-      assert( ap2!=0 );
+      if( ap2==0 || n>=lemp->nsymbol ) continue;  /* A cycle of unit rules */
+      nextap = ap;
       ap->spOpt = ap2->sp;
       ap->type = ap2->type;
       ap->x = ap2->x;
-- 
2.43.0


From 6611840895a3e2862c9287b3780ad07b2b1fbecd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:52:25 +0000
Subject: [PATCH 15/52] fix: lemon: destroy the value of an unlabelled
 multi-terminal

---
 lemon/lemon.c | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/lemon/lemon.c b/lemon/lemon.c
index ea3223e..f03685b 100644
--- a/lemon/lemon.c
+++ b/lemon/lemon.c
@@ -4141,12 +4141,22 @@ void emit_destructor_code(
  return;
 }
 
+/*
+** A multi-terminal never appears on the stack of the generated parser, one
+** of its terminals does.  They all share the same type and destructor, so
+** return the first one.  Any other symbol stands for itself.
+*/
+static struct symbol *stack_symbol(struct symbol *sp){
+  return sp->type==MULTITERMINAL ? sp->subsym[0] : sp;
+}
+
 /*
 ** Return TRUE (non-zero) if the given symbol has a destructor.
 */
 int has_destructor(struct symbol *sp, struct lemon *lemp)
 {
   int ret;
+  sp = stack_symbol(sp);
   if( sp->type==TERMINAL ){
     ret = lemp->tokendest!=0;
   }else{
@@ -4259,7 +4269,7 @@ PRIVATE int translate_code(struct lemon *lemp, struct rule *rp){
     if( has_destructor(rp->rhs[0],lemp) ){
       append_str(&sa_buf, 0,0,0,0);
       append_str(&sa_buf, "  yy_destructor(yypParser,%d,&yymsp[%d].minor);\n", 0,
-                 rp->rhs[0]->index,1-rp->nrhs);
+                 stack_symbol(rp->rhs[0])->index,1-rp->nrhs);
       rp->codePrefix = Strsafe(lemp, append_str(&sa_buf, 0,0,0,0));
       rp->noCode = 0;
     }
@@ -4395,7 +4405,7 @@ PRIVATE int translate_code(struct lemon *lemp, struct rule *rp){
       }
     }else if( i>0 && has_destructor(rp->rhs[i],lemp) ){
       append_str(&sa_buf, "  yy_destructor(yypParser,%d,&yymsp[%d].minor);\n", 0,
-         rp->rhs[i]->index,i-rp->nrhs+1);
+         stack_symbol(rp->rhs[i])->index,i-rp->nrhs+1);
     }
   }
 
-- 
2.43.0


From 89229d061a7a38ab5ded6dc9422aeea73fac0b24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:52:58 +0000
Subject: [PATCH 16/52] fix: lemon: keep the reduction by a unit rule that
 destroys a value

---
 lemon/lemon.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/lemon/lemon.c b/lemon/lemon.c
index f03685b..1afaf90 100644
--- a/lemon/lemon.c
+++ b/lemon/lemon.c
@@ -5684,6 +5684,11 @@ void CompressTables(struct lemon *lemp)
       ** larger. */
       if( ap->sp->index<lemp->nterminal ) continue;
 #endif
+      /* The reduction destroys the value of the RHS. Without the reduction
+      ** that is left to the destructor of the LHS, so there must be one. */
+      if( has_destructor(rp->rhs[0],lemp) && !has_destructor(rp->lhs,lemp) ){
+        continue;
+      }
       /* If we reach this point, it means the optimization can be applied */
       for(ap2=stp->ap; ap2 && (ap2==ap || ap2->sp!=rp->lhs); ap2=ap2->next){}
       if( ap2==0 || n>=lemp->nsymbol ) continue;  /* A cycle of unit rules */
-- 
2.43.0


From 3066823526cd9acf69b1a28033d0d4fbcbc5886d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:17 +0000
Subject: [PATCH 17/52] fix: lemon: %default_destructor destroyed the offending
 token as error's value

---
 lemon/lemon.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lemon/lemon.c b/lemon/lemon.c
index 1afaf90..b85ddca 100644
--- a/lemon/lemon.c
+++ b/lemon/lemon.c
@@ -4160,7 +4160,7 @@ int has_destructor(struct symbol *sp, struct lemon *lemp)
   if( sp->type==TERMINAL ){
     ret = lemp->tokendest!=0;
   }else{
-    ret = lemp->vardest!=0 || sp->destructor!=0;
+    ret = sp->destructor!=0 || (lemp->vardest!=0 && sp!=lemp->errsym);
   }
   return ret;
 }
@@ -5403,6 +5403,8 @@ void ReportTable(
       struct symbol *sp = lemp->symbols[i];
       if( sp==0 || sp->type==TERMINAL ||
           sp->index<=0 || sp->destructor!=0 ) continue;
+      /* The value of the error symbol belongs to the offending token */
+      if( sp==lemp->errsym ) continue;
       if( once ){
         fprintf(out, "      /* Default NON-TERMINAL Destructor */\n");lineno++;
         once = 0;
-- 
2.43.0


From 803ae59aceebbcb40c548ea7fa6f6cc6d0b93557 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:22 +0000
Subject: [PATCH 18/52] fix: lempar.c: report errors again after three tokens,
 as documented, not four

---
 lemon/lempar.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lemon/lempar.c b/lemon/lempar.c
index 8cc5789..7d6abfc 100644
--- a/lemon/lempar.c
+++ b/lemon/lempar.c
@@ -967,7 +967,7 @@ void Parse(
       **    shifted successfully.
       **
       */
-      if( yypParser->yyerrcnt<0 ){
+      if( yypParser->yyerrcnt<=0 ){
         yy_syntax_error(yypParser,yymajor,yyminor);
       }
       yymx = yypParser->yytos->major;
-- 
2.43.0


From caaf766c34626e630d9ba73f65489225aab9732b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:27 +0000
Subject: [PATCH 19/52] fix: lempar.c: a failed parse suppressed the next
 parse's first error message

---
 lemon/lempar.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lemon/lempar.c b/lemon/lempar.c
index 7d6abfc..9d95d64 100644
--- a/lemon/lempar.c
+++ b/lemon/lempar.c
@@ -970,6 +970,7 @@ void Parse(
       if( yypParser->yyerrcnt<=0 ){
         yy_syntax_error(yypParser,yymajor,yyminor);
       }
+      yypParser->yyerrcnt = 3;
       yymx = yypParser->yytos->major;
       if( yymx==YYERRORSYMBOL || yyerrorhit ){
 #ifndef NDEBUG
@@ -998,7 +999,6 @@ void Parse(
           yy_shift(yypParser,yyact,YYERRORSYMBOL,yyminor);
         }
       }
-      yypParser->yyerrcnt = 3;
       yyerrorhit = 1;
       if( yymajor==YYNOCODE ) break;
       yyact = yypParser->yytos->stateno;
-- 
2.43.0


From d8279424823321d9738c6744840fa4798480e67c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:44 +0000
Subject: [PATCH 20/52] fix: lempar.c: destroy the token at hand when the stack
 overflows

---
 lemon/lempar.c | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/lemon/lempar.c b/lemon/lempar.c
index 9d95d64..7adae04 100644
--- a/lemon/lempar.c
+++ b/lemon/lempar.c
@@ -596,9 +596,15 @@ static YYACTIONTYPE yy_find_reduce_action(
 }
 
 /*
-** The following routine is called if the stack overflows.
+** The following routine is called if the stack overflows.  Everything on
+** the stack and the token at hand are destroyed.
 */
-static void yyStackOverflow(yyParser *yypParser){
+static void yyStackOverflow(
+  yyParser *yypParser,          /* The parser whose stack is full */
+  YYCODETYPE yyMajor,           /* The token at hand, lost as well */
+  ParseTOKENTYPE yyMinor        /* The value of that token */
+){
+   YYMINORTYPE yyminorunion;
    ParseARG_FETCH
    ParseCTX_FETCH
 #ifndef NDEBUG
@@ -606,6 +612,8 @@ static void yyStackOverflow(yyParser *yypParser){
      fprintf(yyTraceFILE,"%sStack Overflow!\n",yyTracePrompt);
    }
 #endif
+   yyminorunion.yy0 = yyMinor;
+   yy_destructor(yypParser, yyMajor, &yyminorunion);
    while( yypParser->yytos>yypParser->yystack ) yy_pop_parser_stack(yypParser);
    /* Here code is inserted which will execute if the parser
    ** stack every overflows */
@@ -657,14 +665,14 @@ static void yy_shift(
 #if YYSTACKDEPTH>0 
   if( yypParser->yytos>yypParser->yystackEnd ){
     yypParser->yytos--;
-    yyStackOverflow(yypParser);
+    yyStackOverflow(yypParser,yyMajor,yyMinor);
     return;
   }
 #else
   if( yypParser->yytos>=&yypParser->yystack[yypParser->yystksz] ){
     if( yyGrowStack(yypParser) ){
       yypParser->yytos--;
-      yyStackOverflow(yypParser);
+      yyStackOverflow(yypParser,yyMajor,yyMinor);
       return;
     }
   }
@@ -913,13 +921,13 @@ void Parse(
 #endif
 #if YYSTACKDEPTH>0 
         if( yypParser->yytos>=yypParser->yystackEnd ){
-          yyStackOverflow(yypParser);
+          yyStackOverflow(yypParser,(YYCODETYPE)yymajor,yyminor);
           break;
         }
 #else
         if( yypParser->yytos>=&yypParser->yystack[yypParser->yystksz-1] ){
           if( yyGrowStack(yypParser) ){
-            yyStackOverflow(yypParser);
+            yyStackOverflow(yypParser,(YYCODETYPE)yymajor,yyminor);
             break;
           }
         }
-- 
2.43.0


From 027f4ca1dc8af1036e373a6e47cacbea54d46c8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:56:38 +0000
Subject: [PATCH 21/52] fix: lemon: %default_destructor used one datatype for
 all nonterminals

---
 lemon/lemon.c | 36 ++++++++++++++++++++----------------
 1 file changed, 20 insertions(+), 16 deletions(-)

diff --git a/lemon/lemon.c b/lemon/lemon.c
index b85ddca..b809a2d 100644
--- a/lemon/lemon.c
+++ b/lemon/lemon.c
@@ -5397,25 +5397,29 @@ void ReportTable(
     }
   }
   if( lemp->vardest ){
-    struct symbol *dflt_sp = 0;
+    /* Once per datatype, as the code uses one element of the value union */
+    int dtnum;
     int once = 1;
-    for(i=0; i<lemp->nsymbol; i++){
-      struct symbol *sp = lemp->symbols[i];
-      if( sp==0 || sp->type==TERMINAL ||
-          sp->index<=0 || sp->destructor!=0 ) continue;
-      /* The value of the error symbol belongs to the offending token */
-      if( sp==lemp->errsym ) continue;
-      if( once ){
-        fprintf(out, "      /* Default NON-TERMINAL Destructor */\n");lineno++;
-        once = 0;
+    for(dtnum=0; dtnum<=lemp->nsymbol*2; dtnum++){
+      struct symbol *dflt_sp = 0;
+      for(i=0; i<lemp->nsymbol; i++){
+        struct symbol *sp = lemp->symbols[i];
+        if( sp==0 || sp->type==TERMINAL || sp->dtnum!=dtnum ||
+            sp->index<=0 || sp->destructor!=0 ) continue;
+        /* The value of the error symbol belongs to the offending token */
+        if( sp==lemp->errsym ) continue;
+        if( once ){
+          fprintf(out, "      /* Default NON-TERMINAL Destructor */\n");lineno++;
+          once = 0;
+        }
+        fprintf(out,"    case %d: /* %s */\n", sp->index, sp->name); lineno++;
+        dflt_sp = sp;
+      }
+      if( dflt_sp!=0 ){
+        emit_destructor_code(out,dflt_sp,lemp,&lineno);
+        fprintf(out,"      break;\n"); lineno++;
       }
-      fprintf(out,"    case %d: /* %s */\n", sp->index, sp->name); lineno++;
-      dflt_sp = sp;
-    }
-    if( dflt_sp!=0 ){
-      emit_destructor_code(out,dflt_sp,lemp,&lineno);
     }
-    fprintf(out,"      break;\n"); lineno++;
   }
   for(i=0; i<lemp->nsymbol; i++){
     struct symbol *sp = lemp->symbols[i];
-- 
2.43.0


From 54478664e0499d2de7eca1ff48b8c31a4072af1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:56:45 +0000
Subject: [PATCH 22/52] fix: lemon: default reductions made tokens fall back
 that have an action of their own

---
 lemon/lemon.c | 27 +++++++++++++++++++++++----
 1 file changed, 23 insertions(+), 4 deletions(-)

diff --git a/lemon/lemon.c b/lemon/lemon.c
index b809a2d..2d0841a 100644
--- a/lemon/lemon.c
+++ b/lemon/lemon.c
@@ -5581,6 +5581,22 @@ void ReportHeader(struct lemon *lemp)
   return;
 }
 
+/*
+** Return true if the REDUCE action ap of state stp is for a token which has
+** a fallback token with another action in the same state.
+*/
+static int hides_fallback(struct state *stp, struct action *ap){
+  struct symbol *fb = ap->sp->fallback;
+  struct action *ap2;
+  if( fb==0 ) return 0;
+  for(ap2=stp->ap; ap2; ap2=ap2->next){
+    if( ap2->sp!=fb ) continue;
+    if( ap2->type==SHIFT || ap2->type==ERROR ) return 1;
+    if( ap2->type==REDUCE && ap2->x.rp!=ap->x.rp ) return 1;
+  }
+  return 0;
+}
+
 /* Reduce the size of the action tables, if possible, by making use
 ** of defaults.
 **
@@ -5631,14 +5647,17 @@ void CompressTables(struct lemon *lemp)
     if( nbest<1 || usesWildcard ) continue;
 
 
-    /* Combine matching REDUCE actions into a single default */
+    /* Combine matching REDUCE actions into a single default, except where
+    ** the parser would find an action for the fallback token first. */
     for(ap=stp->ap; ap; ap=ap->next){
-      if( ap->type==REDUCE && ap->x.rp==rbest ) break;
+      if( ap->type==REDUCE && ap->x.rp==rbest && !hides_fallback(stp,ap) ) break;
     }
-    assert( ap );
+    if( ap==0 ) continue;
     ap->sp = Symbol_new(lemp, "{default}");
     for(ap=ap->next; ap; ap=ap->next){
-      if( ap->type==REDUCE && ap->x.rp==rbest ) ap->type = NOT_USED;
+      if( ap->type==REDUCE && ap->x.rp==rbest && !hides_fallback(stp,ap) ){
+        ap->type = NOT_USED;
+      }
     }
     stp->ap = Action_sort(stp->ap);
 
-- 
2.43.0


From 73107b2a16fe1fbbc08a76e39ebf8eefb1760728 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:01:50 +0000
Subject: [PATCH 23/52] fix: lemon: default reductions lost to a reduction on
 the wildcard token

---
 lemon/lemon.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/lemon/lemon.c b/lemon/lemon.c
index 2d0841a..aead6c6 100644
--- a/lemon/lemon.c
+++ b/lemon/lemon.c
@@ -5640,6 +5640,15 @@ void CompressTables(struct lemon *lemp)
       }
     }
 
+    /* Reducing by another rule if the wildcard token is the lookahead
+    ** counts as well, as the parser would find that first. */
+    for(ap=stp->ap; ap; ap=ap->next){
+      if( ap->sp!=lemp->wildcard || lemp->wildcard==0 ) continue;
+      if( ap->type==ERROR || (ap->type==REDUCE && ap->x.rp!=rbest) ){
+        usesWildcard = 1;
+      }
+    }
+
     /* Do not make a default if the number of rules to default
     ** is not at least 1 or if the wildcard token is a possible
     ** lookahead.
-- 
2.43.0


From 1f9fee1844f0612769085435bc25aedb8c0d5990 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:13:05 +0000
Subject: [PATCH 24/52] fix: byacc -r with %destructor leaves yystos out of the
 tables

---
 byacc/output.c | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/byacc/output.c b/byacc/output.c
index 2867e5a..72ad0d6 100644
--- a/byacc/output.c
+++ b/byacc/output.c
@@ -367,8 +367,10 @@ output_accessing_symbols(byacc_t* S)
 	    translate[i] = S->symbol_pval[gsymb];
 	}
 
-	putl_code(S, S->output_file,
-		  "#if defined(YYDESTRUCT_CALL) || defined(YYSTYPE_TOSTRING)\n");
+	/* with -r the tables are compiled apart from the code that says so */
+	if (!(S->rflag && S->destructor))
+	    putl_code(S, S->output_file,
+		      "#if defined(YYDESTRUCT_CALL) || defined(YYSTYPE_TOSTRING)\n");
 	/* yystos[] may be unused, depending on compile-time defines */
 	start_int_table(S, "stos", translate[0]);
 
@@ -388,8 +390,9 @@ output_accessing_symbols(byacc_t* S)
 
 	end_table(S);
 	FREE(translate);
-	putl_code(S, S->output_file,
-		  "#endif /* YYDESTRUCT_CALL || YYSTYPE_TOSTRING */\n");
+	if (!(S->rflag && S->destructor))
+	    putl_code(S, S->output_file,
+		      "#endif /* YYDESTRUCT_CALL || YYSTYPE_TOSTRING */\n");
     }
 }
 
-- 
2.43.0


From 38cd19463e1d89a92fae21347456b1a2ce5a6f90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:41:59 +0000
Subject: [PATCH 25/52] fix: byacc wrote broken name tables for a token string
 containing a quote

---
 byacc/output.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/byacc/output.c b/byacc/output.c
index 72ad0d6..93e8c95 100644
--- a/byacc/output.c
+++ b/byacc/output.c
@@ -1432,6 +1432,8 @@ output_debug(byacc_t* S)
 			fprintf(S->output_file, "\\\\");
 			if (*++s == '\\')
 			    fprintf(S->output_file, "\\\\");
+			else if (*s == '"')
+			    fprintf(S->output_file, "\\\"");
 			else
 			    putc(*s, S->output_file);
 		    }
@@ -1539,6 +1541,8 @@ output_debug(byacc_t* S)
 		    {
 			if (s[1] == '\\')
 			    fprintf(S->output_file, "\\\\\\\\");
+			else if (s[1] == '"')
+			    fprintf(S->output_file, "\\\\\\\"");
 			else
 			    fprintf(S->output_file, "\\\\%c", s[1]);
 			++s;
-- 
2.43.0


From 1c17f7208bdd698b1f5f08756c77a384a4cd87a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:51:06 +0000
Subject: [PATCH 26/52] fix: byacc -g with -o named the graph after freed
 memory

---
 byacc/main.c | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/byacc/main.c b/byacc/main.c
index c28f85c..eb7740c 100644
--- a/byacc/main.c
+++ b/byacc/main.c
@@ -682,10 +682,7 @@ create_file_names(byacc_t* S)
 	CREATE_FILE_NAME(S->sql_file_name, SQL_SUFFIX);
     }
 
-    if (suffix != NULL)
-    {
-	FREE(S->file_prefix);
-    }
+    /* the prefix is kept: open_files() names the graph after it */
 }
 
 #if USE_MKSTEMP
-- 
2.43.0


From ce51d9349ab57c9e6d857cb8f2b20248f6056307 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:32:30 +0000
Subject: [PATCH 27/52] fix: byacc: a // comment ends at the end of its line in
 inline text

---
 byacc/reader.c | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/byacc/reader.c b/byacc/reader.c
index 9a4d8a9..4d141a1 100644
--- a/byacc/reader.c
+++ b/byacc/reader.c
@@ -423,10 +423,8 @@ next_inline(byacc_t* S)
 	    }
 	    else if (s[1] == '/')
 	    {
-		get_line(S);
-		if (S->line == NULL)
-		    return (EOF);
-		s = S->cptr;
+		while (*s != '\n')
+		    ++s;
 		break;
 	    }
 	    /* FALLTHRU */
-- 
2.43.0


From 7942c261db2d8f005d3f1e7d0cfc3b33db2539b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:32:39 +0000
Subject: [PATCH 28/52] fix: byacc: next_inline no longer takes a byte of 0xFF
 for the end of the file

---
 byacc/reader.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/byacc/reader.c b/byacc/reader.c
index 4d141a1..555375d 100644
--- a/byacc/reader.c
+++ b/byacc/reader.c
@@ -431,7 +431,7 @@ next_inline(byacc_t* S)
 
 	default:
 	    S->cptr = s;
-	    return (*s);
+	    return (UCH(*s));
 	}
     }
 }
-- 
2.43.0


From 6707bb6f615199bca2b36ef9c1d3968eda0fa53c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:32:48 +0000
Subject: [PATCH 29/52] fix: byacc: %empty no longer ends the grammar

---
 byacc/reader.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/byacc/reader.c b/byacc/reader.c
index 555375d..9564e90 100644
--- a/byacc/reader.c
+++ b/byacc/reader.c
@@ -3570,7 +3570,7 @@ mark_symbol(byacc_t* S)
 	     ((c = S->cptr[6], !IS_IDENT(c))))
     {
 	S->cptr += 6;
-	return (1);
+	return (0);
     }
     else
 	syntax_error(S, S->lineno, S->line, S->cptr);
-- 
2.43.0


From 5ca97936ec01376073332a0d15cbb0fe63ff0e3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:32:57 +0000
Subject: [PATCH 30/52] fix: byacc: %define api.pure at the end of a line no
 longer reads past the line

---
 byacc/reader.c | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/byacc/reader.c b/byacc/reader.c
index 9564e90..3573f3b 100644
--- a/byacc/reader.c
+++ b/byacc/reader.c
@@ -1854,10 +1854,7 @@ scan_blanks(byacc_t* S)
     {
 	c = next_inline(S);
 	if (c == '\n')
-	{
-	    ++S->cptr;
 	    return 0;
-	}
 	else if (c == ' ' || c == '\t')
 	    ++S->cptr;
 	else
@@ -1887,13 +1884,11 @@ hack_defines(byacc_t* S)
     struct ainfo a;
 
     if (!scan_blanks(S))
-	return;
+	syntax_error(S, S->lineno, S->line, S->cptr);
 
     begin_ainfo(a, 0);
     if (!scan_ident(S))
-    {
-	end_ainfo(a);
-    }
+	unexpected_value(S, &a);
 
     if (!strcmp(S->cache, "api.pure"))
     {
-- 
2.43.0


From 718f74d5cdd380c700a752a5087cb9c098c4df87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:33:07 +0000
Subject: [PATCH 31/52] fix: byacc: %code followed at once by a brace

---
 byacc/reader.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/byacc/reader.c b/byacc/reader.c
index 3573f3b..81c7ed1 100644
--- a/byacc/reader.c
+++ b/byacc/reader.c
@@ -723,6 +723,7 @@ copy_code(byacc_t* S)
     struct mstring *code_mstr;
 
     /* read %code <keyword> { */
+    --S->cptr;
     for (;;)
     {
 	c = *++S->cptr;
-- 
2.43.0


From cbe48f9d19b89086535371b245328478f70853c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:33:25 +0000
Subject: [PATCH 32/52] fix: byacc: arguments a symbol was not declared to have
 no longer overrun its argument tables

---
 byacc/reader.c | 56 +++++++++++++++++++++++++++++++++++++++-----------
 1 file changed, 44 insertions(+), 12 deletions(-)

diff --git a/byacc/reader.c b/byacc/reader.c
index 81c7ed1..a3c916b 100644
--- a/byacc/reader.c
+++ b/byacc/reader.c
@@ -1823,7 +1823,7 @@ declare_argtypes(byacc_t* S, bucket *bp)
 	int c = nextc(S);
 	if (c == EOF)
 	    unexpected_EOF(S);
-	if (c != '<')
+	if (c != '<' || args >= MAXARGS)
 	    syntax_error(S, S->lineno, S->line, S->cptr);
 	tags[args++] = get_tag(S);
 	c = nextc(S);
@@ -2264,6 +2264,31 @@ parse_int(byacc_t* S, char *p, int *save)
     return p;
 }
 
+/* (re)allocate the names and tags of a symbol's arguments */
+static void
+set_arg_count(byacc_t* S, bucket *bp, int args)
+{
+    int i = (bp->argtags != NULL) ? bp->args : 0;
+
+    bp->argnames = TREALLOC(char *, bp->argnames, args);
+    NO_SPACE(bp->argnames);
+    bp->argtags = TREALLOC(char *, bp->argtags, args);
+    NO_SPACE(bp->argtags);
+    for (; i < args; i++)
+    {
+	bp->argnames[i] = NULL;
+	bp->argtags[i] = NULL;
+    }
+    bp->args = args;
+}
+
+/* the tag of a symbol's argument: none where the symbol has no such argument */
+static char *
+arg_tag(bucket *bp, int i)
+{
+    return (i < bp->args) ? bp->argtags[i] : NULL;
+}
+
 static void
 parse_arginfo(byacc_t* S, bucket *a, char *args, int argslen)
 {
@@ -2274,16 +2299,18 @@ parse_arginfo(byacc_t* S, bucket *a, char *args, int argslen)
     {
 	if (a->args != argslen)
 	    arg_number_disagree_warning(S, S->rescan_lineno, a->name);
+	if (argslen > a->args)
+	    set_arg_count(S, a, argslen);
 	redec = 1;
     }
     else
     {
-	if ((a->args = argslen) == 0)
+	if (argslen == 0)
+	{
+	    a->args = 0;
 	    return;
-	a->argnames = TMALLOC(char *, argslen);
-	NO_SPACE(a->argnames);
-	a->argtags = TMALLOC(char *, argslen);
-	NO_SPACE(a->argtags);
+	}
+	set_arg_count(S, a, argslen);
     }
     if (!args)
 	return;
@@ -2748,7 +2775,7 @@ insert_arg_rule(byacc_t* S, char *arg, char *tag)
 	fprintf(f, "%s;", code);
 	end_case(f);
 	insert_empty_rule(S);
-	S->plhs[rule]->tag = cache_tag(S, tag, strlen(tag));
+	S->plhs[rule]->tag = tag ? cache_tag(S, tag, strlen(tag)) : NULL;
 	S->plhs[rule]->class = ARGUMENT;
     }
     else
@@ -2825,14 +2852,19 @@ add_symbol(byacc_t* S)
 
 #if defined(YYBTYACC)
     if (bp->args < 0)
-	bp->args = argslen;
+    {
+	if (argslen > 0)
+	    set_arg_count(S, bp, argslen);
+	else
+	    bp->args = 0;
+    }
     if (argslen == 0 && bp->args > 0 && S->pitem[S->nitems - 1] == NULL)
     {
 	int i;
 	if (S->plhs[S->nrules]->args != bp->args)
 	    wrong_number_args_warning(S, "default ", bp->name);
 	for (i = bp->args - 1; i >= 0; i--)
-	    if (S->plhs[S->nrules]->argtags[i] != bp->argtags[i])
+	    if (arg_tag(S->plhs[S->nrules], i) != bp->argtags[i])
 		wrong_type_for_arg_warning(S, i + 1, bp->name);
     }
     else if (bp->args != argslen)
@@ -2841,14 +2873,14 @@ add_symbol(byacc_t* S)
     {
 	char *ap = args;
 	int i = 0;
-	int elide_cnt = can_elide_arg(S, &ap, bp->argtags[0]);
+	int elide_cnt = can_elide_arg(S, &ap, arg_tag(bp, 0));
 
 	if (elide_cnt > argslen)
 	    elide_cnt = 0;
 	if (elide_cnt)
 	{
 	    for (i = 1; i < elide_cnt; i++)
-		if (can_elide_arg(S, &ap, bp->argtags[i]) != elide_cnt - i)
+		if (can_elide_arg(S, &ap, arg_tag(bp, i)) != elide_cnt - i)
 		{
 		    elide_cnt = 0;
 		    break;
@@ -2864,7 +2896,7 @@ add_symbol(byacc_t* S)
 	    i = 0;
 	}
 	for (; i < argslen; i++)
-	    ap = insert_arg_rule(S, ap, bp->argtags[i]);
+	    ap = insert_arg_rule(S, ap, arg_tag(bp, i));
 	free(args);
     }
 #endif /* defined(YYBTYACC) */
-- 
2.43.0


From fb382a9cc6bdd4afb9ac215c3e7ae7aca43347cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:57:16 +0000
Subject: [PATCH 33/52] fix: lemon: && binds tighter than || in %if expressions

---
 lemon/lemon.c | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/lemon/lemon.c b/lemon/lemon.c
index aead6c6..803ffe9 100644
--- a/lemon/lemon.c
+++ b/lemon/lemon.c
@@ -2904,6 +2904,8 @@ static int eval_preprocessor_boolean(struct lemon *lem, char *z, int lineno){
   int neg = 0;
   int res = 0;
   int okTerm = 1;
+  int andRes = 1;       /* value of the terms before the last && */
+  int orRes = 0;        /* value of the alternatives before the last || */
   int i;
   for(i=0; z[i]!=0; i++){
     if( ISSPACE(z[i]) ) continue;
@@ -2914,14 +2916,15 @@ static int eval_preprocessor_boolean(struct lemon *lem, char *z, int lineno){
     }
     if( z[i]=='|' && z[i+1]=='|' ){
       if( okTerm ) goto pp_syntax_error;
-      if( res ) return 1;
+      if( andRes && res ) orRes = 1;
+      andRes = 1;
       i++;
       okTerm = 1;
       continue;
     }
     if( z[i]=='&' && z[i+1]=='&' ){
       if( okTerm ) goto pp_syntax_error;
-      if( !res ) return 0;
+      if( !res ) andRes = 0;
       i++;
       okTerm = 1;
       continue;
@@ -2984,7 +2987,7 @@ static int eval_preprocessor_boolean(struct lemon *lem, char *z, int lineno){
     }
     goto pp_syntax_error;
   }
-  return res;
+  return orRes || (andRes && res);
 
 pp_syntax_error:
   if( lineno>0 ){
-- 
2.43.0


From af4571eb632e831de22bbcbc31942b08bc2657e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:57:22 +0000
Subject: [PATCH 34/52] fix: lemon: unfinished %if expressions are reported

---
 lemon/lemon.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/lemon/lemon.c b/lemon/lemon.c
index 803ffe9..20fb01e 100644
--- a/lemon/lemon.c
+++ b/lemon/lemon.c
@@ -2949,11 +2949,12 @@ static int eval_preprocessor_boolean(struct lemon *lem, char *z, int lineno){
           }
         }else if( z[k]=='(' ){
           n++;
-        }else if( z[k]==0 ){
-          i = k;
-          goto pp_syntax_error;
         }
       }
+      if( z[k]==0 ){
+        i = k;
+        goto pp_syntax_error;
+      }
       if( neg ){
         res = !res;
         neg = 0;
@@ -2987,6 +2988,7 @@ static int eval_preprocessor_boolean(struct lemon *lem, char *z, int lineno){
     }
     goto pp_syntax_error;
   }
+  if( okTerm ) goto pp_syntax_error;
   return orRes || (andRes && res);
 
 pp_syntax_error:
-- 
2.43.0


From 27875412978ae4e6344ab0eb040ef1e63f178fc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:57:28 +0000
Subject: [PATCH 35/52] fix: lemon: %endif is recognised at the end of a file
 without a final newline

---
 lemon/lemon.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lemon/lemon.c b/lemon/lemon.c
index 20fb01e..84fa65d 100644
--- a/lemon/lemon.c
+++ b/lemon/lemon.c
@@ -3015,7 +3015,7 @@ static void preprocess_input(struct lemon *lem, char *z){
   for(i=0; z[i]; i++){
     if( z[i]=='\n' ) lineno++;
     if( z[i]!='%' || (i>0 && z[i-1]!='\n') ) continue;
-    if( strncmp(&z[i],"%endif",6)==0 && ISSPACE(z[i+6]) ){
+    if( strncmp(&z[i],"%endif",6)==0 && (z[i+6]==0 || ISSPACE(z[i+6])) ){
       if( exclude ){
         exclude--;
         if( exclude==0 ){
-- 
2.43.0


From c37b000886a20af57a5d8c6547169e20431259ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:57:34 +0000
Subject: [PATCH 36/52] fix: lemon: code that ends inside a comment or string
 no longer reads past the end of the file

---
 lemon/lemon.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/lemon/lemon.c b/lemon/lemon.c
index 84fa65d..c384a19 100644
--- a/lemon/lemon.c
+++ b/lemon/lemon.c
@@ -3175,10 +3175,12 @@ void Parse(struct lemon *gp)
             prevc = c;
             cp++;
           }
+          if( c==0 ) break;
         }else if( c=='/' && cp[1]=='/' ){  /* Skip C++ style comments too */
           cp = &cp[2];
           while( (c= *cp)!=0 && c!='\n' ) cp++;
-          if( c ) lineno++;
+          if( c==0 ) break;
+          lineno++;
         }else if( c=='\'' || c=='\"' ){    /* String a character literals */
           int startchar, prevc;
           startchar = c;
@@ -3188,6 +3190,7 @@ void Parse(struct lemon *gp)
             if( prevc=='\\' ) prevc = 0;
             else              prevc = c;
           }
+          if( c==0 ) break;
         }
       }
       if( c==0 ){
-- 
2.43.0


From d108f8637b37cfbb1830bd1ecbcf5bf91e53fee7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:57:39 +0000
Subject: [PATCH 37/52] fix: lemon: code that ends in a label no longer reads
 past its end

---
 lemon/lemon.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lemon/lemon.c b/lemon/lemon.c
index c384a19..e08e55c 100644
--- a/lemon/lemon.c
+++ b/lemon/lemon.c
@@ -4364,6 +4364,7 @@ PRIVATE int translate_code(struct lemon *lemp, struct rule *rp){
         }
       }
       *xp = saved;
+      if( *cp==0 ) break;   /* the code ends in a label */
     }
     append_str(&sa_buf, cp, 1, 0, 0);
   } /* End loop */
-- 
2.43.0


From ec40abc674c5ec78161b8df80f837b0ad40072e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:57:45 +0000
Subject: [PATCH 38/52] fix: lemon: the exit status of 256 errors was that of
 success

---
 lemon/lemon.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lemon/lemon.c b/lemon/lemon.c
index e08e55c..2bd6cae 100644
--- a/lemon/lemon.c
+++ b/lemon/lemon.c
@@ -1758,7 +1758,7 @@ int main(int argc, char **argv){
 
   /* Parse the input file */
   Parse(&lem);
-  if( lem.printPreprocessed || lem.errorcnt ) exit(lem.errorcnt);
+  if( lem.printPreprocessed || lem.errorcnt ) exit(lem.errorcnt ? 1 : 0);
   if( lem.nrule==0 ){
     fprintf(stderr,"Empty grammar.\n");
     exit(1);
-- 
2.43.0


From edac9678150d017e00e1d0f58d8086815d648515 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:57:51 +0000
Subject: [PATCH 39/52] fix: lemon: an unterminated string was reported on line
 0

---
 lemon/lemon.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/lemon/lemon.c b/lemon/lemon.c
index 2bd6cae..5a95879 100644
--- a/lemon/lemon.c
+++ b/lemon/lemon.c
@@ -3078,7 +3078,6 @@ void Parse(struct lemon *gp)
   int lineno;
   int c;
   char *cp, *nextcp;
-  int startline = 0;
 
   memset(&ps, '\0', sizeof(ps));
   ps.gp = gp;
@@ -3151,7 +3150,7 @@ void Parse(struct lemon *gp)
         cp++;
       }
       if( c==0 ){
-        ErrorMsg(ps.filename,startline,
+        ErrorMsg(ps.filename,ps.tokenlineno,
             "String starting on this line is not terminated before "
             "the end of the file.");
         ps.errorcnt++;
-- 
2.43.0


From fb59ea2b5b40ada9e504761294b93f88be51b973 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:57:57 +0000
Subject: [PATCH 40/52] fix: lemon: text cut off inside a comment, a rule or a
 declaration is reported

---
 lemon/lemon.c | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/lemon/lemon.c b/lemon/lemon.c
index 5a95879..d5e0364 100644
--- a/lemon/lemon.c
+++ b/lemon/lemon.c
@@ -3132,13 +3132,21 @@ void Parse(struct lemon *gp)
       continue;
     }
     if( c=='/' && cp[1]=='*' ){          /* Skip C style comments */
+      ps.tokenlineno = lineno;
       cp+=2;
       if( (*cp)=='/' ) cp++;
       while( (c= *cp)!=0 && (c!='/' || cp[-1]!='*') ){
         if( c=='\n' ) lineno++;
         cp++;
       }
-      if( c ) cp++;
+      if( c ){
+        cp++;
+      }else{
+        ErrorMsg(ps.filename,ps.tokenlineno,
+          "Comment starting on this line is not terminated before "
+          "the end of the file.");
+        ps.errorcnt++;
+      }
       continue;
     }
     ps.tokenstart = cp;                /* Mark the beginning of the token */
@@ -3221,6 +3229,12 @@ void Parse(struct lemon *gp)
     *cp = (char)c;                  /* Restore the buffer */
     cp = nextcp;
   }
+  if( ps.state!=INITIALIZE && ps.state!=WAITING_FOR_DECL_OR_RULE
+   && ps.state!=RESYNC_AFTER_RULE_ERROR && ps.state!=RESYNC_AFTER_DECL_ERROR ){
+    ErrorMsg(ps.filename,lineno,
+      "The last rule or declaration is not complete at the end of the file.");
+    ps.errorcnt++;
+  }
   free(filebuf);                    /* Release the buffer after parsing */
   gp->rule = ps.firstrule;
   gp->errorcnt = ps.errorcnt;
-- 
2.43.0


From b9632e86c81f53f7ee805ee6011688067f23441b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:58:03 +0000
Subject: [PATCH 41/52] fix: lemon: token classes with rules, without tokens or
 extended in a rule are reported

---
 lemon/lemon.c | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/lemon/lemon.c b/lemon/lemon.c
index d5e0364..0619493 100644
--- a/lemon/lemon.c
+++ b/lemon/lemon.c
@@ -2371,6 +2371,12 @@ static void parseonetoken(struct lemon *lem, struct pstate *psp)
         psp->nrhs = 0;
         psp->lhsalias = 0;
         psp->state = WAITING_FOR_ARROW;
+        if( psp->lhs->type==MULTITERMINAL ){
+          ErrorMsg(psp->filename,psp->tokenlineno,
+            "The token class \"%s\" cannot have rules.", x);
+          psp->errorcnt++;
+          psp->state = RESYNC_AFTER_RULE_ERROR;
+        }
       }else if( x[0]=='{' ){
         if( psp->prevrule==0 ){
           ErrorMsg(psp->filename,psp->tokenlineno,
@@ -2543,7 +2549,7 @@ static void parseonetoken(struct lemon *lem, struct pstate *psp)
         msp->subsym = (struct symbol **) realloc(msp->subsym,
           sizeof(struct symbol*)*msp->nsubsym);
         msp->subsym[msp->nsubsym-1] = Symbol_new(lem, &x[1]);
-        if( ISLOWER(x[1]) || ISLOWER(msp->subsym[0]->name[0]) ){
+        if( ISLOWER(x[1]) || ISLOWER(msp->name[0]) ){
           ErrorMsg(psp->filename,psp->tokenlineno,
             "Cannot form a compound containing a non-terminal");
           psp->errorcnt++;
@@ -2872,6 +2878,11 @@ static void parseonetoken(struct lemon *lem, struct pstate *psp)
       break;
     case WAITING_FOR_CLASS_TOKEN:
       if( x[0]=='.' ){
+        if( psp->tkclass->nsubsym==0 ){
+          ErrorMsg(psp->filename, psp->tokenlineno,
+            "The token class \"%s\" has no tokens.", psp->tkclass->name);
+          psp->errorcnt++;
+        }
         psp->state = WAITING_FOR_DECL_OR_RULE;
       }else if( ISUPPER(x[0]) || ((x[0]=='|' || x[0]=='/') && ISUPPER(x[1])) ){
         struct symbol *msp = psp->tkclass;
-- 
2.43.0


From 90586967b767575a627a343018b59434f6d68364 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:58:08 +0000
Subject: [PATCH 42/52] fix: lemon: a token or token class named by
 %start_symbol is reported

---
 lemon/lemon.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/lemon/lemon.c b/lemon/lemon.c
index 0619493..2ca5621 100644
--- a/lemon/lemon.c
+++ b/lemon/lemon.c
@@ -963,7 +963,7 @@ void FindStates(struct lemon *lemp)
   /* Find the start symbol */
   if( lemp->start ){
     sp = Symbol_find(lemp, lemp->start);
-    if( sp==0 ){
+    if( sp==0 || sp->type!=NONTERMINAL ){
       ErrorMsg(lemp->filename,0,
         "The specified start symbol \"%s\" is not "
         "in a nonterminal of the grammar.  \"%s\" will be used as the start "
@@ -1231,7 +1231,7 @@ void FindActions(struct lemon *lemp)
   /* Add the accepting token */
   if( lemp->start ){
     sp = Symbol_find(lemp, lemp->start);
-    if( sp==0 ){
+    if( sp==0 || sp->type!=NONTERMINAL ){
       if( lemp->startRule==0 ){
         fprintf(stderr, "internal error on source line %d: no start rule\n",
                 __LINE__);
@@ -3536,7 +3536,7 @@ static int ruleline_compare(const void *a, const void *b){
 static struct symbol *effective_start_symbol(struct lemon *lemp)
 {
   struct symbol *sp = lemp->start ? Symbol_find(lemp, lemp->start) : 0;
-  return sp ? sp : lemp->startRule->lhs;
+  return sp && sp->type==NONTERMINAL ? sp : lemp->startRule->lhs;
 }
 
 /* Duplicate the input file without comments and without actions
-- 
2.43.0


From 7b0e4a67b2c0cead47947bbf3d64d2180ffce4f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:10:36 +0000
Subject: [PATCH 43/52] fix: lemon: a start symbol that begins one of its own
 rules no longer aborts the tool

---
 lemon/lemon.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lemon/lemon.c b/lemon/lemon.c
index 2ca5621..4babef9 100644
--- a/lemon/lemon.c
+++ b/lemon/lemon.c
@@ -1340,6 +1340,8 @@ static int resolve_conflict(
     /* A non-associative token stays an error whatever else could be
     ** reduced on it. */
     if( apy->type==REDUCE ) apy->type = RD_RESOLVED;
+  }else if( apy->type==ACCEPT ){
+    /* The start symbol begins one of its own rules: reported already. */
   }else{
     assert(
       apx->type==SH_RESOLVED ||
-- 
2.43.0


From a8214f7ba72b612ebad4f734804e04f1fa7d6dcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:13:56 +0000
Subject: [PATCH 44/52] fix: lemon: an overwrites comment right after a label
 is recognised

---
 lemon/lemon.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lemon/lemon.c b/lemon/lemon.c
index 4babef9..4d1e7b2 100644
--- a/lemon/lemon.c
+++ b/lemon/lemon.c
@@ -4390,7 +4390,7 @@ PRIVATE int translate_code(struct lemon *lemp, struct rule *rp){
         }
       }
       *xp = saved;
-      if( *cp==0 ) break;   /* the code ends in a label */
+      if( cp==xp ){ cp--; continue; }   /* look at what follows the label */
     }
     append_str(&sa_buf, cp, 1, 0, 0);
   } /* End loop */
-- 
2.43.0


From 31cb4aaeb014a4a9e176b3af6faa43c57ed986ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:14:19 +0000
Subject: [PATCH 45/52] fix: byacc -n -N -C -c: no stray ';' before the first
 rule when it starts with a mid-rule action

---
 byacc/reader.c | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/byacc/reader.c b/byacc/reader.c
index a3c916b..931736b 100644
--- a/byacc/reader.c
+++ b/byacc/reader.c
@@ -4476,6 +4476,7 @@ static void
 print_grammar_naked(byacc_t* S)
 {
     int i, k;
+    int printed = 0;
     FILE *f = S->naked_file;
 
     if (!S->naked_flag)
@@ -4521,7 +4522,7 @@ print_grammar_naked(byacc_t* S)
         int skip_rule = sym_name[0] == '$';
 	if (S->rlhs[i] != S->rlhs[i - 1])
 	{
-	    if (i > START_RULE_IDX+1 && !skip_rule) /*+1 to not print ';' at the beginning*/
+	    if (!skip_rule && printed++) /* no ';' before the first rule */
 		fprintf(f, "\t;\n");
 	    if(!skip_rule)
         	fprintf(f, "%s :\n\t", (i == START_RULE_IDX) ? "x_start_rule_" : sym_name);
@@ -4566,6 +4567,7 @@ static void
 print_grammar_nakedQ(byacc_t* S)
 {
     int i, k;
+    int printed = 0;
     FILE *f = S->nakedq_file;
 
     if (!S->nakedq_flag)
@@ -4611,7 +4613,7 @@ print_grammar_nakedQ(byacc_t* S)
         int skip_rule = sym_name[0] == '$';
 	if (S->rlhs[i] != S->rlhs[i - 1])
 	{
-	    if (i > START_RULE_IDX+1 && !skip_rule) /*+1 to not print ';' at the beginning*/
+	    if (!skip_rule && printed++) /* no ';' before the first rule */
 		fprintf(f, "\t;\n");
 	    if(!skip_rule)
 		fprintf(f, "%s :\n\t", (i == START_RULE_IDX) ? "x_start_rule_" : sym_name);
@@ -4668,6 +4670,7 @@ static void
 print_grammar_unicc(byacc_t* S)
 {
     int b, i, k;
+    int printed = 0;
     FILE *f = S->unicc_file;
     char64_t buf;
 
@@ -4721,7 +4724,7 @@ print_grammar_unicc(byacc_t* S)
         int skip_rule = sym_name[0] == '$';
 	if (S->rlhs[i] != S->rlhs[i - 1])
 	{
-	    if (i > START_RULE_IDX+1 && !skip_rule) /*+1 to not print ';' at the beginning*/
+	    if (!skip_rule && printed++) /* no ';' before the first rule */
 		fprintf(f, "\t;\n");
 	    if(!skip_rule) {
                 if(b == 0 && strcmp(S->goal->name, sym_name) == 0) {
@@ -4784,6 +4787,7 @@ static void
 print_grammar_carburetta(byacc_t* S)
 {
     int b, i, k;
+    int printed = 0;
     FILE *f = S->carburetta_file;
     char64_t buf;
 
@@ -4830,7 +4834,7 @@ print_grammar_carburetta(byacc_t* S)
         int skip_rule = sym_name[0] == '$';
 	if (S->rlhs[i] != S->rlhs[i - 1])
 	{
-	    if (i > START_RULE_IDX+1 && !skip_rule) /*+1 to not print ';' at the beginning*/
+	    if (!skip_rule && printed++) /* no ';' before the first rule */
 		fprintf(f, "\t;\n");
 	    if(!skip_rule)
         	fprintf(f, "%s :\n\t", (i == START_RULE_IDX) ? "x_start_rule_" : sym_name);
-- 
2.43.0


From d83719aa3082acb4b58831edb92cd7d000e4a67e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:14:28 +0000
Subject: [PATCH 46/52] fix: byacc -c: do not change '.' literals into '_'

---
 byacc/reader.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/byacc/reader.c b/byacc/reader.c
index 931736b..8b2c807 100644
--- a/byacc/reader.c
+++ b/byacc/reader.c
@@ -4658,6 +4658,7 @@ print_grammar_nakedQ(byacc_t* S)
 static const char *get_normalized_rule_name(char64_t *buf, const char *tkname)
 {
     snprintf(*buf, sizeof(char64_t), "%s", tkname);
+    if(tkname[0] == '\'' || tkname[0] == '"') return *buf; /* literals stay as they are */
     for(int i=0; (*buf)[i]; ++i) {
         if((*buf)[i] == '.')
             (*buf)[i] = '_';
-- 
2.43.0


From 7a00a4637c1dd62f6d54fb83b9c912c643660dda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:14:36 +0000
Subject: [PATCH 47/52] fix: byacc -S: write symbol names of any length, the
 escape buffer could overflow

---
 byacc/reader.c | 26 +++++++-------------------
 1 file changed, 7 insertions(+), 19 deletions(-)

diff --git a/byacc/reader.c b/byacc/reader.c
index 8b2c807..12a2fe7 100644
--- a/byacc/reader.c
+++ b/byacc/reader.c
@@ -4876,21 +4876,12 @@ print_grammar_carburetta(byacc_t* S)
     fprintf(f, "\t;\n"); /*last rule*/
 }
 
-static const char *escape_sql(char64_t *buf, const char *tkname)
+static void write_sql_name(FILE *f, const char *tkname)
 {
-    int i, i2;
-    for(i=0, i2 = 0; i<(int)(sizeof(char64_t)-1) && tkname[i2]; ++i, ++i2) {
-        switch(tkname[i2]) {
-            case '\'':
-                (*buf)[i++] = tkname[i2];
-                (*buf)[i] = tkname[i2];
-                break;
-            default:
-            (*buf)[i] = tkname[i2];
-        }
+    for(; *tkname; ++tkname) {
+        if(*tkname == '\'') putc('\'', f);
+        putc(*tkname, f);
     }
-    (*buf)[i] = '\0';
-    return *buf;
 }
 
 static void
@@ -4899,7 +4890,6 @@ print_grammar_sql(byacc_t* S)
     int b, i, j, k;
     FILE *f = S->sql_file;
     bucket *bp;
-    char64_t buf;
 
     if (!S->sql_flag)
 	return;
@@ -4925,11 +4915,9 @@ print_grammar_sql(byacc_t* S)
                      "INSERT INTO symbol(id,name,isTerminal)"
                      " VALUES\n");
                 }
-                fprintf(f,
-                   " %s(%d,'%s',%s)\n",
-                   (b>0) ? "," : " ", bp->index, escape_sql(&buf, bp->name),
-                   (bp->class == TERM) ? "TRUE" : "FALSE"
-                );
+                fprintf(f, " %s(%d,'", (b>0) ? "," : " ", bp->index);
+                write_sql_name(f, bp->name);
+                fprintf(f, "',%s)\n", (bp->class == TERM) ? "TRUE" : "FALSE");
                 ++b;
                 break;
         }
-- 
2.43.0


From bb12555f001ecd84e178ca031aadbab2625c70ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:14:42 +0000
Subject: [PATCH 48/52] fix: lemon -g and -S view: %stack_size takes no '.'

---
 lemon/lemon.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lemon/lemon.c b/lemon/lemon.c
index 4d1e7b2..479b0a8 100644
--- a/lemon/lemon.c
+++ b/lemon/lemon.c
@@ -3552,7 +3552,7 @@ void Reprint(struct lemon *lemp)
   Reprint_token_numbers(lemp);
   Reprint_tokens(lemp, " .", 0);
   if(lemp->stacksize) {
-    printf("\n%%stack_size %s .\n", lemp->stacksize);
+    printf("\n%%stack_size %s\n", lemp->stacksize);
   }
 
   if(lemp->wildcard) {
@@ -4952,7 +4952,7 @@ void ReportSQL(
     "SELECT * FROM prec_view\n"
     "UNION ALL\n"
     "SELECT '\n"
-    "%%stack_size ' || stack_size || ' .\n"
+    "%%stack_size ' || stack_size || '\n"
     "'\n"
     "FROM directives\n"
     "UNION ALL\n"
-- 
2.43.0


From 25887db1bdcf5ea05d2b754f68735336800f46e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:14:48 +0000
Subject: [PATCH 49/52] fix: lemon -S: fallback_view shows every fallback group

---
 lemon/lemon.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lemon/lemon.c b/lemon/lemon.c
index 479b0a8..650fd11 100644
--- a/lemon/lemon.c
+++ b/lemon/lemon.c
@@ -4935,7 +4935,7 @@ void ReportSQL(
     "  ') AS val FROM (\n"
     "  SELECT sf.name AS fb, row_number() OVER (ORDER BY s.id) AS cnt, s.name\n"
     "  FROM symbol s JOIN symbol sf ON s.fallback = sf.id\n"
-    ") t;\n"
+    ") t GROUP BY fb;\n"
     "CREATE VIEW prec_view AS\n"
     "WITH prec(id, name) AS (VALUES('L','%%left'),('R','%%right'),('N','%%nonassoc'),('P','%%precedence'))\n"
     "SELECT prec.name || ' ' || group_concat(s.name, ' ') || ' .'\n"
-- 
2.43.0


From 2456b507ad0aca0a4e0707e115f85cc358c30966 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:14:54 +0000
Subject: [PATCH 50/52] fix: lemon -g: print %yacc_prec when it is in effect

---
 lemon/lemon.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lemon/lemon.c b/lemon/lemon.c
index 650fd11..4662533 100644
--- a/lemon/lemon.c
+++ b/lemon/lemon.c
@@ -3555,6 +3555,10 @@ void Reprint(struct lemon *lemp)
     printf("\n%%stack_size %s\n", lemp->stacksize);
   }
 
+  if(lemp->yaccPrec) {
+    printf("\n%%yacc_prec\n");
+  }
+
   if(lemp->wildcard) {
     printf("\n%%wildcard %s .\n", lemp->wildcard->name);
   }
-- 
2.43.0


From 4b650d041cb6d2f1cf91d1f0dd07c4e4ac6c026f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:10:00 +0000
Subject: [PATCH 51/52] fix: byacc: do not count argument names as type tags
 when deciding about the default YYSTYPE

---
 byacc/output.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/byacc/output.c b/byacc/output.c
index 93e8c95..29c4095 100644
--- a/byacc/output.c
+++ b/byacc/output.c
@@ -238,7 +238,7 @@ end_table(byacc_t* S)
 static void
 output_stype(byacc_t* S, FILE * fp)
 {
-    if (!S->unionized && S->ntags == 0)
+    if (!S->unionized && !S->havetags)
     {
 	putc_code(S, fp, '\n');
 	putl_code(S, fp, "#if "
-- 
2.43.0


From cd02ed99c608081a56338b39ae4f8fe18d9e88a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:10:16 +0000
Subject: [PATCH 52/52] fix: byacc: do not count the terminating zero into a
 type tag

---
 byacc/reader.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/byacc/reader.c b/byacc/reader.c
index 12a2fe7..34f51e8 100644
--- a/byacc/reader.c
+++ b/byacc/reader.c
@@ -1676,7 +1676,7 @@ get_tag(byacc_t* S)
 
     FREE(t_line);
     S->havetags = 1;
-    return cache_tag(S, S->cache, (size_t)S->cinc);
+    return cache_tag(S, S->cache, (size_t)(S->cinc - 1));
 }
 
 #if defined(YYBTYACC)
-- 
2.43.0


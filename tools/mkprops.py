#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (run by hand when a property changes)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=None, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m} for n, m in state]
    if observe: a["observe_at"] = observe
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": qtext},
              "why_tests_cant": why, "anchors": a})

p("C01", "byacc builds exactly the LALR(1) automaton of the grammar",
  "For every accepted grammar, the parser byacc generates has exactly the LR(0) states reachable from the start symbol, with exactly their transitions, and reduces by a rule in a state on exactly the LALR(1) lookaheads of that rule there (or by default where that reduction is the only action). The generated tables encode those decisions for every state and every token, and the reported numbers of terminals, nonterminals, rules and states are those of that automaton.",
  ["inputs", "programs"], "all grammars byacc accepts (empty rules, recursion, unreachable and unproductive symbols, error rules, mid-rule actions), of any size: tokens, states, rules and rule lengths around word, byte and growth boundaries included",
  "The test suite compares the output for a few dozen fixed grammars with stored text; a wrong lookahead, a lost state or a packing error for another grammar shape or size is not sampled.",
  ["byacc/lr0.c", "byacc/closure.c", "byacc/warshall.c", "byacc/lalr.c", "byacc/mkpar.c", "byacc/output.c", "byacc/verbose.c"],
  [("LR(0) item sets and goto", "lr0.c: generate_states, get_state, save_shifts, save_reductions"), ("nullable set, first-derives closure", "lr0.c set_nullable; closure.c set_EFF/closure; warshall.c"),
   ("DeRemer-Pennello lookaheads", "lalr.c: initialize_F, build_relations, compute_FOLLOWS, compute_lookaheads"), ("table packing", "output.c: token_actions, goto_actions, sort_actions, matching_vector, pack_vector")],
  [("state table, LA bit matrix", "LR(0) kernels and per-reduction lookahead sets")], ["y.output", "y.tab.c tables", "statistics on standard error"])

p("C02", "byacc resolves and accounts for every conflict as declared",
  "In every state and on every token where several actions are possible, the action kept is the one the precedence and associativity declarations determine (higher precedence wins; on a tie left reduces, right shifts, nonassoc makes an error), and otherwise shift over reduce and the earlier rule over the later. Exactly the conflicts not settled by precedence are counted, reported line by line and per state, and compared with %expect and %expect-rr to decide the exit status; rules that can never be reduced are exactly those reported. -u makes byacc ignore all precedence, and -z makes it choose rule precedence and settle reduce/reduce conflicts the way lemon does.",
  ["inputs", "configurations"], "all grammars with and without precedence declarations, %prec, %expect, %expect-rr, under any combination of -u, -z and -B",
  "Stored outputs cover a handful of conflicts; -u and -z have no test at all, and the combination of several reductions, nonassoc and missing precedence in one cell is not enumerated.",
  ["byacc/mkpar.c", "byacc/reader.c", "byacc/verbose.c", "byacc/main.c"],
  [("conflict resolution", "mkpar.c remove_conflicts, unused_rules, sole_reduction, total_conflicts"), ("rule precedence", "reader.c mark_symbol (%prec), pack_grammar, assign_prec"), ("conflict report", "verbose.c print_conflicts, log_conflicts")],
  None, ["y.output", "standard error", "exit status", "y.tab.c tables"])

p("C03", "byacc-generated parsers execute the LR machine with correct values",
  "For every grammar and every token sequence, a generated parser accepts exactly when the machine described by the resolved automaton accepts, returning 0 or else 1, asks the scanner for a token only when it needs one, and runs each rule's action exactly once per reduction in order, with each $n and $$ (and typed variants, mid-rule actions, $0 and negative references, inherited attributes of btyacc) denoting the value of the right symbol. This holds at any nesting depth up to the stack limit, beyond which the parse fails cleanly, and for repeated parses in one process, in both skeletons and under the options that only change presentation (-t, -l, -d, -r, -P, -p, -i, -g).",
  ["inputs", "programs", "histories", "configurations"], "all grammars, token sequences up to any length, sequences of parses; plain and backtracking-capable skeletons; pure and global parsers",
  "The suite never runs a generated parser: it only compares generated text for fixed grammars.",
  ["byacc/yaccpar.c", "byacc/btyaccpar.c", "byacc/output.c", "byacc/reader.c"],
  [("driver loop and stack growth", "yaccpar.c/btyaccpar.c body sections: yyloop, yyreduce, yygrowstack"), ("$ reference translation", "reader.c copy_action"), ("section assembly", "output.c output()")],
  [("state and value stacks, lookahead", "parser configuration")], ["scanner calls, action executions and yyparse results of compiled parsers"])

p("C04", "byacc-generated parsers recover from errors as yacc specifies",
  "On an error the parser reports it once, discards states until one shifts the error token, then discards tokens until one is acceptable, and stays silent about further errors until three tokens have been shifted; it fails when no state can recover or the input ends during discarding. YYERROR, YYABORT, YYACCEPT, yyerrok, yyclearin and YYRECOVERING have their documented effect from any action, and each discarded symbol's declared destructor runs exactly once.",
  ["inputs", "programs", "histories"], "all grammars with error rules and such actions, all erroneous token sequences; both skeletons",
  "No generated parser is run by the tests, so recovery is never exercised.",
  ["byacc/yaccpar.c", "byacc/btyaccpar.c", "byacc/output.c", "byacc/reader.c"],
  [("recovery", "yaccpar.c yyerrlab/yyinrecovery; btyaccpar.c yyerrhandler/yyinrecovery"), ("destructors", "reader.c copy_destructor, output.c output_yydestruct_impl")],
  [("error status 0..3", "tokens to shift before errors are reported again")], ["yyerror calls, discarded symbols, actions, result"])

p("C05", "backtracking parsers accept iff some resolution of the conflicts does",
  "With -B, a generated parser accepts an input without error recovery exactly when some choice among the conflicting actions leads to acceptance, trying shift before reductions in rule order and following the first complete success. Ordinary actions run only along the successful parse, once each and in order, never during a trial; each token is requested from the scanner once, and its value is the same when re-read.",
  ["inputs", "programs"], "all grammars with unresolved conflicts (excluding those whose trial cannot terminate: cyclic or hidden left-recursive conflicts), all token sequences",
  "The tests only compare generated text for the btyacc demo grammars; no trial parse is executed.",
  ["byacc/btyaccpar.c", "byacc/output.c", "byacc/mkpar.c", "byacc/verbose.c"],
  [("trial parsing", "btyaccpar.c conflict handling, yyerrhandler, yyvalid"), ("conflict table", "output.c token_actions, find_conflict_base, output_ctable")],
  [("saved parse states, lexeme queue", "points to return to and tokens to re-read")], ["scanner calls, actions, yyerror calls and result of compiled parsers"])

p("C06", "byacc reports and headers describe the parser actually generated",
  "The verbose report, the graph and the token header agree with the generated parser: every item, shift, goto, reduction, default, conflict line, never-reduced rule and total in the report, every node and labelled edge of the graph, and every token code in header and parser are those of the automaton and tables that were generated. Each listed conflict names the rules and the token really involved.",
  ["inputs", "configurations"], "all grammars, with -v, -g, -d and -B in any combination, both builds",
  "Reports of a few dozen grammars are compared with stored text; several of those comparisons are already failing and unconfirmed.",
  ["byacc/verbose.c", "byacc/graph.c", "byacc/output.c", "byacc/reader.c"],
  [("report", "verbose.c print_state, print_conflicts, print_gotos, log_unused"), ("graph", "graph.c graph()"), ("header", "output.c output_defines")], None, ["y.output", "y.dot", "y.tab.h", "y.tab.c"])

p("C07", "byacc reads a grammar file into the grammar it denotes",
  "However a grammar is written (alternatives joined or repeated, optional semicolons and separators, comments, quoted or escaped character and string tokens, declarations in any order, mid-rule and trailing actions, %prec, %start, %token numbers, %type), the rules, symbols, start symbol and precedences byacc works with are those the file denotes. Token numbers are the declared ones, a character's code for a character literal, 256 for error and otherwise distinct numbers from 257 up that avoid the declared ones; malformed files are rejected with a message and a failing exit status and never crash the tool.",
  ["inputs"], "all grammar files over the declaration and rule syntax, in every layout; and files with one defect of each documented kind",
  "Each notation is tried in one or two fixed files.",
  ["byacc/reader.c", "byacc/symtab.c", "byacc/error.c"],
  [("declarations", "reader.c read_declarations, declare_tokens, assign_prec, declare_start"), ("rules", "reader.c read_grammar, add_symbol, insert_empty_rule, mark_symbol, copy_action"), ("literals", "reader.c get_literal"), ("numbering", "reader.c pack_symbols")],
  None, ["y.output rule list and symbol table", "y.tab.h", "standard error", "exit status"])

p("C08", "byacc grammar converters preserve the grammar",
  "Each export of byacc (-e EBNF, -n and -N naked yacc, -E lemon, -S SQL, -c CocoR/-C peg-like ) contains every rule of the input exactly once with the same symbols in the same order, up to the converter's renaming and its treatment of mid-rule actions; -n, -N and -E also carry the start symbol, token and precedence declarations with the same levels, associativities and %prec marks. Reading the export back yields the same language decisions: the same conflicts and the same automaton.",
  ["inputs", "configurations"], "all accepted grammars whose symbol names remain distinct under the converter's documented renaming",
  "No test runs any converter.",
  ["byacc/reader.c", "byacc/main.c", "byacc/output.c"],
  [("exports", "reader.c print_grammar family at end of reader(): ebnf, naked, lemon, sql, cocor, peg")], None, ["y.ebnf, y.yn, y.yl, y.sql, y.ycbrt, y.ypar"])

p("C09", "lemon builds exactly the LALR(1) automaton of the grammar",
  "For every accepted grammar, lemon's machine has exactly the LR(0) states reachable from the start symbol, with exactly their transitions, and before conflict resolution it reduces by a rule in a state on exactly the LALR(1) lookaheads of that rule there. The report lists those items and actions, the symbols with their exact first sets and erasability, and the rules with their precedence.",
  ["inputs", "programs"], "all grammars lemon accepts (empty rules, multi-terminals, unreachable symbols, wildcard, fallback), of any size around set-word and table growth boundaries",
  "lemon has no tests in the repository.",
  ["lemon/lemon.c"],
  [("item sets", "FindStates, getstate, buildshifts, Configlist_closure"), ("first sets", "FindFirstSets"), ("lookahead propagation", "FindLinks, FindFollowSets, FindActions"), ("report", "ReportOutput")], None, ["the .out report with -c -p, with and without -b"])

p("C10", "lemon resolves and accounts for every conflict as declared",
  "In every state and on every token where several actions are possible, the action kept is the one the declarations determine: higher precedence wins, ties follow the associativity, nonassoc and precedence ties make an error, reduce/reduce conflicts are settled by different rule precedences and otherwise the earlier rule is kept. Exactly the unsettled conflicts are counted and reported, %expect is compared with that count, a rule that can never be reduced is an error, and the exit status tells whether everything is in order; -u ignores all precedence and -z (or %yacc_prec) takes a rule's precedence from its last terminal as yacc does.",
  ["inputs", "configurations"], "all grammars with and without precedence declarations, [X] precedence marks, %expect, %yacc_prec, under -u and -z",
  "lemon has no tests in the repository.",
  ["lemon/lemon.c"], [("resolution", "resolve_conflict, FindActions"), ("rule precedence", "FindRulePrecedences"), ("exit status", "main, nconflict/errorcnt")], None, ["the .out report", "standard error", "exit status", "-s statistics"])

p("C11", "lemon tables and options never change what the parser does",
  "For every grammar, the generated tables make the same decision for every state and token as the machine of the report, except that a default reduction may replace an error until the next shift. Compression, state renumbering and the table packing (with or without -c, -r, -l, -q, -m, -p, -s, -x-like presentation options) never change which inputs are accepted, which code-bearing reductions run, in which order, or with which values.",
  ["inputs", "programs", "configurations"], "all grammars, all token sequences, all combinations of the table options; grammars with more than 255 states, rules and tokens included",
  "lemon has no tests; no generated parser is ever compiled.",
  ["lemon/lemon.c", "lemon/lempar.c"], [("compression", "CompressTables, ResortStates"), ("packing", "acttab_*, ReportTable"), ("lookup", "lempar.c yy_find_shift_action, yy_find_reduce_action, yy_reduce")], None, ["reductions and results of compiled parsers", "tables"])

p("C12", "lemon-generated parsers handle errors, fallback and wildcard as specified",
  "A token with no action is tried as its fallback token, then as the wildcard, and only then is it an error. On an error the syntax-error code runs once per error episode; with an error symbol the parser pops to a state that accepts it, discards tokens until one is acceptable and stays silent until three tokens were shifted; without one the token is discarded, and at the end of the input the parse fails. The accept, failure and overflow code run exactly when the parse accepts, fails or exceeds the stack.",
  ["inputs", "programs", "histories"], "all grammars with %fallback, %wildcard, error productions, %syntax_error, %parse_failure, %parse_accept, %stack_overflow and stack sizes; all token sequences; successive parses with one parser object",
  "lemon has no tests; the driver template is never compiled.",
  ["lemon/lempar.c", "lemon/lemon.c"], [("driver", "lempar.c Parse, yy_syntax_error, yy_parse_failed, yy_accept, yyStackOverflow, yy_find_shift_action"), ("fallback and wildcard tables", "lemon.c ReportTable, parseonetoken WAITING_FOR_FALLBACK_ID/WILDCARD_ID")], [("stack, yyerrcnt", "parser configuration")], ["calls of user code in compiled parsers"])

p("C13", "lemon runs each destructor exactly once for every value it discards",
  "Over any parse, each semantic value (token or nonterminal) is either handed to exactly one rule action under its declared name, or destroyed exactly once by its symbol's destructor (or the token or default destructor), including values popped in error recovery, on failure, on stack overflow, on parser finalisation, and right-hand-side values an action does not name. (The start symbol's value is simply dropped when the parse is accepted, and a rule without an action gives its left-hand side no value of its own.) The value an action gives its left-hand side is the one later passed on, with every label denoting its own symbol's value.",
  ["inputs", "programs", "histories"], "all grammars with any mixture of %type, %destructor, %token_destructor, %default_destructor and labels; all token sequences including erroneous and truncated ones",
  "lemon has no tests; lifetimes depend on where in a parse an error, an overflow or finalisation hits.",
  ["lemon/lempar.c", "lemon/lemon.c"], [("destructors", "lempar.c yy_destructor, yy_pop_parser_stack, yyStackOverflow, ParseFinalize"), ("action translation", "lemon.c translate_code, emit_destructor_code")], [("values on the stack", "each alive exactly once")], ["creation, use and destruction events in compiled parsers"])

p("C14", "lemon grammar exports preserve the grammar",
  "The reprinted grammar (-g), the yacc exports (-y, -Y) and the SQL export (-S) contain every rule of the input with the same symbols in the same order, multi-terminals expanded to every combination, and carry the same start symbol, tokens, precedence levels, associativities and rule precedences. Processing the exported grammar again gives the same language decisions: the same conflicts and the same automaton.",
  ["inputs", "configurations"], "all grammars lemon accepts, with -g, -y, -Y, -S and with -u or -z",
  "lemon has no tests.",
  ["lemon/lemon.c"], [("exports", "Reprint, ReportYacc family, ReportSql"), ("start symbol", "effective_start_symbol")], None, ["standard output of lemon -g, the yacc and SQL exports"])

p("C15", "lemon's conditional preprocessing keeps exactly the selected lines",
  "The lines of a grammar file that take effect are exactly those that the nested %ifdef, %ifndef, %if, %else and %endif directives select for the macros given with -D, with %if expressions evaluated with !, &&, || and parentheses over defined names; line numbers of everything else are unchanged. An ill-formed condition and an excluded part without %endif are reported as errors with a failing exit status.",
  ["inputs", "configurations"], "all nestings of the directives up to any depth, all sets of -D macros, all %if expressions",
  "lemon has no tests.",
  ["lemon/lemon.c"], [("preprocessor", "preprocess_input, eval_preprocessor_boolean"), ("macros", "handle_D_option")], None, ["the output of lemon -E", "the rules in -g", "exit status"])

p("C16", "lemon reads a grammar file into the grammar and codes it denotes",
  "However a grammar is written (repeated left-hand sides, labels, [X] marks, multi-terminals A|B|C, comments, code blocks, declarations in any order, %token, %token_class, %start_symbol), the rules, symbols and precedences lemon works with are those the file denotes. The token codes in the header are 1 to n in order of first mention (with the %token_prefix), agree with the generated parser, and malformed input is reported with a failing exit status and never crashes the tool.",
  ["inputs"], "all grammar files over the declaration and rule syntax in every layout; files with one defect of each documented kind",
  "lemon has no tests.",
  ["lemon/lemon.c"], [("reader", "Parse, parseonetoken"), ("symbols", "Symbol_new, sort in main"), ("header", "ReportHeader")], None, ["-g output, .out report, .h header, standard error, exit status"])

p("C17", "byacc and lemon agree on a grammar carried from one to the other",
  "A grammar converted by byacc -E and read by lemon, or converted by lemon -y and read by byacc, gives in both tools the same numbers of states (up to the explicit end rule), the same unresolved conflicts when the same precedence rules are selected (-z or -u), and parsers that accept the same sentences with the same reductions. This is the documented use of the converters: moving a grammar between the tools without changing its meaning.",
  ["inputs", "configurations"], "all grammars expressible in both notations, with -u or -z where rule precedence would otherwise differ",
  "No test runs more than one tool.",
  ["byacc/reader.c", "lemon/lemon.c", "byacc/mkpar.c"], [("converters", "byacc reader.c lemon export; lemon.c yacc export"), ("precedence compatibility", "byacc -z, lemon -z / %yacc_prec")], None, ["conflict counts, state counts and reductions of both tools"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
print(len(P))

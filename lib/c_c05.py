"""C05: backtracking parsers accept iff some resolution of the conflicts does."""
import byjobs, gram, yrt

RULE = "a case is one grammar with unresolved conflicts under -B, generated in three ways (token queue growth, stack sizes, options) and run on inputs; every token request, action, message and result is compared with the machine TLC runs, and acceptance and reductions with an independent search for the first success; distinct by source text"

DECLS = """%token ID TYPE NUM
%%
prog : prog stmt | stmt ;
stmt : decl ';' | expr ';' ;
decl : spec dtor ;
spec : ID | TYPE ;
dtor : ID | '(' dtor ')' | '*' dtor | dtor '(' ')' ;
expr : ID | NUM | ID '(' expr ')' | expr '*' expr | '(' expr ')' ;
"""
LR2 = """%token A B C D E
%%
s : x C D | y C E | A z ;
x : A B ; y : A B ;
z : | z p | z q D ;
p : B C ; q : B ;
"""
DANGLE = """%token IF THEN ELSE X C
%%
s : IF C THEN s | IF C THEN s ELSE s | X | list ;
list : '[' items ']' | '[' items sep items ']' ;
items : item | items ',' item ; item : X | C ; sep : ',' ;
"""
PALIN = """%token A B
%%
p : A p A | B p B | A | B | A A | B B ;
"""
def fixed():
    return [gram.parse_text(t, n) for n, t in (("decls", DECLS), ("lr2", LR2), ("dangle", DANGLE), ("palin", PALIN))]

def mutated(rng, s):
    """One small change to a grammar."""
    rules = [(l, list(r), p) for l, r, p in s.rules]
    L = s.lhss(); syms = [n for n in s.names()]
    for _ in range(rng.choice([1, 2])):
        k = rng.randrange(len(rules)); l, r, p = rules[k]
        x = rng.random()
        if x < .3 and len(r) > 1: del r[rng.randrange(len(r))]
        elif x < .6: r.insert(rng.randrange(len(r) + 1), rng.choice(syms))
        elif x < .8: rules.insert(rng.randrange(1, len(rules) + 1), (rng.choice(sorted(L)), [rng.choice(syms) for _ in range(rng.randrange(0, 3))], ""))
        else: rng.shuffle(rules); rules.sort(key=lambda q: q[0] != s.start())
    return gram.Src(s.decl, rules, tag=s.tag)

def run(c):
    q = c.quick
    srcs = byjobs.mix(c.rng, 220 if q else 3500, ["expr", "rr", "rand", "tiny", "expr", "null", "layer"])
    base = fixed()
    more = []
    for i in range(90 if q else 1200):
        s = mutated(c.rng, base[i % len(base)])
        if byjobs.ok(s) and not s.cyclic(): more.append(s)
    for i, s in enumerate(srcs):
        if i % 9 == 0: srcs[i] = yrt.with_errors(c.rng, s)
        if c.rng.random() < .6: srcs[i].decl = [(k if k not in ("left", "right", "nonassoc") or c.rng.random() < .5 else "token", v) for k, v in srcs[i].decl]
    allS = [s for s in srcs + more + base * (3 if q else 20) if byjobs.ok(s)]
    for s in allS: c.nontrivial(s.key())
    k = len(allS) * 3 // 4
    c.rng.shuffle(allS)
    jobs = yrt.cases(c.rng, allS[:k], "B", nscripts=14, damage=.45, left=700)
    jobs += yrt.cases(c.rng, allS[k:], "B", nscripts=14, damage=.45, specials=.15, left=700, tag="sp")
    c.conform(jobs, "YaccRunTrace")

"""Source grammars for lemon and their generators."""
import random, re
import gram

PREC = ("left", "right", "nonassoc", "precedence")

class LSrc:
    """decl: list of (kind, args): kind in left/right/nonassoc/precedence/token (token names),
    fallback ([target, t1, ..]), wildcard ([t]), class ([name, t1, ..]), start ([name]);
    rules: list of (lhs, rhs, prec, code): rhs elements are names or 'A|B' multi-terminals."""
    def __init__(self, decl, rules, expect=None, fu=False, fz=False, prefix="", tag=""):
        self.decl = [(k, list(a)) for k, a in decl]
        self.rules = [(l, list(r), p, c) for l, r, p, c in rules]
        self.expect, self.fu, self.fz, self.prefix, self.tag = expect, fu, fz, prefix, tag
        self.zdir = False      # fz asked for by %yacc_prec instead of -z

    def classes(self):
        out = {}
        for k, a in self.decl:
            if k == "class": out[a[0]] = a[1:]
        for _, r, _, _ in self.rules:
            for x in r:
                if "|" in x: out[x] = x.split("|")
        return out

    def mentions(self):
        cls = self.classes()
        for k, a in self.decl:
            if k in PREC:
                if not self.fu: yield from a
            elif k in ("token", "fallback", "wildcard"): yield from a
            elif k == "class": yield from a[1:]
        for l, r, p, _ in self.rules:
            yield l
            for x in r:
                if "|" in x: yield from x.split("|")
                elif x not in cls: yield x
            if p and not self.fu: yield p

    def symbols(self):
        T, N = [], []
        for n in self.mentions():
            S = T if n[0].isupper() else N
            if n not in S: S.append(n)
        return T, N

    def json(self):
        T, N = self.symbols()
        return {"terms": T, "nts": N, "cls": [{"n": n, "m": m, "t": "|".join(m)} for n, m in sorted(self.classes().items())],
                "decl": [{"k": k, "syms": a} for k, a in self.decl if k in PREC],
                "start": self.get("start"), "wildcard": self.get("wildcard"),
                "fallback": [[t, a[0]] for k, a in self.decl if k == "fallback" for t in a[1:]],
                "rules": [{"lhs": l, "rhs": r, "prec": "" if self.fu else p, "code": bool(c)} for l, r, p, c in self.rules],
                "expect": self.expect or 0, "fu": self.fu, "fz": self.fz, "prefix": self.prefix}

    def get(self, kind):
        for k, a in self.decl:
            if k == kind: return a[0]
        return ""

    def goal(self):
        return self.get("start") or self.rules[0][0]

    def lhss(self):
        return {l for l, _, _, _ in self.rules}

    def key(self):
        return repr((self.decl, self.rules, self.expect, self.fu, self.fz, self.prefix))

    def plain(self):
        """The same rules as a gram.Src, multi-terminals expanded (facts for choosing inputs)."""
        cls, rules = self.classes(), []
        for l, r, p, _ in self.rules:
            alts = [[]]
            for x in r:
                alts = [a + [y] for a in alts for y in (cls[x] if x in cls else [x])][:200]
            rules += [(l, a, "") for a in alts]
        return gram.Src([("start", [self.goal()])], rules)

def valid(s):
    L = s.lhss()
    g = s.goal()
    if g not in L: return False
    if any(x == g for _, r, _, _ in s.rules for x in r): return False
    for _, r, _, _ in s.rules:
        for x in r:
            if x[0].islower() and x not in L and x != "error" and x not in s.classes(): return False
    if any(l == "error" for l in L): return False
    T, N = s.symbols()
    if not T: return False
    return True

def from_src(src, rng, p_multi=0.0, p_code=0.5, multi_decl=False):
    """Carry a byacc source grammar over: token names upper-case, goal not on a right-hand side."""
    L = src.lhss()
    tok = {}
    def name(x):
        if x == "error": return "error"
        if x in L:
            if re.fullmatch(r"[a-z]\w*", x): return x
            if x not in tok:
                b = "n" + re.sub(r"\W", "_", x)
                while b in L or b in tok.values(): b += "_"
                tok[x] = b
            return tok[x]
        if x not in tok:
            b = re.sub(r"\W", "", x)
            b = b if b and b[0].isupper() and b not in tok.values() else "T%d" % len(tok)
            while b in tok.values(): b += "_"
            tok[x] = b
        return tok[x]
    decl = []
    for k, a in src.decl:
        if k == "start": continue
        decl.append((k if k in PREC else "token", [name(x) for x in a if x not in L]))
    rules = []
    for l, r, p in src.rules:
        rules.append([name(l), [name(x) for x in r if x != "{}"], name(p) if p and p not in L else "", rng.random() < p_code])
    toks = sorted(b for b in set(tok.values()) if b[0].isupper())
    for r in rules:
        for i, x in enumerate(r[1]):
            if x[0].isupper() and rng.random() < p_multi:
                m = [x]
                for _ in range(rng.choice([1, 1, 1, 2, 2, 2, 3, 5])):
                    y = rng.choice(toks)
                    if y not in m: m.append(y)
                if len(m) > 1: r[1][i] = "|".join(m)
    g = name(src.start())
    goal = g
    if any(x == g for r in rules for x in r[1]):
        goal = "goal"
        rules.insert(rng.choice([0, len(rules)]), [goal, [g], "", rng.random() < p_code])
    if rules[0][0] != goal or rng.random() < .2: decl.insert(rng.randrange(len(decl) + 1), ("start", [goal]))
    s = LSrc(decl, [tuple(r) for r in rules])
    # seldom: name a multi-terminal with %token_class
    cl = [x for _, r, _, _ in s.rules for x in r if "|" in x]
    if cl and rng.random() < .4:
        x = rng.choice(cl)
        s.decl.append(("class", ["cls_a"] + x.split("|")))
        s.rules = [(l, ["cls_a" if y == x else y for y in r], p, c) for l, r, p, c in s.rules]
    return s

def mix(rng, n, kinds, p_err=0.05, p_multi=.0, flags=True, wild=True):
    G = {
        "rand": lambda: gram.gen_random(rng, rng.randrange(1, 7), rng.randrange(1, 7), rng.randrange(2, 16), p_null=.2, p_err=p_err, p_prec=.1),
        "tiny": lambda: gram.gen_random(rng, rng.randrange(1, 4), rng.randrange(1, 3), rng.randrange(1, 7), maxlen=3, p_null=.3, literals=False),
        "null": lambda: gram.gen_random(rng, rng.randrange(3, 8), rng.randrange(2, 5), rng.randrange(5, 16), maxlen=5, p_null=.45),
        "expr": lambda: gram.gen_expr(rng), "rr": lambda: gram.gen_rr(rng), "layer": lambda: gram.gen_layered(rng, rng.randrange(2, 8), rng.randrange(2, 9)),
    }
    out, seen, tries = [], set(), 0
    while len(out) < n and tries < 30 * n:
        tries += 1
        k = kinds[tries % len(kinds)]
        s = from_src(G[k](), rng, p_multi=rng.choice([0, 0, p_multi]))
        s.tag = k
        if flags:
            s.fu = rng.random() < .1; s.fz = rng.random() < .25; s.zdir = rng.random() < .5
            if rng.random() < .2: s.expect = rng.choice([0, 1, 2, 3])
            if rng.random() < .3: s.prefix = rng.choice(["TK_", "P"])
            for i, (d, a) in enumerate(s.decl):
                if d in PREC and rng.random() < .12: s.decl[i] = ("precedence", a)
        if wild: decorate(s, rng)
        if not valid(s) or s.key() in seen: continue
        seen.add(s.key()); out.append(s)
    return out

def decorate(s, rng):
    """Some fallbacks and wildcards."""
    T, _ = s.symbols()
    if len(T) > 2 and rng.random() < .25:
        ts = rng.sample(T, min(len(T), 3))
        s.decl.append(("fallback", ts[:rng.randrange(2, len(ts) + 1)]))
        if len(T) > 4 and rng.random() < .3:
            rest = [t for t in T if t not in ts]
            s.decl.append(("fallback", [rest[0], rest[1]]))
    if len(T) > 2 and rng.random() < .15:
        s.decl.append(("wildcard", [rng.choice(T)]))

def sizes(rng, quick):
    L = [gram.gen_cross(rng, n, m) for n, m in ((29, 30), (31, 40), (62, 80), (94, 100))]
    L += [gram.gen_long(rng, n) for n in (1, 7, 15, 31, 64, 120, 127)]
    if not quick: L += [gram.gen_cross(rng, n, m) for n, m in ((126, 150), (128, 400), (255, 300))]
    out = []
    for s in L:
        t = from_src(s, rng); t.tag = "size"
        if valid(t): out.append(t)
    return out

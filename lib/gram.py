"""Source grammars (tool independent) and their generators."""
import random

def mark(x):
    """an action, or the computation of an inherited attribute "(k)\""""
    return x == "{}" or x[:1] == "("

class Src:
    """decl: list of (kind, [names]); rules: list of (lhs, [names or '{}'], prec or '')"""
    def __init__(self, decl, rules, sr=-1, rr=-1, fu=False, fz=False, fB=False, tag=""):
        self.decl, self.rules = [(k, list(s)) for k, s in decl], [(l, list(r), p) for l, r, p in rules]
        self.sr, self.rr, self.fu, self.fz, self.fB, self.tag = sr, rr, fu, fz, fB, tag

    def names(self):
        seen, out = set(), []
        def add(n):
            if n not in seen and n != "error" and n != "" and not mark(n):
                seen.add(n); out.append(n)
        for k, s in self.decl:
            for n in s: add(n)
        for l, r, p in self.rules:
            add(l)
            for n in r: add(n)
            add(p)
        return out

    def json(self):
        return {"names": self.names(), "decl": [{"k": k, "syms": s} for k, s in self.decl],
                "rules": [{"lhs": l, "rhs": r, "prec": p} for l, r, p in self.rules],
                "fu": self.fu, "fz": self.fz, "fB": self.fB, "sr": self.sr, "rr": self.rr}

    def lhss(self):
        return {l for l, _, _ in self.rules}

    def start(self):
        for k, s in self.decl:
            if k == "start":
                return s[0]
        return self.rules[0][0]

    def key(self):
        return repr((self.decl, self.rules, self.sr, self.rr, self.fu, self.fz, self.fB))

    # -- facts used to choose inputs, never to judge --
    def nullable(self):
        N, ch = set(), True
        while ch:
            ch = False
            for l, r, _ in self.rules:
                if l not in N and all(x in N or mark(x) for x in r):
                    N.add(l); ch = True
        return N

    def productive(self):
        L, P, ch = self.lhss(), set(), True
        while ch:
            ch = False
            for l, r, _ in self.rules:
                if l not in P and all(x in P or x not in L for x in r):
                    P.add(l); ch = True
        return P

    def cyclic(self):
        """nonterminals A with A =>+ A"""
        N, L = self.nullable(), self.lhss()
        unit = {a: set() for a in L}
        for l, r, _ in self.rules:
            r = [x for x in r if not mark(x)]
            for i, x in enumerate(r):
                if x in L and all(y in N for j, y in enumerate(r) if j != i):
                    unit[l].add(x)
        ch = True
        while ch:
            ch = False
            for a in L:
                new = set().union(*[unit[b] for b in unit[a]]) if unit[a] else set()
                if not new <= unit[a]:
                    unit[a] |= new; ch = True
        return {a for a in L if a in unit[a]}

def parse_text(txt, tag=""):
    """Plain yacc-like text without code: decl lines '%left A B', then %%, then rules 'lhs : A B | %prec X C ;'"""
    head, body = txt.split("%%", 1)
    decl, sr, rr = [], -1, -1
    for line in head.strip().split("\n"):
        w = line.split()
        if not w: continue
        if w[0] == "%expect": sr = int(w[1])
        elif w[0] == "%expect-rr": rr = int(w[1])
        else: decl.append((w[0][1:], w[1:]))
    rules, toks, i = [], body.split(), 0
    while i < len(toks):
        lhs = toks[i]; assert toks[i+1] == ":", toks[i:i+5]
        i += 2; rhs, prec = [], ""
        while True:
            t = toks[i] if i < len(toks) else ";"
            if t in ("|", ";"):
                rules.append((lhs, rhs, prec)); rhs, prec = [], ""
                i += 1
                if t == ";": break
            elif t == "%prec": prec = toks[i+1]; i += 2
            else: rhs.append(t); i += 1
    return Src(decl, rules, sr, rr, tag=tag)

PUNCT = ["'+'", "'-'", "'*'", "'/'", "'('", "')'", "'['", "']'", "'='", "'<'", "'>'", "','", "';'", "':'", "'!'", "'?'", "'a'", "'0'", "'\\n'", "'\\''", "'\\\\'"]

def token_names(rng, n, literals=True):
    out = []
    words = ["NUM", "ID", "IF", "ELSE", "FOR", "STR", "BEGIN_", "END", "T_x", "Word", "low", "k.dot", "A1", "PLUS", "x_y"]
    rng.shuffle(words)
    lits = PUNCT[:]; rng.shuffle(lits)
    for i in range(n):
        if literals and lits and rng.random() < 0.35: out.append(lits.pop())
        elif words and rng.random() < 0.7: out.append(words.pop())
        else: out.append("T%d" % i)
    return out

def gen_random(rng, nn, nt, nr, maxlen=4, p_null=0.15, p_err=0.0, p_mid=0.0, p_prec=0.0, literals=True, decls=True):
    nts = ["n%d" % i for i in range(nn)]
    toks = token_names(rng, nt, literals)
    rules = []
    order = list(range(nn)) + [rng.randrange(nn) for _ in range(max(0, nr - nn))]
    if rng.random() < .5: order = sorted(order)
    for k in order:
        n = 0 if rng.random() < p_null else rng.choice([1, 1, 2, 2, 2, 3, 3, maxlen])
        rhs = []
        for _ in range(n):
            x = rng.random()
            if x < p_err: rhs.append("error")
            elif x < 0.5: rhs.append(rng.choice(nts))
            else: rhs.append(rng.choice(toks))
            if rng.random() < p_mid: rhs.append("{}")
        if rng.random() < p_mid: rhs.insert(0, "{}")
        prec = rng.choice(toks) if rng.random() < p_prec else ""
        rules.append((nts[k], rhs, prec))
    decl = []
    if decls:
        rest = toks[:]; rng.shuffle(rest)
        ids = [t for t in rest if not t.startswith("'")]
        decl.append(("token", ids or ["UNUSED"]))
        if rng.random() < 0.6:
            for _ in range(rng.randrange(1, 4)):
                if not rest: break
                take = [rest.pop() for _ in range(min(len(rest), rng.randrange(1, 3)))]
                decl.append((rng.choice(["left", "right", "nonassoc"]), take))
        if rng.random() < 0.3:
            decl.append(("start", [rng.choice(nts)]))
    return Src(decl, rules)

def gen_expr(rng, missing=0.2):
    """An ambiguous operator grammar resolved by precedence declarations."""
    ops = ["'+'", "'-'", "'*'", "'/'", "'='", "'<'", "POW", "AND", "OR", "NOT", "'?'"]
    rng.shuffle(ops)
    ops = ops[:rng.randrange(2, 7)]
    decl = [("token", ["NUM", "UMINUS"])]
    rest = [o for o in ops if rng.random() > missing]
    idtoks = [o for o in ops if o not in rest and not o.startswith("'")]
    if idtoks: decl.append(("token", idtoks))
    if rng.random() < .7: rest.append("UMINUS2")
    rng.shuffle(rest)
    while rest:
        take = [rest.pop() for _ in range(min(len(rest), rng.randrange(1, 3)))]
        decl.append((rng.choice(["left", "left", "right", "nonassoc"]), take))
    have = {n for k, s in decl for n in s}
    if "UMINUS2" not in have: decl.append(("token", ["UMINUS2"]))
    rules = []
    e2 = rng.random() < .3
    for o in ops:
        if o == "NOT": rules.append(("e", [o, "e"], rng.choice(["", "UMINUS2"])))
        elif o == "'?'": rules.append(("e", ["e", "'?'", "e", "':'", "e"], rng.choice(["", "'?'"])))
        else: rules.append(("e", ["e", o, "f" if e2 and rng.random() < .3 else "e"], rng.choice(["", "", "", "UMINUS2", rng.choice(ops)])))
    if rng.random() < .6: rules.append(("e", [rng.choice(ops), "e"], "UMINUS2"))
    if rng.random() < .4: rules.append(("e", ["e", rng.choice(ops)], rng.choice(["", "UMINUS2"])))
    if rng.random() < .3: rules.append(("e", ["e", "e"], rng.choice(["", ops[0]])))
    rules.append(("e", ["'('", "e", "')'"], ""))
    rules.append(("e", ["NUM"], ""))
    if e2: rules.append(("f", ["e"], rng.choice(["", ops[0]])))
    rng.shuffle(rules)
    if rng.random() < .4:
        rules = [("prog", ["prog", "e", "';'"], ""), ("prog", [], "")] + rules
    else:
        decl.append(("start", ["e"]))
    return Src(decl, rules)

def gen_rr(rng):
    """Grammars rich in reduce/reduce conflicts."""
    toks = ["A", "B", "C", "D"]
    decl = [("token", toks)]
    if rng.random() < .8:
        for t in rng.sample(toks, rng.randrange(1, 4)):
            decl.append((rng.choice(["left", "right", "nonassoc"]), [t]))
    nts = ["x", "y", "z"]
    rules = [("s", [rng.choice(nts), rng.choice(toks)], "") for _ in range(rng.randrange(2, 5))]
    if rng.random() < .5: rules.append(("s", [rng.choice(toks), rng.choice(nts), rng.choice(toks)], ""))
    if rng.random() < .4: rules.append(("s", ["A", "s", "s"], ""))
    for n in nts:
        for _ in range(rng.randrange(1, 3)):
            rules.append((n, [rng.choice(toks) for _ in range(rng.randrange(0, 3))], rng.choice(["", "", rng.choice(toks)])))
    if rng.random() < .3: rules.append(("x", ["y"], ""))
    decl.append(("start", ["s"]))
    return Src(decl, rules)

def gen_cross(rng, ntok=31, nstate=40):
    """Sizes near word and table boundaries: many tokens, many states."""
    toks = ["K%d" % i for i in range(ntok)]
    rules, nts = [], ["s", "t", "u", "v"]
    for i, t in enumerate(toks):
        k = i % 4
        if k == 0: rules.append(("s", ["s", t, "t"], ""))
        elif k == 1: rules.append(("t", [t, rng.choice(nts)], ""))
        elif k == 2: rules.append(("u", [t], ""))
        else: rules.append(("v", ["u", t, "v"], ""))
    rules += [("s", ["t"], ""), ("t", ["u"], ""), ("u", [], ""), ("v", [], ""), ("t", ["v", toks[-1]], "")]
    while len(rules) < nstate:
        rules.append((rng.choice(nts), [rng.choice(toks) for _ in range(rng.randrange(1, 5))] + [rng.choice(nts)], ""))
    return Src([("token", toks), ("start", ["s"])], rules)

def gen_long(rng, n):
    """One very long right-hand side plus nullable suffixes."""
    rhs = []
    for i in range(n):
        rhs.append(rng.choice(["A", "o", "o", "p"]) if i else "A")
    return Src([("token", ["A", "B"]), ("start", ["s"])],
               [("s", rhs, ""), ("o", [], ""), ("o", ["B"], ""), ("p", ["o"], ""), ("s", ["A", "s", "B"], "")])

LAYER_WORDS = ["expr", "term", "fact", "prim", "unary", "shift", "rel", "eq", "band", "bor"]
def gen_layered(rng, depth=6, stm=6):
    """Realistic layered language: statements, expressions, lists, optional parts."""
    ops = iter(["'='", "'|'", "'&'", "'<'", "'>'", "'+'", "'-'", "'*'", "'/'", "'%'", "POW", "SHL", "SHR", "EQ", "NE", "LE", "GE", "ANDAND", "OROR"])
    rules = [("prog", ["items"], ""), ("items", [], ""), ("items", ["items", "item"], "")]
    kws = ["IF", "WHILE", "FOR", "DO", "RETURN", "GOTO", "BREAK", "CASE", "SWITCH", "TYPE", "VAR", "FUNC"]
    l0 = "e0"
    forms = [["IF", "'('", "e0", "')'", "item"], ["IF", "'('", "e0", "')'", "item", "ELSE", "item"],
             ["WHILE", "'('", "e0", "')'", "item"], ["FOR", "'('", "opt", "';'", "opt", "';'", "opt", "')'", "item"],
             ["'{'", "items", "'}'"], ["e0", "';'"], ["RETURN", "opt", "';'"], ["DO", "item", "WHILE", "'('", "e0", "')'", "';'"],
             ["VAR", "vars", "';'"], ["FUNC", "ID", "'('", "parms", "')'", "item"], ["error", "';'"], ["';'"], ["ID", "':'", "item"],
             ["SWITCH", "'('", "e0", "')'", "'{'", "cases", "'}'"]]
    picked = rng.sample(forms, min(stm, len(forms)))
    if ["e0", "';'"] not in picked: picked.append(["e0", "';'"])
    for f in picked: rules.append(("item", f, ""))
    used = {x for f in picked for x in f}
    if "opt" in used: rules += [("opt", [], ""), ("opt", ["e0"], "")]
    if "vars" in used: rules += [("vars", ["var"], ""), ("vars", ["vars", "','", "var"], ""), ("var", ["ID"], ""), ("var", ["ID", "'='", "e0"], "")]
    if "parms" in used: rules += [("parms", [], ""), ("parms", ["plist"], ""), ("plist", ["ID"], ""), ("plist", ["plist", "','", "ID"], "")]
    if "cases" in used: rules += [("cases", [], ""), ("cases", ["cases", "CASE", "e0", "':'", "items"], "")]
    for d in range(depth):
        me, nx = "e%d" % d, "e%d" % (d + 1)
        for _ in range(rng.randrange(1, 3)):
            try: o = next(ops)
            except StopIteration: break
            rules.append((me, [me, o, nx] if rng.random() < .7 else [nx, o, me], ""))
        rules.append((me, [nx], ""))
    p = "e%d" % depth
    rules += [(p, ["ID"], ""), (p, ["NUM"], ""), (p, ["'('", "e0", "')'"], ""), (p, [p, "'['", "e0", "']'"], ""),
              (p, [p, "'('", "args", "')'"], ""), ("args", [], ""), ("args", ["alist"], ""), ("alist", ["e0"], ""), ("alist", ["alist", "','", "e0"], ""),
              (p, [p, "'.'", "ID"], ""), (p, ["'-'", p], ""), (p, ["'!'", p], "")]
    toks = []
    L = {l for l, _, _ in rules}
    for l, r, _ in rules:
        for x in r:
            if x not in L and not x.startswith("'") and x not in toks and x != "error": toks.append(x)
    rng.shuffle(toks)
    s = Src([("token", toks)], rules)
    if rng.random() < .5 and "ELSE" in toks:
        s.decl.append(("nonassoc", ["LOWEST"])); s.decl.append(("nonassoc", ["ELSE"]))
        s.rules = [(l, r, "LOWEST" if r == forms[0] else p) for l, r, p in s.rules]
    return s

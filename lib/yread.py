"""C07: input files for byacc's reader, and what byacc makes of them (no judging here)."""
import os, re, shutil, tempfile
import build, byacc, gram, harness

ESC = {"n": 10, "t": 9, "a": 7, "b": 8, "f": 12, "r": 13, "v": 11}
BACK = {v: k for k, v in ESC.items()}

def codes(name):
    """character codes of a canonical quoted name"""
    s, out, i = name[1:-1], [], 0
    while i < len(s):
        if s[i] != "\\": out.append(ord(s[i])); i += 1
        elif s[i+1] in ESC: out.append(ESC[s[i+1]]); i += 2
        elif re.match(r"[0-7]{3}", s[i+1:]): out.append(int(s[i+1:i+4], 8)); i += 4
        elif s[i+1].isdigit(): out.append(int(s[i+1])); i += 2
        else: out.append(ord(s[i+1])); i += 2
    return out

def spell(rng, name):
    """one of the many spellings of a symbol"""
    if name[0] not in "'\"": return name
    q = rng.choice("'\"")
    o = []
    cs = codes(name)
    for k, c in enumerate(cs):
        last = k == len(cs) - 1
        nxt = cs[k+1] if not last else 0
        w = rng.random()
        if w < .12 and not (chr(nxt) in "01234567"): o.append("\\%o" % c)
        elif w < .2 : o.append("\\%03o" % c)
        elif w < .3 and not (nxt and chr(nxt) in "0123456789abcdefABCDEF"): o.append("\\x%02X" % c if w < .25 else "\\x%x" % c)
        elif c in BACK: o.append("\\" + BACK[c])
        elif chr(c) in "\\" or chr(c) == q: o.append("\\" + chr(c))
        elif c < 32 or c > 126: o.append("\\%03o" % c)
        elif w < .36 and not chr(c).isalnum(): o.append("\\" + chr(c))
        else: o.append(chr(c))
        if rng.random() < .03: o.append("\\\n")
    return q + "".join(o) + q

COMMENTS = ["/* c */", "/* a : b | 'c' ; %% { */", "/**/", "/* \" ' */", "/***/", "/*\n x\n*/", "// c : d ;\n", "//\n", "/* // */", "// /* \n", "/*/ x /*/"]
def gap(rng, need=True):
    x = rng.random()
    if x < .55: return " "
    if x < .63: return "\n"
    if x < .70: return rng.choice(["\t", "  ", " \n ", "\r\n", "\f", " \v"])
    if x < .76: return rng.choice([",", ", ", " ,", ";", " ; "])
    if x < .86: return " " + rng.choice(COMMENTS) + rng.choice(["", " "])
    if x < .88: return rng.choice(COMMENTS)
    return " " if need else ""

def joins(a, b):
    """do the texts a and b need a gap between them?"""
    w = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_.$"
    return a[-1:] in w and b[:1] in w and a[-1:] != ""

def seq(rng, items):
    out = ""
    for x in items:
        if not x: continue
        if out: out += gap(rng, joins(out, x))
        out += x
    return out

def keyword(rng, k):
    alt = {"token": ["%token", "%term", "%0", "%TOKEN", "\\token"], "left": ["%left", "%<", "%Left"], "right": ["%right", "%>"],
           "nonassoc": ["%nonassoc", "%2", "%binary"], "precedence": ["%precedence"], "type": ["%type", "%nterm"], "start": ["%start"]}
    return rng.choice(alt[k] + [alt[k][0]] * 3)

CODE = ["int x;", "char *s = \"}\\\"{\";", "x = '}';", "/* } */ y();", "// }\n z();", "if (a) { b(); { c(); } }", "a / b;", "s = \"a\\\\\";", "t = '\\'';", "f(\"/*\");", "q ? 1 : 2;", "m = a | b;", "\n", "u % v;", "x = \"\\\n\";"]
def action(rng, typed, n, ltag, rtags, B):
    o = []
    for _ in range(rng.randrange(0, 4)):
        o.append(rng.choice(CODE))
    if rng.random() < .5 and (not typed or ltag):
        o.append("$$ = %s;" % ("$%d" % rng.randrange(1, n + 1) if n and (not typed or all(rtags)) else "0"))
    if n and rng.random() < .3 and (not typed or all(rtags)): o.append("g($%d, $%d);" % (rng.randrange(1, n + 1), n))
    if rng.random() < .1: o.append("h(@%d);" % rng.randrange(0, n + 1))
    if not typed and rng.random() < .1: o.append("p($-%d, $0);" % rng.randrange(0, 3))
    if typed and rng.random() < .2: o.append("$<ival>$ = $<ival>%s;" % rng.choice(["0", "1", "-1", "$"]))
    rng.shuffle(o)
    body = " ".join(o)
    x = rng.random()
    if B and x < .25:
        body = body.replace("[", "(").replace("]", ")")
        return "[ %s ]" % body + (gap(rng, False) + "{ e(); }" if rng.random() < .3 and "$$" not in body else "")
    if x < .1: return "= { %s }" % body
    if x < .15: return "= k = 1;"
    if x < .2: return "={%s}" % body
    return "{ %s }" % body

def layout(rng, src):
    """A file in a random form made from a source grammar."""
    typed = rng.random() < .25
    tags = {}
    decl, nts = [], [n for n in src.names() if n in src.lhss()]
    toks = [n for n in src.names() if n not in src.lhss()]
    if typed:
        for n in nts + toks: tags[n] = rng.choice(["ival", "ival", "ival", "str"]) if rng.random() < .9 else ""
    used = set()
    def names(l):
        out = []
        for n in l:
            out.append(spell(rng, n))
            if rng.random() < .15 and n[0] not in "'\"":
                v = rng.choice([rng.randrange(257, 275), rng.randrange(1000, 1300), 32767, rng.randrange(300, 400)])
                if v not in used: used.add(v); out.append(str(v))
        return out
    def tagged(k, l):
        g = {}
        for n in l: g.setdefault(tags.get(n, "") if rng.random() < .9 else "", []).append(n)
        if k != "token" and len(g) > 1: g = {"": l}
        return [seq(rng, [keyword(rng, k), ("<%s>" % t if rng.random() < .9 else "< %s >" % t) if t else ""] + names(v)) for t, v in g.items()]
    for k, l in src.decl:
        if k == "start": decl.append(seq(rng, [keyword(rng, k), l[0]])); continue
        if k == "token" and rng.random() < .3:      # split over several declarations
            for n in l: decl += tagged(k, [n])
        else: decl += tagged(k, l)
    if typed:
        for n in nts:
            if tags[n]: decl.insert(rng.randrange(len(decl) + 1), seq(rng, [keyword(rng, "type"), "<%s>" % tags[n], n]))
        seen = {n for k, l in src.decl for n in l}
        for n in toks:
            if tags[n] and n not in seen: decl.append(seq(rng, ["%token", "<%s>" % tags[n], spell(rng, n)]))
    ident = [t for t in toks if t[0] not in "'\""]
    if rng.random() < .1 and toks: decl.append(seq(rng, [keyword(rng, rng.choice(["left", "right", "nonassoc", "precedence"])), spell(rng, rng.choice(toks))]))
    if rng.random() < .05: decl.append(rng.choice(["%left", "%right", "%token"]))
    if rng.random() < .05: decl.append("%start " + rng.choice([n for n in nts if n not in src.cyclic()] or [src.start()]))
    if src.sr >= 0: decl.append("%%expect %d" % src.sr)
    if src.rr >= 0: decl.append(rng.choice(["%expect-rr ", "%expect_rr\t"]) + str(src.rr))
    extra = ["%debug", "%yacc", "%locations", "%token-table", "%error_verbose", "%pure-parser", "%define api.pure\n", "%define api.pure full\n", "%ident \"x y\"", "%code { int c; }\n", "%code top {\n#include <x.h>\n}",
             "%code requires { struct s { int a; }; }", "%initial-action { @$ = 1; }", "%destructor { free($$); /* } */ } <>", "%destructor { f($$); } <*>", "%parse-param { int x }\n", "%lex-param {char *p}\n",
             "%parse-param {int u} {char *v}\n", "%{ int k; %}", "%{\nchar *q = \"%}\"; /* %} */ // %}\n#define A 'b'\n%}", "%{\n%}", "%{ % } %} ", "%{\nx \\}", "%error-verbose", "%define api.pure // reentrant\n", "%code{ int y; }"]
    for _ in range(rng.choice([0, 0, 1, 2, 3])):
        decl.insert(rng.randrange(len(decl) + 1), rng.choice(extra))
    if rng.random() < .08:      # one code for several tokens
        v = rng.choice([257, 257, 258, 259])
        decl.insert(rng.randrange(len(decl) + 1), "%%token q1 %d q2 %d" % (v, v) + rng.choice([" q3 %d" % (v + 1), " q3 %d q4 %d" % (v + 1, v + 1), " q3 %d" % v, ""]))
    if typed or rng.random() < .1: decl.insert(rng.randrange(len(decl) + 1) if not typed else 0, rng.choice(["%union { int ival; char *str; }", "%union\n{\n int ival; /* } */ struct { int z; } str;\n}", "%union YYVAL { int ival, str; }"]))
    if not typed: rng.random() < .3 and len(decl) > 1 and all("start" not in d for d in decl) and rng.shuffle(decl)
    out = ""
    for d in decl:
        if rng.random() < .06: out += "\n#line %d \"other.y\"\n" % rng.randrange(1, 99)
        out += d + ("\n" if rng.random() < .8 else gap(rng, True) + (" " if d[-1:].isalnum() else ""))
        if d.startswith("%expect") or d.startswith("%start"): out += "\n"
    out += rng.choice(["%%", "%%", "%%\n", "\\\\", "%\\"]) + gap(rng, False)
    if rng.random() < .06: out += rng.choice(["%{ int late; %}\n", "%start " + rng.choice([n for n in nts if n not in src.cyclic()] or [src.start()]) + "\n", "%code { int z; }\n"])
    i, R = 0, src.rules
    first = True
    while i < len(R):
        l = R[i][0]
        items = [l, ":"]
        while True:
            _, r, p = R[i]
            n, rt = 0, []
            parts = []
            for x in r:
                if x == "{}": parts.append(action(rng, typed, n, tags.get(l, ""), rt, src.fB)); n += 1; rt.append(tags.get(l, ""))
                else: parts.append(spell(rng, x)); n += 1; rt.append(tags.get(x, ""))
            if p:
                pp = rng.choice(["%prec", "%prec", "%PREC", "%="]) + gap(rng, True) + spell(rng, p)
                if not (r and r[-1] == "{}"): parts.insert(rng.choice([len(parts)] * (0 if src.tag == "precmid" else 3) + [rng.randrange(len(parts) + 1)]), pp)
                else: parts.append(pp)
            if not r and rng.random() < .4: parts.append(rng.choice(["%empty", "%empty", "%Empty"]))
            if not (r and r[-1] == "{}") and rng.random() < .4: parts.append(action(rng, typed, n, tags.get(l, ""), rt, src.fB))
            items += parts
            i += 1
            if i < len(R) and R[i][0] == l and rng.random() < .75: items.append("|"); continue
            break
        if rng.random() < .75: items.append(";")
        out += seq(rng, items)
        if rng.random() < .05: out += "\n#line 7 \"x.y\"\n"
        out += rng.choice(["\n", "\n", "\n\n", " ", ";\n"]) if i < len(R) else rng.choice(["\n", "\n", ""])
    x = rng.random()
    if x < .5: out += "%%" + rng.choice(["\n", "", "\nint main() { return 0; } ' unbalanced {\n", " trailing : rules ;"])
    return out

STRINGS = ['"=="', '"<="', '"a b"', '"if"', "'\\000'", '"x\\\\y"', "'\\200'", "'\\\"'", "'\"'", '"\\""', "'\\001'", '"\'\'"', '""', '"%%"', '"/*"', "'/'", "'%'", "'{'", "'\\033'"]
def precmid(rng):
    """Operators whose rules have a %prec somewhere and actions after it."""
    ops = rng.sample(["'+'", "'*'", "'-'", "OR", "AND"], rng.choice([2, 3]))
    ps = rng.sample(["P1", "P2", "P3"], rng.choice([1, 2]))
    decl, l = [], ops + ps
    rng.shuffle(l)
    while l:
        k = rng.choice([1, 1, 2, 3])
        decl.append((rng.choice(["left", "right", "nonassoc"]), l[:k])); l = l[k:]
    rules = []
    for o in ops:
        r = ["e", o, "e"]
        for _ in range(rng.choice([1, 1, 2])): r.insert(rng.choice([2, 2, len(r)]), "{}")
        r = [x for i, x in enumerate(r) if x != "{}" or i + 1 == len(r) or r[i + 1] != "{}"]
        rules.append(("e", r, rng.choice(ps + ops) if rng.random() < .7 else ""))
    if rng.random() < .6: rules.append(("e", [rng.choice(ops), "{}", "e"], rng.choice(ps)))
    rules.append(("e", ["N"], ""))
    return gram.Src(decl, rules, -1, -1, False, rng.random() < .3, False, "precmid")

def enrich(rng, s):
    """Some tokens become strings and odd characters."""
    names = [n for n in s.names() if n not in s.lhss()]
    pool = [x for x in STRINGS if x != "'\\000'"]; rng.shuffle(pool)
    m = {n: pool.pop() for n in names if rng.random() < .2 and pool}
    f = lambda n: m.get(n, n)
    return gram.Src([(k, [f(n) for n in l]) for k, l in s.decl], [(l, [f(n) for n in r], f(p)) for l, r, p in s.rules], s.sr, s.rr, s.fu, s.fz, s.fB, s.tag)

TOK = re.compile(r"/\*.*?\*/|//[^\n]*\n|'(?:\\.|[^'\\\n])*'|\"(?:\\.|[^\"\\\n])*\"|%\w+|%[{}%<>=]|[\w.$]+|\s+|.", re.S)
PIECES = ["%", "%%", "%{", "%}", "{", "}", "[", "]", "(", ")", "'", "\"", "\\", "\n", ":", "|", ";", ",", "<", ">", "<t>", "=", "/*", "*/", "//", "$$", "$1", "$9", "$<t>$", "$<t>1", "$-1", "$", "@$", "@1", "#", "#line 3 \"z\"\n", "#line 3\n",
          "%token ", "%left ", "%type ", "%start ", "%prec ", "%empty", "%union", "%expect 1\n", "%bogus", "%destructor {} ", "%code {", "%ident", "error", "$end", "$accept", "$$1", ".", "$$x", "0", "300", "99999999999", "\0", "\x80", "\xff", "\\x", "'\\400'",
          "'\\xfff'", "''", "\"\"", "'ab", "%2 ", "%0", "%<", "%=", "%define api.pure x\n", "%parse-param", "%expect\n", "%expect x\n", "&", "^", "`", "~", "?", "+", "-"]
def mutate(rng, t):
    for _ in range(rng.choice([1, 1, 1, 2, 3])):
        x = rng.random()
        if x < .2:
            i = rng.randrange(len(t) + 1); t = t[:i] + rng.choice(PIECES) + t[i:]
        elif x < .3 and t:
            i = rng.randrange(len(t)); t = t[:i] + t[i + rng.choice([1, 1, 2, 5]):]
        elif x < .4 and t: t = t[:rng.randrange(len(t))]
        elif x < .45 and t:
            i = rng.randrange(len(t)); t = t[:i] + rng.choice("'\"{}%:;|<>\\\n/*$@=.[]()\x00\xff#0aA ") + t[i+1:]
        else:
            w = TOK.findall(t)
            if not w: continue
            i = rng.randrange(len(w))
            y = rng.random()
            if y < .3: del w[i]
            elif y < .5: w.insert(i, rng.choice(PIECES))
            elif y < .6: w[i] = rng.choice(PIECES)
            elif y < .7: w.insert(i, w[rng.randrange(len(w))])
            elif y < .8:
                j = rng.randrange(len(w)); w[i], w[j] = w[j], w[i]
            elif y < .9:
                j = min(len(w), i + rng.randrange(1, 8)); w[i:j] = []
            else:
                j = min(len(w), i + rng.randrange(1, 8)); w[i:i] = w[i:j]
            t = "".join(w)
    return t

def job(jid, text, fu=False, fz=False, fB=False, whole=False, variant="bt", known=None, extra=()):
    raw = [ord(c) for c in text]
    assert all(0 <= c < 256 for c in raw)
    def observe():
        exe = build.byacc(variant)
        d = tempfile.mkdtemp(dir=build.scratch())
        try:
            with open(d + "/g.y", "wb") as f: f.write(bytes(raw))
            args = ["-v", "-b", "g"] + (["-u"] if fu else []) + (["-z"] if fz else []) + (["-B"] if fB else []) + list(extra) + ["g.y"]
            rc, out, err = byacc.run(exe, args, d, timeout=30)
            c = {"exit": rc if isinstance(rc, int) else -99, "accepted": False, "complains": bool(re.search(r": (e|f) - ", err)), "stderr": err[-1500:]}
            op = d + "/g.output"
            if c["exit"] in (0, 1) and os.path.exists(op) and os.path.getsize(op):
                o = {"exit": rc, "msg": byacc.messages("\n".join(l for l in err.split("\n") if ": w - " not in l))}
                o.update(byacc.parse_output(open(op, errors="replace").read()))
                o["tab"] = byacc.parse_tables(open(d + "/g.tab.c", errors="replace").read())
                if variant != "bt":
                    byacc.run(build.byacc("bt"), args, d, timeout=30)
                    o["symvals"] = byacc.parse_output(open(op, errors="replace").read())["symvals"]
                o["tokval"] = o["symvals"]
                c.update(accepted=True, obs=o)
            return c
        finally:
            shutil.rmtree(d, ignore_errors=True)
    return harness.Job(jid, "ByaccReaderTrace", observe, {"text": raw, "fu": fu, "fz": fz, "fB": fB, "whole": whole, "input": text[:400]}, known)

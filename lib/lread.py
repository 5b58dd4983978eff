"""C16: input files for lemon's reader, and what lemon makes of them (no judging here)."""
import os, re, shutil, tempfile
import build, harness, lemon, lgram

COMMENTS = ["/* c */", "/* a ::= B. [C] { */", "/**/", "/* \" ' */", "/***/", "/*\n x\n*/", "// c ::= D.\n", "//\n", "/* // */", "// /* \n", "/*/ x /*/", "/* } */"]
def gap(rng, need):
    x = rng.random()
    if x < .6: return " "
    if x < .72: return rng.choice(["\n", "\n", "\n\n", "\t", "  ", " \n ", "\r\n", "\f"])
    if x < .84: return " " + rng.choice(COMMENTS) + rng.choice(["", " "])
    if x < .88: return rng.choice(COMMENTS)
    return " " if need else ""

W = set("abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_")
def join(rng, toks, o=""):
    for t in toks:
        if o: o += gap(rng, o[-1] in W and t[0] in W or o[-1] in "|/" or t[0] in "/|" and o[-1] in "/|")
        o += t
    return o

BODIES = ["", " ", "x = 1;", " { y(); } ", "/* } */", "// }\n", "s(\"}\");", "c('}');", "'\\''", "\"\\\"}\"", "{{}{}}", "a\nb", "\"\\\\\"", "/**/", "/*/}*/", "#line 3\n", "'\"'", "x/y", "\xe9"]
def body(rng): return "".join(rng.choice(BODIES) for _ in range(rng.choice([0, 1, 1, 2])))

def multi(rng, x):
    m = x.split("|"); o = [m[0]]
    for y in m[1:]: o.append(rng.choice(["|", "|", "/"]) + y)
    return o

def label_code(rng, r, la, al):
    """code that uses the labels (now and then it does not)"""
    use = [x for x in [la] + al if x]
    rng.shuffle(use)
    o = ""
    for x in use:
        if rng.random() < .96: o += rng.choice(["%s", "f(%s);", " %s = 0;", "@%s ", "(%s->next)", "y.%s", "/* %s */", "\"%s\"", "%s_ %s", "%s"]).replace("%s", x) + rng.choice([" ", ";", "+"])
        if rng.random() < .15: o += rng.choice([x + "z", "_" + x, "9" + x, x + "1"]) + " "
    if la and al and al[0] and al[0] != la and rng.random() < .4:
        i = rng.randrange(len(o) + 1)
        if rng.random() < .7: i = len(o)
        c = "/*%s-overwrites-%s*/" % (la, al[0])
        if rng.random() < .1: c = rng.choice(["/*%s-overwrites-%s */" % (la, al[0]), "/*%s-overwrites-%s*/" % (al[0], la), c + c])
        o = o[:i] + c + o[i:]
    return o + body(rng)

def statements(rng, s):
    """the declarations and rules as token lists"""
    D, R = [], []
    if s.prefix:
        k = rng.randrange(1, len(s.prefix)) if len(s.prefix) > 1 and rng.random() < .3 else len(s.prefix)
        for x in (s.prefix[:k], s.prefix[k:]):
            if x: D.append(["%", "token_prefix", rng.choice([x, "{%s}" % x, '"%s"' % x] if x[0] != "_" else ["{%s}" % x, '"%s"' % x])])
    if s.expect is not None:
        x = rng.choice(["", "0", "00"]) + str(s.expect)
        D.append(["%", "expect", rng.choice([x, "{%s}" % x, '"%s"' % x])])
    if s.fz and s.zdir: D.append(["%", "yacc_prec"])
    for k, a in s.decl:
        if k == "start": D.append(["%", "start_symbol", rng.choice([a[0], "{%s}" % a[0], '"%s"' % a[0]])])
        elif k == "class":
            m = [a[1]]
            for y in a[2:]: m.append(rng.choice(["|", "/", ""]) + y)
            D.append(["%", "token_class", a[0]] + m + ["."])
        elif k == "token" and len(a) > 1 and rng.random() < .3:
            i = rng.randrange(1, len(a))
            D.append(["%", "token"] + a[:i] + ["."]); D.append(["%", "token"] + a[i:] + ["."])
        else: D.append(["%", k] + a + ["."])
    lab = ["A", "B", "a", "x1", "Lab_el", "X", "Z9", "overwrites"]
    for l, r, p, c in s.rules:
        la = rng.choice(lab) if c and rng.random() < .4 else ""
        al = [rng.choice(lab) if c and rng.random() < .3 else "" for _ in r]
        if rng.random() < .85:      # mostly distinct
            seen = {la}
            for j, x in enumerate(al):
                if x in seen and not (j == 0 and rng.random() < .7): al[j] = ""
                seen.add(x)
        t = [l] + (["(", la, ")"] if la else []) + ["::="]
        for x, y in zip(r, al):
            t += multi(rng, x) if "|" in x else [x]
            if y: t += ["(", y, ")"]
        t.append(".")
        tail = []
        if c: tail.append(["{" + (label_code(rng, r, la, al) if la or any(al) else body(rng)) + "}"])
        if p: tail.append(["[", p, "]"])
        rng.shuffle(tail)
        R.append(t + [y for x in tail for y in x])
    return D, R

EXTRA = ["include", "code", "token_destructor", "default_destructor", "syntax_error", "parse_accept", "parse_failure", "stack_overflow"]
def layout(rng, s):
    D, R = statements(rng, s)
    T, N = s.symbols()
    for _ in range(rng.choice([0, 0, 1, 2, 3])):
        x = rng.random()
        if x < .3: e = ["%", rng.choice(EXTRA), "{" + body(rng) + "}"]
        elif x < .4: e = ["%", "name", rng.choice(["P", "{Q_}", '"r9"'])]
        elif x < .5: e = ["%", "stack_size", rng.choice(["50", "{0}", '"100"'])]
        elif x < .6: e = ["%", rng.choice(["extra_argument", "extra_context"]), rng.choice(["{int *p}", "{ struct s *q }"])]
        elif x < .7: e = ["%", rng.choice(["token_type", "default_type"]), rng.choice(["{int}", "int", '"char*"'])]
        elif x < .85: e = ["%", "destructor", rng.choice(T + N + list(s.classes())[:0]), "{" + body(rng) + "}"]
        else: e = ["%", "type", rng.choice(N), rng.choice(["{int}", "long", '"char*"'])]
        # symbols are numbered by first mention: a declaration at the end mentions nothing new
        if e[1] == "type" and any(q[1:3] == e[1:3] for q in D): continue
        D.append(e)
    # declarations and rules may come in any order, but their own orders matter
    out = []
    items = [(D.pop(0), "d") for _ in range(len(D))]
    items += [(r, "r") for r in R]
    if rng.random() < .3:
        d = [x for x in items if x[1] == "d"]; r = [x for x in items if x[1] == "r"]; items = []
        while d or r:
            q = d if d and (not r or rng.random() < len(d) / (len(d) + len(r))) else r
            items.append(q.pop(0))
    text = rng.choice(["", "", "\n", "// head\n", "/* head */", " "])
    for t, _ in items:
        if text: text += "\n" if rng.random() < .7 else gap(rng, text[-1] in W)
        x = join(rng, t)
        if x.startswith("%") and re.match(r"% *\s*(if|else|endif)", x): x = " " + x
        if rng.random() < .05: x = "\n%ifdef NO\n" + rng.choice(["a ::= B.", "%left A.", "{ x }", ""]) + "\n%endif\n" + x
        elif rng.random() < .03: x = "\n%ifndef NO\n" + x + "\n%else\nz ::= Z.\n%endif\n"
        text += x
    return text + rng.choice(["", "\n", " ", "\n// end", "\n/* end */\n"])

PIECES = ["::=", ":", ".", "%", "|", "/", "(", ")", "[", "]", "{", "}", "{}", "\"", "'", "a", "B", "|C", "/D", "|e", " ", "\n", "//", "/*", "*/", "%left", "%right", "%token", "%token_class", "%type", "%fallback",
          "%wildcard", "%start_symbol", "%expect", "%destructor", "%name", "%yacc_prec", "%nonsense", "%nonassoc", "%precedence", "%include", "%token_prefix", "error", "1", "9z", "a ::= .", "a ::= b.", "B ::= .", "[C]", "(x)", "{ x }", "%left A A.", "%wildcard W.", "%fallback A B. %fallback C B.",
          "%type a {x} %type a {y}", "%token_class k A|B.", "%token_class K A.", "%token_class k .", "k", "\n%ifdef X\n", "\n%endif\n", "\n%else\n", "%if A\n", "$", "\x80", "\xff", "_", "a(x) ::= B(x).", "A|B|C", "a|B", "B|a", "%expect 1", "%start_symbol zz", "%start_symbol A", "%token_prefix \"a b\""]
TOK = re.compile(r"[A-Za-z0-9_]+|\s+|::=|/\*.*?\*/|//[^\n]*|.", re.S)
def mutate(rng, t):
    for _ in range(rng.choice([1, 1, 1, 2, 3])):
        x = rng.random()
        if x < .2: i = rng.randrange(len(t) + 1); t = t[:i] + rng.choice(PIECES) + t[i:]
        elif x < .3 and t: i = rng.randrange(len(t)); t = t[:i] + t[i + rng.choice([1, 1, 2, 5]):]
        elif x < .4 and t: t = t[:rng.randrange(len(t))]
        elif x < .45 and t: i = rng.randrange(len(t)); t = t[:i] + rng.choice("'\"{}%:|\\\n/*.[]()#0aA_ ") + t[i+1:]
        else:
            w = TOK.findall(t)
            if not w: continue
            i = rng.randrange(len(w)); y = rng.random()
            if y < .3: del w[i]
            elif y < .5: w.insert(i, rng.choice(PIECES))
            elif y < .6: w[i] = rng.choice(PIECES)
            elif y < .7: w.insert(i, w[rng.randrange(len(w))])
            elif y < .8: j = rng.randrange(len(w)); w[i], w[j] = w[j], w[i]
            elif y < .9: j = min(len(w), i + rng.randrange(1, 8)); w[i:j] = []
            else: j = min(len(w), i + rng.randrange(1, 8)); w[i:i] = w[i:j]
            t = "".join(w)
    return t

def job(jid, text, fu=False, fz=False, whole=False, known=None):
    raw = [ord(c) for c in text]
    assert all(0 < c < 256 for c in raw)
    class S: pass
    S.fu, S.fz, S.zdir = fu, fz, False
    def observe():
        exe = build.lemon()
        d = tempfile.mkdtemp(dir=build.scratch())
        try:
            with open(d + "/g.yl", "wb") as f: f.write(bytes(raw))
            args = ["-T" + build.TEMPLATE, "-s"] + (["-u"] if fu else []) + (["-z"] if fz else [])
            rc, out, err = lemon.run(exe, args + ["-c", "-p", "g.yl"], d, timeout=30)
            c = {"exit": rc if isinstance(rc, int) else -99, "produced": False, "complains": bool(err.strip()), "stderr": err[-1500:]}
            lab, oth = [], []
            for l in err.split("\n"):
                m = re.match(r"g\.yl:(\d+): (.*)$", l)
                if not m: continue
                if re.search(r"is never used|has the same label|used for multiple symbols|share the same label|^Label .* used after", m.group(2)): lab.append(int(m.group(1)))
                elif "can not be reduced" not in m.group(2): oth.append(int(m.group(1)))
            c["labels"], c["lines"] = lab, oth
            if c["exit"] in (0, 1) and os.path.exists(d + "/g.out"):
                c["produced"] = True
                try:
                    if whole: o = lemon.observe(exe, S, d, text=text.encode("latin1").decode("latin1"))
                    else:
                        p = lemon.parse_out(open(d + "/g.out", errors="replace").read())
                        o = {"symbols": p["symbols"], "rules": p["rules"], "header": lemon.header(open(d + "/g.h", errors="replace").read()) or []}
                except (OSError, IndexError, ValueError, AssertionError) as e: o = {"broken": "%s: %s %s" % (type(e).__name__, e, err[-300:])}
                if "broken" in o: c["bad"] = o["broken"]; c["produced"] = False
                else: c["obs"] = o
            return c
        finally:
            shutil.rmtree(d, ignore_errors=True)
    return harness.Job(jid, "LemonReaderTrace", observe, {"text": raw, "fu": fu, "fz": fz, "whole": whole, "input": text[:600]}, known)

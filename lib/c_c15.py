"""C15: lemon's conditional preprocessing keeps exactly the selected lines."""
import itertools, os, re, shutil, tempfile
import build, harness

RULE = "a case is one file with nested directives and one set of -D macros given to the real lemon -E; TLC runs the line machine of LemonPre over the text and the printed text (or the refusal and its line) must agree; distinct by text and macros"
NAMES = ["A", "B", "C", "AB", "a", "A1", "ab_c", "Z"]

def expr(rng, d=0):
    x = rng.random()
    if d > 3 or x < .4: return rng.choice(NAMES)
    sp = lambda: rng.choice(["", " ", " ", "  ", "\t"])
    if x < .52: return "!" + sp() + expr(rng, d + 1)
    if x < .64: return "(" + sp() + expr(rng, d + 1) + sp() + ")"
    return expr(rng, d + 1) + sp() + rng.choice(["&&", "||"]) + sp() + expr(rng, d + 1)

PIECES = ["&&", "||", "!", "(", ")", "&", "|", "A", " A", "1", "_x", "=", "//", "\"", "A B", "!!", "()", "( )", "A&&", "||B"]
def spoil(rng, e):
    for _ in range(rng.choice([1, 1, 2])):
        x = rng.random(); i = rng.randrange(len(e) + 1)
        if x < .5: e = e[:i] + rng.choice(PIECES) + e[i:]
        elif x < .8 and e: e = e[:i] + e[i+1:]
        else: e = e[:i]
    return e

def body(rng, n, d, o, ill):
    for _ in range(n):
        x = rng.random()
        if x < .4 or d > 5:
            o.append(rng.choice(["", " ", "text", "s ::= A.", "%token X.", " %ifdef A", "a %endif", "%endifx", "%elsewhere", "%ifx", "%ifdef", "%if", "%ifdefA", "%ifndefA b", "%", "%%", "\t%else", "{ code }", "x\ty", "%iff A", "trailing \r", "%ifdef\tA", "%Endif"]))
            continue
        k = rng.choice(["%if", "%if", "%ifdef", "%ifndef"])
        e = expr(rng) if k == "%if" or rng.random() < .15 else rng.choice(NAMES)
        if ill and rng.random() < .5: e = spoil(rng, e)
        o.append(k + rng.choice([" ", " ", "  ", " \t"]) + e + rng.choice(["", "", " ", "\r"]))
        body(rng, rng.randrange(0, 4), d + 1, o, ill)
        if rng.random() < .55:
            o.append("%else" + rng.choice(["", " ", " A", "\t", "\r"]))
            body(rng, rng.randrange(0, 4), d + 1, o, ill)
            if ill and rng.random() < .05: o.append("%else")
        if not ill or rng.random() < .93: o.append("%endif" + rng.choice(["", " ", " /* A */", "\t", "\r"]))
        if ill and rng.random() < .03: o.append("%endif")

def job(jid, text, defs):
    raw = [ord(c) for c in text]
    def observe():
        exe = build.lemon()
        d = tempfile.mkdtemp(dir=build.scratch())
        try:
            with open(d + "/g.yl", "wb") as f: f.write(bytes(raw))
            rc, out, err = build.contained([exe, "-E"] + ["-D" + x for x in defs] + ["g.yl"], cwd=d, timeout=30)
            m = re.search(r"on line (\d+)\.?$", err, re.M)
            return {"exit": rc if isinstance(rc, int) else -99, "out": [ord(c) for c in out[:-1]] if out.endswith("\n") else [0], "line": int(m.group(1)) if m else -1, "stderr": err[-800:]}
        finally:
            shutil.rmtree(d, ignore_errors=True)
    return harness.Job(jid, "LemonPreTrace", observe, {"text": raw, "defs": [[ord(c) for c in x.split("=")[0]] for x in defs], "input": text[:400]})

def run(c):
    q = c.quick
    jobs = []
    def add(jid, text, defs):
        if c.nontrivial(text + "\0" + " ".join(defs)): jobs.append(job(jid, text, defs))
    some = lambda: [n + c.rng.choice(["", "", "", "=1", "="]) for n in NAMES if c.rng.random() < .45]
    # every expression of up to three operands, every assignment
    ops = ["&&", "||"]
    E = set()
    for n in (1, 2, 3):
        for o in itertools.product(ops, repeat=n - 1):
            for neg in itertools.product(["", "!"], repeat=n):
                ab = [g + v for g, v in zip(neg, "ABC")]
                flat = ab[0] + "".join(" %s %s" % z for z in zip(o, ab[1:]))
                E.add(flat); E.add("!(%s)" % flat)
                if n == 3: E |= {"(%s %s %s) %s %s" % (ab[0], o[0], ab[1], o[1], ab[2]), "%s %s (%s %s %s)" % (ab[0], o[0], ab[1], o[1], ab[2]), "%s %s !(%s %s %s)" % (ab[0], o[0], ab[1], o[1], ab[2])}
    E = sorted(E)
    for k, defs in enumerate(itertools.chain.from_iterable(itertools.combinations("ABC", r) for r in range(4))):
        for j in range(0, len(E), 8):
            add("e%d-%d" % (k, j), "".join("%%if %s\nyes%d\n%%else\nno\n%%endif\n" % (e, i) for i, e in enumerate(E[j:j+8])), list(defs))
    for i in range(900 if q else 12000):
        o = []
        body(c.rng, c.rng.randrange(1, 6), 0, o, i % 4 == 3)
        t = "\n".join(o) + c.rng.choice(["\n", "\n", ""])
        if len(t) < 1500: add("r%d" % i, t, some())
    c.conform(jobs, "LemonPreTrace")

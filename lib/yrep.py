"""Jobs for ByaccReport: everything byacc writes about a parser (report, graph, header, externs, debugging tables)."""
import os, re, shutil, tempfile
import build, byacc, harness

IDENT = re.compile(r"[A-Za-z_$][A-Za-z0-9_$]*$")

def cid(names, sflag):
    out = {}
    for n in names:
        if n.startswith('"'):
            if not sflag and IDENT.match(n[1:-1]): out[n] = n[1:-1]
        elif IDENT.match(n): out[n] = n
    return out

def rule_split(s):
    m = re.match(r"(\S+) :(.*)$", s)
    return [m.group(1)] + byacc.toks(m.group(2))

def observe(exe, src, d, text, opt, bt):
    first = lambda *fs: next((r(f) for f in fs if r(f) is not None), None)
    r = lambda f: open(os.path.join(d, f), errors="replace").read() if os.path.exists(os.path.join(d, f)) else None
    with open(os.path.join(d, "g.y"), "w") as f: f.write(text)
    if opt.get("o"): out, base = opt["o"], re.sub(r"(\.tab)?\.c$", "", opt["o"])
    else: base = opt.get("b", "y"); out = base + ".tab.c"
    args = ["-v"] + (["-o", out] if opt.get("o") else ["-b", base] if opt.get("b") else []) + opt["flags"]
    if opt.get("p"): args += ["-p", opt["p"]]
    H = opt.get("H")
    if H: args += ["-H", H]
    args += (["-u"] if src.fu else []) + (["-z"] if src.fz else []) + (["-B"] if src.fB else [])
    rc, so, err = byacc.run(exe, args + ["g.y"], d)
    ob = {"exit": rc, "msg": byacc.messages(err), "stderr": err}
    try:
        ob.update(byacc.parse_output(r(base + ".output")))
        tabtext = r(out)
        pre = opt.get("p") or "yy"
        ob["tab"] = byacc.parse_tables(tabtext, pre)
        fl = opt["flags"]
        code = tabtext
        if "-r" in fl:
            code = r(base + ".code.c") or ""
            t2 = byacc.parse_tables(code)
            ob["tab"]["final"], ob["tab"]["tsize"] = t2["final"], t2["tsize"]
        heads = []
        if "-i" in fl:
            it = first(base + ".tab.i", base + ".i")
            if "-d" not in fl and not H: heads.append({"file": "externs", "defs": byacc.defines(it)})
            elif byacc.defines(it): raise ValueError("token definitions in the externs file: %s" % byacc.defines(it)[:3])
        else: heads.append({"file": "code", "defs": [x for x in byacc.defines(code)]})
        if "-d" in fl or H:
            h = r(H) if H else first(base + ".tab.h", base + ".h")
            heads.append({"file": "header", "defs": byacc.defines(h)})
        none = not ob["tab"]["lhs"]         # unexpected conflicts: no parser is written
        if none: heads = []
        rn = byacc.c_strings(tabtext, "rule", pre) or {"len": 0, "str": []}
        nm = byacc.c_strings(tabtext, "name", pre) or {"len": 0, "str": []}
        if none: ob["tab"]["final"] = ob["tab"]["tsize"] = -1
        elif not nm["len"]: raise ValueError("no name table")
        g = {"nodes": [], "edges": []}
        if "-g" in fl: g = byacc.parse_dot(r(base + ".dot"))
        ob["x"] = {"graph": g, "heads": heads, "names": nm,
                   "rnames": {"len": rn["len"], "str": [rule_split(s) for _, s in rn["str"]]},
                   "maxtok": byacc.define(code, "YYMAXTOKEN") or -1, "undf": byacc.define(code, "YYUNDFTOKEN") or -1,
                   "cid": cid([n for n in src.names() if n not in src.lhss()], "-s" in fl)}
        if not ob["x"]["cid"]: ob["x"]["cid"] = {"$none": "x"}
    except (OSError, IndexError, ValueError, TypeError, AttributeError) as e:
        return {"broken": "%s: %s (status %s) %s" % (type(e).__name__, e, rc, err[-600:])}
    return ob

def options(rng):
    fl = [f for f, p in (("-d", .6), ("-g", .8), ("-t", .4), ("-l", .3), ("-r", .25), ("-s", .25), ("-i", .2), ("-P", .1), ("-L", .08)) if rng.random() < p]
    o = {"flags": fl}
    x = rng.random()
    if x < .4: o["b"] = rng.choice(["g", "out", "a_b"])
    elif x < .5: o["o"] = rng.choice(["res.c", "z.tab.c"])
    if rng.random() < .2: o["p"] = rng.choice(["foo", "my_"])
    if rng.random() < .12: o["H"] = "tok.h"; o["flags"] = [f for f in fl if f != "-d"]
    return o

def job(jid, src, opt, variant="bt", text=None, known=None):
    text = text or byacc.render(src)
    def observe_():
        d = tempfile.mkdtemp(dir=build.scratch())
        try:
            fl = dict(opt, flags=[f for f in opt["flags"] if variant == "bt" or f not in ("-P", "-L") or f == "-P"])
            o = observe(build.byacc(variant), src, d, text, fl, variant == "bt")
            if "broken" in o: return {"broken": o["broken"], "text": text}
            if variant != "bt":
                # the plain build prints no symbol numbers: take them from the name table
                o["tokval"] = {n: i for i, n in o["x"]["names"]["str"] if n != "illegal-symbol"}
                t = {n for r in o["rules"] for n in r[1:]}
                o["tokval"] = {("$end" if n == "end-of-file" else n): i for n, i in o["tokval"].items()}
                o["tokval"]["error"] = 256
                o["x"]["names"]["str"] = [[i, "$end" if n == "end-of-file" else n] for i, n in o["x"]["names"]["str"]] + [[256, "error"]]
            else: o["tokval"] = o["symvals"]
            return {"obs": o}
        finally: shutil.rmtree(d, ignore_errors=True)
    return harness.Job(jid, "ByaccReport", observe_, {"src": src.json(), "opts": opt, "variant": variant}, known)

EXOTIC = ['"num"', '"plus+"', '"a\\"b"', '"q\\\\w"', "'\\001'", "'\\377'", "'\\t'", "'\"'", "' '", '"<="', '"end of"', "'\\\\'", "'\\''", "'%'", "'{'", "'.'", "'$'", "'\\200'", '"abc"']

def exotic(rng, s):
    """Some tokens renamed to unusual ones."""
    L = s.lhss()
    ts = [n for n in s.names() if n not in L]
    new = EXOTIC[:]; rng.shuffle(new)
    m = {}
    for t in ts:
        if rng.random() < .5 and new:
            n = new.pop()
            if n not in ts: m[t] = n
    f = lambda x: m.get(x, x)
    t = type(s)([(k, [f(x) for x in v] if k != "start" else v) for k, v in s.decl], [(l, [f(x) for x in r], f(p)) for l, r, p in s.rules], s.sr, s.rr, s.fu, s.fz, s.fB, s.tag)
    return t

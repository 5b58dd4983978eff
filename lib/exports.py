"""C08, C14: run the grammar converters and read what they wrote as plain records (no judging here)."""
import os, re, shutil, sqlite3, tempfile
import build, byacc, gram, harness, lemon

LIT = r"'(?:\\.|[^'\\])*'|\"(?:\\.|[^\"\\])*\""
class Unreadable(Exception): pass

def scan(text, pats):
    """(kind, text) tokens; blanks and comments dropped"""
    rx = re.compile(r"\s+|/\*.*?\*/|" + "|".join("(?P<%s>%s)" % p for p in pats), re.S)
    i, out = 0, []
    while i < len(text):
        m = rx.match(text, i)
        if not m: raise Unreadable("at %r" % text[i:i+30])
        if m.lastgroup: out.append((m.lastgroup, m.group(m.lastgroup)))
        i = m.end()
    return out

def rules(toks, mark):
    """lhs : alternative | alternative ; ... ; mark: the kind of token that announces a precedence mark"""
    out, i = [], 0
    def at(k): return toks[k] if k < len(toks) else ("end", "")
    while i < len(toks):
        if at(i)[0] != "name" or at(i+1)[0] != "colon": raise Unreadable("rule expected at %r" % (toks[i:i+4],))
        lhs, i = at(i)[1], i + 2
        rhs, prec = [], ""
        while True:
            k, t = at(i)
            if k in ("bar", "semi"):
                out.append({"lhs": lhs, "rhs": rhs, "prec": prec}); rhs, prec = [], ""
                i += 1
                if k == "semi": break
            elif k == mark: prec = at(i+1)[1]; i += 2
            elif k in ("name", "tok") and not prec: rhs.append(t); i += 1
            else: raise Unreadable("in a rule at %r" % (toks[i:i+4],))
    return out

LEVEL = ("left", "right", "nonassoc", "precedence")
PUNCT = [("colon", ":"), ("bar", r"\|"), ("semi", ";")]
def unq(kind, t): return t

def read_quoted(text):          # -N
    pats = [("sec", "%%"), ("kw", r"%\w+"), ("angle", "<(?:%s|[^>\\s]+)>" % LIT), ("lit", LIT), ("name", r"[\w.$]+")] + PUNCT
    toks = [("tok", t[1:-1]) if k == "angle" else ("tok", t) if k == "lit" else ("prec", t) if t == "%prec" else (k, t) for k, t in scan(text, pats)]
    s = [k for k, _ in toks].index("sec")
    T, P, start, lv, i = [], [], "", 0, 0
    head = toks[:s]
    while i < len(head):
        k, t = head[i]; i += 1
        if k != "kw": raise Unreadable("declaration expected")
        syms = []
        while i < len(head) and head[i][0] != "kw": syms.append(head[i][1]); i += 1
        if t == "%token": T += syms
        elif t == "%start": start = syms[0]
        elif t[1:] in LEVEL:
            lv += 1
            P += [{"t": x, "p": lv, "a": t[1:]} for x in syms]
        else: raise Unreadable(t)
    return {"toks": T, "prec": P, "start": start, "rules": rules(toks[s+1:], "prec")}

def read_unicc(text):           # -C
    if not text.startswith("#!mode insensitive ;\n"): raise Unreadable("mode")
    pats = [("kw", r"#\w+"), ("tok2", "\"(?:%s)\"" % r"\"(?:\\.|[^\"\\])*\""), ("tok1", r"\"[^\"\s]*\""), ("lit", r"'(?:\\.|[^'\\])*'"), ("goal", r"[\w.]+\$"), ("name", r"[\w.]+")] + PUNCT
    toks, start = [], ""
    for k, t in scan(text.split("\n", 1)[1], pats):
        if k in ("tok1", "tok2"): toks.append(("tok", t[1:-1]))
        elif k == "lit": toks.append(("tok", t))
        elif k == "goal":
            if start: raise Unreadable("two goals")
            start = t[:-1]; toks.append(("name", start))
        else: toks.append((k, t))
    P, lv, i = [], 0, 0
    while i < len(toks) and toks[i][0] == "kw":
        a = toks[i][1][1:]
        if a not in LEVEL: raise Unreadable(a)
        lv += 1; i += 1
        while toks[i][0] == "tok": P.append({"t": toks[i][1], "p": lv, "a": a}); i += 1
        if toks[i][0] != "semi": raise Unreadable("level")
        i += 1
    R = rules(toks[i:], "kw")
    T = {t for k, t in toks if k == "tok"}
    return {"toks": sorted(T), "prec": P, "start": start, "rules": R}

def read_carburetta(text):      # -c
    head, body = text.split("\n%grammar%\n", 1)
    T = []
    for l in head.split("\n"):
        if l.strip():
            if not l.startswith("%token "): raise Unreadable(l)
            T.append(l[7:])
    NT = []
    lines = body.split("\n")
    while lines and (not lines[0].strip() or lines[0].startswith("%nt")): NT += lines.pop(0).split()[1:]
    pats = [("mark", "//%prec"), ("lit", LIT), ("name", r"[\w.]+")] + PUNCT
    toks = [("tok", t) if k == "lit" else (k, t) for k, t in scan("\n".join(lines), pats)]
    R = rules(toks, "mark")
    for r in R:         # the marks are comments that give the names as they were
        if r["prec"] and r["prec"][0] not in "'\"": r["prec"] = r["prec"].replace(".", "_")
    if sorted(set(NT)) != sorted({r["lhs"] for r in R}): raise Unreadable("nonterminals")
    return {"toks": T, "prec": [], "start": "", "rules": R}

def read_ebnf(text):            # -e
    pats = [("arrow", "::="), ("lit", LIT), ("name", r"[\w.]+"), ("bar", r"\|")]
    toks = scan(text, pats)
    R, i = [], 0
    while i < len(toks):
        if toks[i][0] != "name" or i + 1 >= len(toks) or toks[i+1][0] != "arrow": raise Unreadable("rule expected")
        lhs, i, rhs = toks[i][1], i + 2, []
        while True:
            if i >= len(toks) or i + 1 < len(toks) and toks[i+1][0] == "arrow": R.append({"lhs": lhs, "rhs": rhs, "prec": ""}); break
            if toks[i][0] == "bar": R.append({"lhs": lhs, "rhs": rhs, "prec": ""}); rhs = []
            else: rhs.append(toks[i][1])
            i += 1
    return {"toks": [], "prec": [], "start": "", "rules": R}

ASSOC = {"L": "left", "R": "right", "N": "nonassoc", "P": "precedence"}
def read_sql(text):
    """(record, the text of the view of the whole grammar)"""
    c = sqlite3.connect(":memory:")
    try: c.executescript(text)
    except sqlite3.Error as e: raise Unreadable(str(e))
    if c.execute("pragma foreign_key_check").fetchall(): raise Unreadable("dangling reference")
    name = {i: (n, t) for i, n, t in c.execute("select id, name, isTerminal from symbol")}
    P = [{"t": name[i][0], "p": p, "a": ASSOC[a]} for i, p, a in c.execute("select id, prec, assoc from precedence order by prec, id")]
    R = []
    for i, l, p in c.execute("select ruleid, lhs, prec_id from rule order by ruleid"):
        pos = {}
        for q, s in c.execute("select pos, sym from rulerhs where ruleid=? order by pos, id", (i,)):
            if s is not None: pos.setdefault(q, []).append(name[s][0])
        if sorted(pos) != list(range(len(pos))): raise Unreadable("positions")
        R.append({"lhs": name[l][0], "rhs": ["|".join(pos[q]) for q in sorted(pos)], "prec": name[p][0] if p is not None else ""})
    start, wild, size = c.execute("select start_symbol, wildcard, stack_size from directives").fetchone()
    fb = [[name[i][0], name[f][0]] for i, f in c.execute("select id, fallback from symbol where fallback is not null")]
    view = "\n".join(r[0] for r in c.execute("select * from grammar_view") if r[0] is not None)
    return {"toks": [n for n, t in name.values() if t], "prec": P, "start": name[start][0], "rules": R, "wild": name[wild][0] if wild is not None else "", "fb": fb, "size": size or ""}, view + "\n"

def rec(kind, text, reader):
    try: return {"k": kind, "fmt": "rec", "ok": True, "rec": reader(text), "same": True}
    except (Unreadable, ValueError, IndexError, KeyError) as e: return {"k": kind, "fmt": "rec", "ok": False, "why": "%s %s" % (type(e).__name__, e), "same": True}
def txt(kind, fmt, text, same=True): return {"k": kind, "fmt": fmt, "text": [ord(ch) for ch in text], "same": same}

def totals(exe, text, flags, d):
    with open(d + "/again.y", "w", encoding="latin1") as f: f.write(text)
    rc, out, err = byacc.run(exe, flags + ["-v", "-o", d + "/again.c", d + "/again.y"], d)
    v = d + "/again.output"
    if rc not in (0, 1) or not os.path.exists(v): return ["failed", rc, err[-300:]]
    o = byacc.parse_output(open(v, encoding="latin1").read())
    m = byacc.messages(err)
    os.unlink(v)
    return [o["totals"], m["sr"], m["rr"], m["unused"]]

FILES = {"e": "y.ebnf", "E": "y.yl", "n": "y.yn", "N": "y.yn", "S": "y.sql", "c": "y.ycbrt", "C": "y.ypar"}
def byacc_job(jid, src, variant="bt", text=None, known=None, kinds="nNESecC"):
    text = text or byacc.render(src)
    def observe():
        exe = build.byacc(variant)
        d = tempfile.mkdtemp(dir=build.scratch())
        try:
            flags = (["-u"] if src.fu else []) + (["-z"] if src.fz else [])
            with open(d + "/g.y", "w", encoding="latin1") as f: f.write(text)
            X = []
            first = totals(exe, text, flags, d)
            mids = any("{}" in r[:-1] for _, r, _ in src.rules)
            for k in kinds:
                rc, out, err = byacc.run(exe, flags + ["-" + k, "g.y"], d)
                p = os.path.join(d, FILES[k])
                if rc not in (0, 1) or not os.path.exists(p):
                    X.append({"k": k, "fmt": "rec", "ok": False, "why": "exit %s %s" % (rc, err[-600:]), "same": True}); continue
                t = open(p, encoding="latin1").read(); os.unlink(p)
                def again(t):
                    if mids: return True
                    return totals(exe, t, flags, d) == first
                if k == "n": X.append(txt("n", "yacc", t, again(t)))
                elif k == "E": 
                    # (lemon takes no start symbol that is used in a rule, and wants tokens)
                    ok = any(src.start() in r for _, r, _ in src.rules) or not any(n not in src.lhss() for n in src.names())
                    X.append(txt("E", "lemon", t, ok or lemon_reads(t, d)))
                elif k == "S":
                    X.append(rec("S", t, lambda t: read_sql(t)[0]))
                    if X[-1]["ok"]:
                        # (a mark that names a token without precedence is not in the tables)
                        v = read_sql(t)[1]; lv = {x for kk, l in src.decl if kk in LEVEL for x in l}
                        X.append(txt("V", "yacc", v, src.fu or any(p and p not in lv for _, _, p in src.rules) or again(v)))
                else: X.append(rec(k, t, {"N": read_quoted, "e": read_ebnf, "c": read_carburetta, "C": read_unicc}[k]))
            return {"exports": X}
        finally:
            shutil.rmtree(d, ignore_errors=True)
    return harness.Job(jid, "ByaccExportTrace", observe, {"src": src.json(), "input": text[:900]}, known)

def lemon_reads(t, d):
    with open(d + "/again.yl", "w", encoding="latin1") as f: f.write(t)
    rc, out, err = lemon.run(build.lemon(), ["-T" + build.TEMPLATE, "-q", "again.yl"], d)
    return rc in (0, 1) and os.path.exists(d + "/again.c")

# ---- symbols of many spellings whose converted names stay apart ------------------------------------
TN = ["'%s'" % c for c in "vabnrft"] + ["'%s'" % c for c in "()[]}!?=-&#@^`*;.,"] + ["'\\v'", "'\\a'", "'\\b'", "'\\f'", "'\\r'"] + ["NUM", "T_x", "low", "kDot.x", ".T", "_und", "A.b", "k_9", "error_", "tok1", "Z", "'+'", "'-'", "'*'", "'\\n'", "'\\''", "'\\\\'", "'.'", "'_'", "'a'", "'Z'", "'0'", "':'", "'|'", "';'", "'%'", "' '", "'\"'", "'<'", "'>'", "','", "'/'", "'{'", "'\\t'", "'\\001'", "'\\177'", "'~'", "'$'", "\"eq\"", "\"it_s\"", "\"x1\"", "\"Wx\""]
NN = ["s", "stmt", "Foo", ".dot", "_low", "a.b.c", "Expr.list", "n_1", "opt", "x9", "UPPER", "list"]
def respell(rng, s):
    tn, nn = sorted(set(TN)), NN[:]
    rng.shuffle(tn); rng.shuffle(nn)
    if rng.random() < .5:       # neighbours: a character and the escape that is written with it
        c = rng.choice("vabnrft'\\\"01"); tn += ["'%s'" % c, "'\\%s'" % c] if c in "vabnrft" else []
        tn = list(dict.fromkeys(reversed(tn)))[::-1]
    L = s.lhss(); m = {}
    for n in s.names():
        if rng.random() < .75:
            if n in L: m[n] = nn.pop() if nn else n
            else: m[n] = tn.pop() if tn else n
    m = {k: v for k, v in m.items()}
    # the old names that stay must not collide with the new ones
    stay = {n for n in s.names() if n not in m}
    for k in list(m):
        if m[k] in stay: del m[k]; stay.add(k)
    if len(set(m.values()) | stay) != len(m) + len(stay): return s
    f = lambda n: m.get(n, n)
    return gram.Src([(k, [f(n) for n in l]) for k, l in s.decl], [(l and f(l), [f(n) for n in r], p and f(p)) for l, r, p in s.rules], s.sr, s.rr, s.fu, s.fz, False, s.tag)

def lengthen(rng, s):
    """some names become long, or strings with quotes in them"""
    L = s.lhss(); m = {}
    for i, n in enumerate(s.names()):
        if n in L or n[0] not in "'\"" and rng.random() < .5: m[n] = ("n" if n in L else "T") + "%d_" % i + rng.choice("xyz") * rng.choice([3, 50, 58, 59, 60, 61, 62, 63, 64, 65, 120, 300])
        elif rng.random() < .6: m[n] = '"' + rng.choice("xyz ") * rng.choice([1, 57, 58, 59, 60, 61, 62, 63, 64]) + rng.choice(["'", "''", "'q", "\\\"'", "z"]) + "%d" % i + '"'
    f = lambda n: m.get(n, n)
    return gram.Src([(k, [f(n) for n in l]) for k, l in s.decl], [(f(l), [f(n) for n in r], p and f(p)) for l, r, p in s.rules], s.sr, s.rr, s.fu, s.fz, False, s.tag)

def lemonish(n, nonterm):
    """the name a symbol gets in the exports (only used to choose inputs whose names stay apart)"""
    if nonterm: return re.sub(r"^\.", "x_", re.sub(r"^_", "z_", re.sub(r"^([A-Z])", r"l_\1", n))).replace(".", "_")
    if n[0] == "'": return n
    if n[0] == '"': return "Tk_" + n[1:-1]
    return (("Tk_" + n if n[0] in "._" or n[0].islower() else n)).replace(".", "_")
def apart(s):
    L = s.lhss(); N = s.names() + ["error"]
    used = {x for _, r, _ in s.rules for x in r}
    if any(n[0] == '"' and n not in used for n in N): return False      # -E only declares strings where they are used
    a = [lemonish(n, n in L) for n in N]; b = [n.replace(".", "_") if n[0] not in "'\"" else n for n in N]
    return len(set(a)) == len(a) and len(set(b)) == len(b) and all(n[0] not in '"' or re.match(r'"\w+"$', n) for n in N) and len({n.strip('"') for n in N}) == len(N)

# ---- lemon ---------------------------------------------------------------------------------------
def stats(exe, text, flags, d, name):
    with open(d + "/%s.yl" % name, "w", encoding="latin1") as f: f.write(text)
    rc, out, err = lemon.run(exe, ["-T" + build.TEMPLATE, "-q", "-s"] + flags + [name + ".yl"], d)
    st = dict(re.findall(r"^  (\S.*?)\.{2,}\s*(\d+)$", out, re.M))
    return [rc in (0, 1)] + [st.get(k) for k in ("terminal symbols", "non-terminal symbols", "total symbols", "rules", "states", "conflicts")]

def lemon_job(jid, s, text=None, known=None):
    text = text or lemon.render(s)
    def observe():
        exe = build.lemon()
        d = tempfile.mkdtemp(dir=build.scratch())
        try:
            flags = (["-u"] if s.fu else []) + (["-z"] if s.fz and not s.zdir else [])
            first = stats(exe, text, flags, d, "g")
            X = []
            def bad(k, why): X.append({"k": k, "fmt": "rec", "ok": False, "why": why, "same": True})
            for k in "gyY":
                rc, out, err = lemon.run(exe, ["-T" + build.TEMPLATE, "-q", "-" + k] + flags + ["g.yl"], d)
                if rc not in (0, 1): bad(k, "exit %s %s" % (rc, err[-600:])); continue
                i = out.find("//")
                if i < 0: bad(k, out[:300]); continue
                t = out[i:]
                t = re.sub(r"(?m)^\d+ parsing conflicts\.\n?", "", t)
                if k == "g": X.append(txt("g", "lemon", t, stats(exe, t, flags, d, "again") == first))
                else: X.append(txt(k, "yacc", t, totals(build.byacc("bt"), t, [], d)[0] != "failed"))
            rc, out, err = lemon.run(exe, ["-T" + build.TEMPLATE, "-q", "-S"] + flags + ["g.yl"], d)
            if rc not in (0, 1) or not os.path.exists(d + "/g.sql"): bad("S", "exit %s %s" % (rc, err[-600:]))
            else:
                t = open(d + "/g.sql", encoding="latin1").read()
                X.append(rec("S", t, lambda t: read_sql(t)[0]))
                if X[-1]["ok"]:
                    v = read_sql(t)[1]
                    # (the tables do not say how rules get their precedence)
                    X.append(txt("V", "lemon", v, stats(exe, v, flags + (["-z"] if s.fz and s.zdir else []), d, "again") == first))
            return {"exports": X}
        finally:
            shutil.rmtree(d, ignore_errors=True)
    return harness.Job(jid, "LemonExportTrace", observe, {"src": s.json(), "input": text[:900]}, known)

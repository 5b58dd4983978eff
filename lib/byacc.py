"""Render source grammars for byacc, run it, and read what it produced (no judging here)."""
import os, re, subprocess
import build

C_ESC = {"'\\n'": 10, "'\\''": 39, "'\\\\'": 92, "'\\t'": 9, "'\\0'": 0, "'\\a'": 7}

def render(src, rng=None, actions=None, prologue="", epilogue="", decl_extra="", final_actions=True, marks=None):
    """actions(rule index, position or None) -> C text of an action."""
    o = []
    if prologue: o.append("%{\n" + prologue + "\n%}")
    if decl_extra: o.append(decl_extra)
    if src.sr >= 0: o.append("%%expect %d" % src.sr)
    if src.rr >= 0: o.append("%%expect-rr %d" % src.rr)
    for k, s in src.decl:
        o.append("%" + k + " " + " ".join(s))
    o.append("%%")
    i = 0
    while i < len(src.rules):
        l = src.rules[i][0]
        j = i
        alts = []
        while j < len(src.rules) and src.rules[j][0] == l and (j == i or rng is None or rng.random() < .8):
            _, r, p = src.rules[j]
            parts = []
            for pos, x in enumerate(r):
                if x == "{}": parts.append("{ %s }" % (actions(j, pos) if actions else ""))
                else: parts.append(x)
            if p: parts.insert(marks.randrange(len(parts) + 1) if marks and not (r and r[-1] == "{}") else len(parts), "%prec " + p)
            if actions and not (r and r[-1] == "{}"):
                a = actions(j, None)
                if a: parts.append("{ %s }" % a)
            alts.append(" ".join(parts))
            j += 1
        sep = "\n    | "
        txt = l + " : " + sep.join(alts)
        if rng is None or rng.random() < .8: txt += " ;"
        if rng is not None and rng.random() < .1: txt += " /* c : d | e ; */"
        o.append(txt)
        i = j
    o.append("%%")
    if epilogue: o.append(epilogue)
    return "\n".join(o) + "\n"

def run(exe, args, cwd, timeout=60):
    return build.contained([exe] + args, cwd=cwd, timeout=timeout)

def messages(err):
    m = {"sr": 0, "rr": 0, "unused": 0, "expsr": False, "exprr": False, "stats": [], "other": []}
    st = {}
    names = ["conflicts", "terminal symbols", "non-terminal symbols", "total symbols", "rules", "states"]
    for l in err.split("\n"):
        if not l: continue
        t = re.match(r"\S+: (?:(\d+) shift/reduce conflicts?)?(?:, )?(?:(\d+) reduce/reduce conflicts?)?\.$", l)
        if t and (t.group(1) or t.group(2)):
            m["sr"], m["rr"] = int(t.group(1) or 0), int(t.group(2) or 0); continue
        t = re.match(r"\S+: (\d+) rules? never reduced$", l)
        if t: m["unused"] = int(t.group(1)); continue
        t = re.match(r"\S+: expected (\d+) (shift|reduce)/reduce conflicts?\.$", l)
        if t: m["expsr" if t.group(2) == "shift" else "exprr"] = True; continue
        t = re.match(r"(\d+) (conflicts|terminal symbols|non-terminal symbols|total symbols|rules|states)$", l)
        if t: st[t.group(2)] = int(t.group(1)); continue
        m["other"].append(l)
    if st: m["stats"] = [st.get(n, -1) for n in names]
    return m

def toks(s):
    """Split on blanks, keeping quoted symbols whole."""
    return re.findall(r"'(?:\\.|[^'\\])+'|\"(?:\\.|[^\"\\])*\"|\S+", s)

def parse_output(text):
    """The verbose report as plain data."""
    text = text.split("\f")[0] + "\f" + text.split("\f", 1)[1]
    head, body = text.split("\f", 1)
    rules, lhs, precs = [], None, {}
    def rhs(s):
        w = toks(s)
        if len(w) >= 2 and w[-2] == "%prec":
            precs[len(rules)] = w[-1]; w = w[:-2]
        return w
    for l in head.split("\n"):
        m = re.match(r"\s*(\d+)  (\S+) :(.*)$", l)
        if m:
            lhs = m.group(2); rules.append([lhs] + rhs(m.group(3))); continue
        m = re.match(r"\s*(\d+)\s+\|(.*)$", l)
        if m: rules.append([lhs] + rhs(m.group(2)))
    states, cur, confs, unused, unusedrules, totals, symvals = [], None, [], [], [], [0, 0, 0, 0], {}
    summary = {}
    mode = ""
    for l in body.split("\n"):
        m = re.match(r"state (\d+)$", l)
        if m:
            cur = {"items": [], "nulls": [], "acts": [], "def": -1, "acc": False, "gotos": [], "sr": 0, "rr": 0, "confs": confs}
            confs = []
            states.append(cur); mode = "state"; continue
        m = re.match(r"(\d+): shift/reduce conflict \((shift (\d+)|accept), reduce (\d+) \[(\S+)\]\) on (.*)$", l)
        if m:
            confs.append(["sr", int(m.group(3)) if m.group(3) else -1, int(m.group(4)), m.group(6), m.group(5), ""]); continue
        m = re.match(r"(\d+): reduce/reduce conflict \(reduce (\d+) \[(\S+)\], reduce (\d+) \[(\S+)\]\) on (.*)$", l)
        if m:
            confs.append(["rr", int(m.group(2)), int(m.group(4)), m.group(6), m.group(5), m.group(3)]); continue
        if l.startswith("Rules never reduced"): mode = "unused"; continue
        m = re.match(r"State (\d+) contains (?:(\d+) shift/reduce conflicts?)?(?:, )?(?:(\d+) reduce/reduce conflicts?)?\.$", l)
        if m:
            summary[int(m.group(1))] = (int(m.group(2) or 0), int(m.group(3) or 0)); continue
        m = re.match(r"(\d+) terminals, (\d+) nonterminals$", l)
        if m: totals[0:2] = [int(m.group(1)), int(m.group(2))]; mode = "end"; continue
        m = re.match(r"(\d+) grammar rules, (\d+) states$", l)
        if m: totals[2:4] = [int(m.group(1)), int(m.group(2))]; continue
        if mode == "end":
            m = re.match(r"\s*(\d+)\s+(\d+)\s+(.*)$", l)
            if m: symvals[m.group(3)] = int(m.group(2))
            continue
        if mode == "unused":
            m = re.match(r"\t(\S+) :(.*)\((\d+)\)$", l)
            if m: unused.append(int(m.group(3))); unusedrules.append([int(m.group(3)), [m.group(1)] + toks(m.group(2))])
            continue
        if mode != "state" or not l.startswith("\t"): continue
        m = re.match(r"\t(\S+) : (.*)\((\d+)\)$", l)
        if m:
            w = toks(m.group(2))
            d = [i for i, x in enumerate(w) if x == "."]
            d = d[0]
            if w == ["."]: cur["nulls"].append(int(m.group(3)))
            else: cur["items"].append([int(m.group(3)), d, m.group(1)] + w)
            continue
        m = re.match(r"\t(.*?)  (shift|\[trial\] shift|reduce|\[trial\] reduce|goto|accept|error)(?: (\d+))?(?: \[(\S+)\])?$", l)
        if not m: raise ValueError("report line not understood: %r" % l)
        s, k, n = m.group(1), m.group(2), int(m.group(3) or 0)
        if k == "accept": cur["acc"] = True
        elif k == "error": pass
        elif s == "." and k == "reduce": cur["def"] = n
        elif k == "goto": cur["gotos"].append([s, n])
        else: cur["acts"].append([s, {"shift": "s", "reduce": "r", "[trial] shift": "ts", "[trial] reduce": "tr"}[k], n, m.group(4) or ""])
    for i, (a, b) in summary.items():
        if i < len(states): states[i]["sr"], states[i]["rr"] = a, b
    return {"rules": rules, "precs": [precs.get(i, "") for i in range(len(rules))], "states": states, "unused": unused, "unusedrules": unusedrules, "totals": totals, "symvals": symvals}

def parse_dot(text):
    nodes = []
    def un(s): return re.sub(r"\\(.)", r"\1", s)
    for m in re.finditer(r'^\tq(\d+) \[label="((?:\\.|[^"\\])*)"\];', text, re.M):
        parts, cur, s, i = [], "", m.group(2), 0
        while i < len(s):
            if s[i] == "\\":
                if s[i+1] == "l": parts.append(cur); cur = ""
                else: cur += s[i+1]
                i += 2
            else: cur += s[i]; i += 1
        if cur or parts[0] != m.group(1) + ":": raise ValueError("graph node not understood: %r" % s[:200])
        items = []
        for p in parts[1:]:
            w = toks(p); la, has = [], False
            if w[-1] == "}":
                k = len(w) - 1 - w[::-1].index("{"); la, has, w = w[k+1:-1], True, w[:k]
            if w[1] != "->": raise ValueError("graph item not understood: %r" % p)
            d = w.index(".", 2)
            items.append({"lhs": w[0], "rhs": w[2:d] + w[d+1:], "dot": d - 2, "has": has, "la": la})
        nodes.append({"n": int(m.group(1)), "items": items})
    edges = [[int(a), int(b), un(c)] for a, b, c in re.findall(r'^\tq(\d+) -> q(\d+) \[label="((?:\\.|[^"\\])*)"\];', text, re.M)]
    return {"nodes": nodes, "edges": edges}

def c_unescape(s):
    return re.sub(r"\\(.)", lambda m: {"n": "\n", "t": "\t"}.get(m.group(1), m.group(1)), s)

def c_strings(text, name, prefix="yy"):
    """[[index, string], ...] of an array of strings and zeros, and its length."""
    m = re.search(r"\b%s%s\[\]\s*=\s*\{" % (prefix, name), text)
    if not m: return None
    out, i, n = [], m.end(), 0
    for t in re.finditer(r'"((?:\\.|[^"\\])*)"|\b0\b|NULL|\}|,|\s+|(.)', text[m.end():]):
        if t.group(0) == "}": break
        if t.group(2): raise ValueError("array %s not understood" % name)
        if t.group(1) is not None: out.append([n, c_unescape(t.group(1))]); n += 1
        elif t.group(0) in ("0", "NULL"): n += 1
    return {"len": n, "str": out}

DEFS_NOT = {"YYBYACC", "YYMAJOR", "YYMINOR", "YYPATCH", "YYFINAL", "YYMAXTOKEN", "YYUNDFTOKEN", "YYTABLESIZE", "YYDEBUG", "YYBTYACC", "YYPURE", "YYSTACKSIZE", "YYLTYPE_IS_DECLARED",
            "YYINITSTACKSIZE", "YYMAXDEPTH", "YYEMPTY", "YYEOF", "YYSTACKGROWTH", "YYLVQUEUEGROWTH", "YYPREFIX", "YYTRACE"}
def defines(text):
    """the numeric #defines the generated file makes of tokens"""
    return [[a, int(b)] for a, b in re.findall(r"^#define (\w+) (-?\d+)$", text, re.M) if a not in DEFS_NOT]

def c_array(text, name, prefix="yy"):
    m = re.search(r"\b%s%s\[\]\s*=\s*\{([^}]*)\}" % (prefix, name), text)
    if not m: return None
    return [int(x) for x in re.findall(r"-?\d+", m.group(1))]

def define(text, name):
    m = re.search(r"^#define %s (-?\d+)" % name, text, re.M)
    return int(m.group(1)) if m else None

def parse_tables(text, prefix="yy"):
    t = {}
    for n in ("lhs", "len", "defred", "sindex", "rindex", "gindex", "table", "check", "dgoto", "cindex", "ctable"):
        t[n] = c_array(text, n, prefix) or []
    t["final"], t["tsize"] = define(text, "YYFINAL"), define(text, "YYTABLESIZE")
    return t

def observe(exe, src, d, name="g", text=None, extra=(), keep=False):
    """Run byacc -v on src; returns the observation record."""
    y = os.path.join(d, name + ".y")
    with open(y, "w") as f:
        f.write(text if text is not None else render(src))
    args = ["-v", "-b", name] + (["-u"] if src.fu else []) + (["-z"] if src.fz else []) + (["-B"] if src.fB else []) + list(extra) + [name + ".y"]
    rc, out, err = run(exe, args, d)
    obs = {"exit": rc, "msg": messages(err)}
    op, cp = os.path.join(d, name + ".output"), os.path.join(d, name + ".tab.c")
    try:
        obs.update(parse_output(open(op, errors="replace").read()))
        obs["tab"] = parse_tables(open(cp, errors="replace").read())
    except (OSError, IndexError, ValueError) as e:
        obs["broken"] = "%s: %s" % (type(e).__name__, e)
    obs["stderr"] = err
    if not keep:
        for f in (y, op, cp):
            if os.path.exists(f): os.remove(f)
    return obs

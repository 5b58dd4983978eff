"""Render source grammars for lemon, run it, and read what it produced (no judging here)."""
import os, re, shutil, subprocess, tempfile
import build

def render(s, rng=None, actions=None, head="", labels=None):
    """actions(rule index) -> C text for rules with code; labels(rule, pos or -1) -> label or None."""
    o = [head] if head else []
    if s.prefix: o.append("%%token_prefix %s" % s.prefix)
    if s.expect is not None: o.append("%%expect %d" % s.expect)
    if s.fz and s.zdir: o.append("%yacc_prec")
    for k, a in s.decl:
        if k == "start": o.append("%start_symbol " + a[0])
        elif k == "class": o.append("%%token_class %s %s." % (a[0], "|".join(a[1:])))
        else: o.append("%%%s %s." % (k, " ".join(a)))
    for i, (l, r, p, c) in enumerate(s.rules):
        lab = lambda pos: "(%s)" % labels(i, pos) if labels and labels(i, pos) else ""
        t = "%s%s ::= %s." % (l, lab(-1), " ".join(x + lab(j) for j, x in enumerate(r)))
        code = " {%s}" % (actions(i) if actions else " /* r%d */ " % i) if c else ""
        pr = " [%s]" % p if p else ""
        o.append(t + (code + pr if rng is not None and rng.random() < .5 else pr + code))
    return "\n".join(o) + "\n"

def run(exe, args, cwd, timeout=60):
    return build.contained([exe] + args, cwd=cwd, timeout=timeout)

def messages(out, err):
    st, m = {}, {"unred": 0, "said": -1, "other": []}
    for l in out.split("\n"):
        t = re.match(r"  (\S.*?)\.{2,}\s*(\d+)$", l)
        if t: st[t.group(1)] = int(t.group(2))
    for l in err.split("\n"):
        if not l.strip(): continue
        if l.endswith("This rule can not be reduced."): m["unred"] += 1; continue
        t = re.match(r"(\d+) parsing conflicts\.$", l)
        if t: m["said"] = int(t.group(1)); continue
        m["other"].append(l)
    m["stats"] = [st.get(k, -1) for k in ("terminal symbols", "non-terminal symbols", "total symbols", "rules", "states")]
    m["conf"], m["sr"], m["rr"] = st.get("conflicts", -1), st.get("conflicts S/R", -1), st.get("conflicts R/R", -1)
    m["all"] = st
    return m

def item(txt):
    w = txt.split()
    assert w[1] == "::=", txt
    d = w.index("*", 2)
    return {"t": [w[0]] + w[2:d] + w[d+1:], "d": d - 2, "r": -1}

def parse_out(text):
    parts = text.split("-" * 52 + "\n")
    states, cur = [], None
    for l in parts[0].split("\n"):
        m = re.match(r"State (\d+):$", l)
        if m:
            cur = {"n": int(m.group(1)), "items": [], "acts": []}; states.append(cur); continue
        if not l.strip(): continue
        m = re.match(r"    \s*\((\d+)\) (\S+ ::=.*)$", l) or re.match(r"          (\S+ ::=.*)$", l)
        if m:
            it = item(m.group(m.lastindex))
            if m.lastindex == 2: it["r"] = int(m.group(1))
            cur["items"].append(it); continue
        l2 = re.sub(r"\s*/\* because .*\*/\s*$", "", l)
        m = re.match(r"\s*(\S+) (accept|error)$", l2)
        if m: cur["acts"].append({"s": m.group(1), "k": "acc" if m.group(2) == "accept" else "e", "n": 0, "x": "ok"}); continue
        m = re.match(r"\s*(\S+) (shift|reduce|shift-reduce)\s+(\d+)(.*)$", l2)
        if not m: raise ValueError("report line not understood: %r" % l)
        rest = m.group(4)
        x = "conf" if "** Parsing conflict **" in rest else "res" if "-- dropped by precedence" in rest else "ok"
        cur["acts"].append({"s": m.group(1), "k": {"shift": "s", "reduce": "r", "shift-reduce": "sr"}[m.group(2)], "n": int(m.group(3)), "x": x})
    syms = []
    for l in parts[1].split("\n")[3:]:
        m = re.match(r"  \s*(\d+): (\S+?)(:)?((?: [^( ]\S*)*)(?: \(precedence=(-?\d+)\))?$", l)
        if not m:
            if l.strip(): raise ValueError("symbol line not understood: %r" % l)
            continue
        w = m.group(4).split()
        syms.append({"i": int(m.group(1)), "n": m.group(2), "l": "<lambda>" in w, "f": [x for x in w if x != "<lambda>"],
                     "p": int(m.group(5)) if m.group(5) else -1})
    rules = []
    for l in parts[3].split("\n")[1:]:
        if not l.strip(): continue
        m = re.match(r"\s*(\d+): (\S+) ::=((?: \S+)*)\.(?: \[(\S+) precedence=(-?\d+)\])?$", l)
        if not m: raise ValueError("rule line not understood: %r" % l)
        if int(m.group(1)) != len(rules): raise ValueError("rule numbered %s at %d" % (m.group(1), len(rules)))
        rules.append({"t": [m.group(2)] + m.group(3).split(), "p": [m.group(4) or "", int(m.group(5) or 0)]})
    return {"states": states, "symbols": syms, "rules": rules, "syntax_only": parts[2].split("\n", 3)[3].split()}

def arr(text, name):
    m = re.search(r"\b%s\[\]\s*=\s*\{(.*?)\};" % name, text, re.S)
    if not m: return []
    body = re.sub(r"/\*.*?\*/|//[^\n]*", " ", m.group(1), flags=re.S)
    return [int(x) for x in re.findall(r"-?\d+", body)]

def define(text, name, dflt=-1):
    m = re.search(r"^#define %s\s+\(?(-?\d+)\)?\s*$" % name, text, re.M)
    return int(m.group(1)) if m else dflt

def parse_tables(text):
    t = {"action": arr(text, "yy_action"), "lookahead": arr(text, "yy_lookahead"), "shiftofst": arr(text, "yy_shift_ofst"),
         "reduceofst": arr(text, "yy_reduce_ofst"), "dflt": arr(text, "yy_default"), "rulelhs": arr(text, "yyRuleInfoLhs"),
         "rulenrhs": arr(text, "yyRuleInfoNRhs"), "fallback": arr(text, "yyFallback")}
    for k, n in (("maxshift", "YY_MAX_SHIFT"), ("minsr", "YY_MIN_SHIFTREDUCE"), ("maxsr", "YY_MAX_SHIFTREDUCE"), ("erract", "YY_ERROR_ACTION"),
                 ("accact", "YY_ACCEPT_ACTION"), ("minred", "YY_MIN_REDUCE"), ("maxred", "YY_MAX_REDUCE"), ("shiftcount", "YY_SHIFT_COUNT"),
                 ("reducecount", "YY_REDUCE_COUNT"), ("ntoken", "YYNTOKEN"), ("nrule", "YYNRULE"), ("nact", "YYNRULE_WITH_ACTION"),
                 ("wildcard", "YYWILDCARD"), ("errsym", "YYERRORSYMBOL"), ("nstate", "YYNSTATE"), ("stack", "YYSTACKDEPTH"), ("actcount", "YY_ACTTAB_COUNT")):
        t[k] = define(text, n)
    return t

def header(text):
    m = re.search(r"enum \w+ \{(.*?)\};", text, re.S)
    if not m: return None
    e = [[n, int(v)] for n, v in re.findall(r"(\w+)\s*=\s*(\d+)", m.group(1))]
    return e[:-1] if e and e[-1][0].endswith("LEMON_LAST_TOKEN") else e

def defines(text):
    m = re.search(r"^#ifndef \w+\n((?:#define \w+\s+\d+\n)+)#endif", text, re.M)
    return [[a, int(b)] for a, b in re.findall(r"#define (\w+)\s+(\d+)", m.group(1))] if m else []

def observe(exe, s, d, text=None, optsets=(("-c",), (), ("-r",))):
    text = text if text is not None else render(s)
    flags = (["-u"] if s.fu else []) + (["-z"] if s.fz and not s.zdir else [])
    obs = {"tabs": []}
    def once(opts, raw=False):
        with open(os.path.join(d, "g.yl"), "w") as f: f.write(text)
        rc, out, err = run(exe, ["-T" + build.TEMPLATE, "-s"] + flags + list(opts) + ["g.yl"], d)
        res = [rc, messages(out, err), err]
        for ext in (".out", ".c", ".h"):
            p = os.path.join(d, "g" + ext)
            res.append(open(p, errors="replace").read() if os.path.exists(p) else "")
            if os.path.exists(p): os.remove(p)
        return res
    try:
        rc, msg, err, out, c, h = once(("-c", "-p"))
        obs.update(exit=rc, msg=msg, stderr=err)
        p = parse_out(out)
        obs["raw"], obs["symbols"], obs["rules"] = p["states"], p["symbols"], p["rules"]
        obs["header"] = header(h) or []
        for opts in optsets:
            rc2, msg2, err2, out, c, h = once(opts)
            q = parse_out(out)
            obs["tabs"].append({"n": " ".join(opts), "exact": "-c" in opts, "tb": parse_tables(c), "defs": defines(c),
                                "states": [{"n": x["n"], "items": [i for i in x["items"]]} for x in q["states"]]})
            if (rc2, msg2["conf"]) != (rc, msg["conf"]) or (header(h) or []) != obs["header"]:
                obs["broken"] = "options %s change exit status, conflicts or header: %s %s" % (opts, rc2, err2[-300:])
    except (OSError, IndexError, ValueError, AssertionError) as e:
        obs["broken"] = "%s: %s %s" % (type(e).__name__, e, obs.get("stderr", "")[-400:])
    return obs

def job(jid, s, text=None, known=None, optsets=(("-c",), (), ("-r",))):
    import harness
    def observe_():
        d = tempfile.mkdtemp(dir=build.scratch())
        try: o = observe(build.lemon(), s, d, text=text, optsets=optsets)
        finally: shutil.rmtree(d, ignore_errors=True)
        if "broken" in o: return {"broken": o["broken"], "text": text or render(s)}
        return {"obs": o}
    return harness.Job(jid, "LemonTrace", observe_, {"src": s.json()}, known)

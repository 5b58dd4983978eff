"""C17: carry a grammar from one tool to the other with a converter and observe what both make of it (no judging here)."""
import os, re, shutil, tempfile
import build, byacc, gram, harness, lemon

def machine_b(d, exe, text, flags):
    """byacc's machine of a text"""
    with open(d + "/b.y", "w", encoding="latin1") as f: f.write(text)
    rc, out, err = byacc.run(exe, flags + ["-v", "-o", "b.c", "b.y"], d)
    if rc not in (0, 1) or not os.path.exists(d + "/b.output"): raise ValueError("byacc: exit %s %s" % (rc, err[-600:]))
    o = byacc.parse_output(open(d + "/b.output", encoding="latin1").read())
    m = byacc.messages(err)
    return {"brules": o["rules"][1:], "bstates": [{k: s[k] for k in ("acts", "def", "acc", "gotos")} for s in o["states"]], "bsr": m["sr"], "brr": m["rr"], "bunused": m["unused"]}

def machine_l(d, exe, text, flags):
    with open(d + "/l.yl", "w", encoding="latin1") as f: f.write(text)
    rc, out, err = lemon.run(exe, ["-T" + build.TEMPLATE, "-s", "-c", "-p"] + flags + ["l.yl"], d)
    if not os.path.exists(d + "/l.out"): raise ValueError("lemon: exit %s %s" % (rc, err[-600:]))
    o = lemon.parse_out(open(d + "/l.out", encoding="latin1").read())
    m = lemon.messages(out, err)
    S = sorted(o["states"], key=lambda s: s["n"])
    if [s["n"] for s in S] != list(range(len(S))): raise ValueError("lemon: state numbers")
    return {"lrules": [r["t"] for r in o["rules"]], "lstates": [{"acts": s["acts"]} for s in S], "lsr": max(m["sr"], 0), "lrr": max(m["rr"], 0), "lunused": m["unred"]}

def to_lemon(jid, src, text, known=None, strict=False):
    """byacc's grammar, -E, lemon"""
    def observe():
        d = tempfile.mkdtemp(dir=build.scratch())
        try:
            fl = ["-u"] if src.fu else []
            c = machine_b(d, build.byacc("bt"), text, fl + (["-z"] if src.fz else []) + ["-E"])
            p = [f for f in os.listdir(d) if f.endswith(".yl")]
            if len(p) != 1: raise ValueError("no export")
            t = open(os.path.join(d, p[0]), encoding="latin1").read(); os.unlink(os.path.join(d, p[0]))
            c.update(machine_l(d, build.lemon(), t, fl + ([] if src.fz else ["-z"])))
            c.update(cls=[], code=[False] * len(c["lrules"]), zmode=src.fz, tolemon=True, strict=strict)
            return c
        finally: shutil.rmtree(d, ignore_errors=True)
    return harness.Job(jid, "CrossTrace", observe, {"input": text[:900]}, known)

def to_byacc(jid, s, text, how, known=None, strict=False):
    """lemon's grammar, -y or -Y, byacc"""
    def observe():
        d = tempfile.mkdtemp(dir=build.scratch())
        try:
            fl = (["-u"] if s.fu else []) + (["-z"] if s.fz and not s.zdir else [])
            with open(d + "/g.yl", "w", encoding="latin1") as f: f.write(text)
            rc, out, err = lemon.run(build.lemon(), ["-T" + build.TEMPLATE, "-q", "-" + how] + fl + ["g.yl"], d)
            i = out.find("//")
            if i < 0: raise ValueError("no export: %s %s" % (out[:300], err[-300:]))
            t = re.sub(r"(?m)^\d+ parsing conflicts\.\n?", "", out[i:])
            c = machine_l(d, build.lemon(), text, fl)
            z = how == "y" and not s.fz
            c.update(machine_b(d, build.byacc("bt"), t, (["-u"] if s.fu else []) + (["-z"] if z else [])))
            c.update(cls=s.json()["cls"], code=[bool(x[3]) for x in s.rules], zmode=z, tolemon=False, strict=strict)
            return c
        finally: shutil.rmtree(d, ignore_errors=True)
    return harness.Job(jid, "CrossTrace", observe, {"input": text[:900]}, known)

def no_goal_inside(rng, s):
    """lemon's start symbol is in no right-hand side"""
    g = s.start()
    if not any(g in r for _, r, _ in s.rules): return s
    n = "goal_x"
    R = list(s.rules)
    R.insert(rng.choice([0, len(R)]), (n, [g], ""))
    return gram.Src([(k, l) for k, l in s.decl if k != "start"] + [("start", [n])], R, s.sr, s.rr, s.fu, s.fz, False, s.tag)

def gen_rrprec(rng):
    """two rules for the same tokens, with precedences"""
    toks = ["A", "B", "C", "D", "E"]; ops = ["P", "Q", "R"]
    decl = [("token", toks)] + [(rng.choice(["left", "right", "nonassoc"]), [o]) for o in rng.sample(ops, rng.randrange(1, 4))]
    rules = []
    for i in range(rng.randrange(1, 4)):
        rhs = [rng.choice(toks + ops) for _ in range(rng.randrange(1, 3))]
        a, b = "x%d" % i, "y%d" % i
        for n in (a, b):
            rules += [("s", ([rng.choice(toks)] if rng.random() < .2 else []) + [n] + [rng.choice(toks) for _ in range(rng.choice([0, 1, 1]))], "") for _ in range(rng.choice([1, 1, 2]))]
        for n in (a, b): rules.append((n, rhs, rng.choice(ops + ops + [""])))
    rng.shuffle(rules)
    return gram.Src(decl + [("start", ["s"])], rules)

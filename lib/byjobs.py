"""Jobs: run the real byacc on a source grammar and hand what it produced to ByaccTrace."""
import os, random, tempfile
import build, byacc, gram, harness

def job(jid, src, variant="bt", text=None, known=None, extra=(), strict=False):
    def observe():
        exe = build.byacc(variant)
        d = tempfile.mkdtemp(dir=build.scratch())
        try:
            o = byacc.observe(exe, src, d, text=text, extra=extra)
            if variant != "bt" and "broken" not in o:
                o2 = byacc.observe(build.byacc("bt"), src, d, text=text)
                o["symvals"] = o2.get("symvals", {})
        finally:
            import shutil; shutil.rmtree(d, ignore_errors=True)
        if "broken" in o:
            return {"broken": o["broken"] + "\n" + o["stderr"][-800:], "text": text or byacc.render(src)}
        o["tokval"] = o["symvals"]
        return {"obs": o}
    return harness.Job(jid, "ByaccTrace", observe, {"src": src.json(), **({"strict": True} if strict else {})}, known)

def ok(src):
    return src.start() in src.lhss() and src.start() not in src.cyclic()

def mix(rng, n, kinds, flags=True):
    """n distinct sources drawn from the named generators."""
    G = {
        "rand": lambda: gram.gen_random(rng, rng.randrange(1, 7), rng.randrange(1, 7), rng.randrange(2, 16), p_null=.2, p_err=.04, p_mid=.06, p_prec=.1),
        "tiny": lambda: gram.gen_random(rng, rng.randrange(1, 4), rng.randrange(1, 3), rng.randrange(1, 7), maxlen=3, p_null=.3, literals=False),
        "null": lambda: gram.gen_random(rng, rng.randrange(3, 8), rng.randrange(2, 5), rng.randrange(5, 16), maxlen=5, p_null=.45),
        "mids": lambda: gram.gen_random(rng, rng.randrange(1, 5), rng.randrange(2, 7), rng.randrange(2, 10), p_null=.1, p_mid=.3, p_prec=.3),
        "expr": lambda: gram.gen_expr(rng), "rr": lambda: gram.gen_rr(rng), "layer": lambda: gram.gen_layered(rng, rng.randrange(2, 8), rng.randrange(2, 9)),
    }
    out, seen, tries = [], set(), 0
    while len(out) < n and tries < 20 * n:
        tries += 1
        k = kinds[tries % len(kinds)]
        s = G[k]()
        s.tag = k
        if flags:
            s.fu = rng.random() < .12; s.fz = rng.random() < .25; s.fB = rng.random() < .15
            if rng.random() < .25: s.sr = rng.choice([0, 0, 1, 2, 3])
            if rng.random() < .25: s.rr = rng.choice([0, 0, 1, 2])
        if not ok(s) or s.key() in seen: continue
        seen.add(s.key()); out.append(s)
    return out

def sizes(rng, quick):
    """Grammars at size boundaries."""
    L = [gram.gen_cross(rng, n, m) for n, m in ((29, 30), (30, 40), (31, 40), (61, 70), (62, 80), (63, 80), (94, 100))]
    L += [gram.gen_long(rng, n) for n in (1, 7, 15, 31, 40, 64, 120, 127, 128, 255, 300)]
    if not quick: L += [gram.gen_cross(rng, n, m) for n, m in ((64, 150), (126, 150), (127, 300), (128, 400), (190, 250), (255, 300))]
    return [s for s in L if ok(s)]

"""C07: byacc reads a grammar file into the grammar it denotes."""
import glob, os, re
import build, byjobs, corpus, yread

RULE = "a case is one file: a grammar laid out in one of its many spellings, or such a file damaged at character or token level; TLC reads the file character by character with the reader machine of ByaccReader and what byacc accepted, refused, listed, numbered and constructed is compared with it; distinct by file text"

INHERITED = ["n2 ('x')", "n2 ($1)", "n2($1, $2)", "n2 ($$)", "n2(1, \"a)\", '\\'')", "n2($<ival>1)", "n2(@1)", "n2()", "n2($x) : A ; n3 : n2", "n2 : A ; n2($x) : B ; n2", "n2 ($<ival>x, $<q>y) : B ; n3", "n2(", "n2($x : B ;", "n2(($1), [2], {3})"]

def run(c):
    q = c.quick
    n = 1500 if q else 16000
    srcs = byjobs.mix(c.rng, n, ["rand", "rr", "expr", "tiny", "rand", "null", "layer"]) + [yread.precmid(c.rng) for _ in range(n // 12)]
    jobs = []
    def add(jid, t, e, whole):
        plain = c.rng.random() < .35 and not e.fB and whole and not any(w in t for w in ("%destructor", "%initial", "%locations", "@"))
        if c.nontrivial(t): jobs.append(yread.job(jid, t, e.fu, e.fz, e.fB, whole, variant="n" if plain else "bt"))
    for i, s in enumerate(srcs):
        if not byjobs.ok(s): continue
        e = yread.enrich(c.rng, s)
        t = yread.layout(c.rng, e)
        x = c.rng.random()
        if x < .5: add("w%d-%s" % (i, s.tag), t, e, True)
        elif x < .95: add("m%d-%s" % (i, s.tag), yread.mutate(c.rng, t), e, False)
        else:
            k = [m.end() for m in re.finditer(r"[:|] ", t)]
            if k:
                k = c.rng.choice(k)
                t = t[:k] + c.rng.choice(INHERITED) + " " + t[k:]
            if c.rng.random() < .3: t = "%type (" + "<ival>" * c.rng.randrange(0, 24) + ") n2\n" + t
            add("i%d-%s" % (i, s.tag), t, e, False)
    # the files byacc comes with
    for f in sorted(glob.glob(build.REPO + "/byacc/test/*.y")):
        t = open(f, "rb").read().decode("latin1")
        if len(t) > (6000 if q else 40000): continue
        class E: fu = fz = False; fB = os.path.basename(f).startswith("btyacc")
        add("f-" + os.path.basename(f), t, E, False)
    c.conform(jobs, "ByaccReaderTrace")

"""C02: byacc resolves and accounts for conflicts as declared."""
import byjobs, corpus, gram

RULE = "a case is one run of the real byacc, compared cell by cell with the conflict resolution of the specification; distinct by source text and options"

def accept_reduce():
    s = gram.parse_text("%token A\n%%\ns : s | A ;")
    return s

def run(c):
    n = 1300 if c.quick else 12000
    srcs = byjobs.mix(c.rng, n, ["expr", "rr", "expr", "rand", "rr", "layer", "expr", "tiny"])
    jobs = []
    for i, s in enumerate(srcs):
        c.nontrivial(s.key())
        jobs.append(byjobs.job("g%d-%s" % (i, s.tag), s, "n" if i % 4 == 3 and not s.fB else "bt"))
    # every combination of operator declarations over two operators and a unary one
    k = 0
    import itertools
    kinds = ["left", "right", "nonassoc", "token"]
    for a, b, u in itertools.product(kinds, kinds, kinds):
        for same in (0, 1, 2):
            decl = {0: [(a, ["A"]), (b, ["B"]), (u, ["U"])], 1: [(u, ["U"]), (b, ["B"]), (a, ["A"])], 2: [(a, ["A", "B"]), (u, ["U"])]}[same]
            if same == 2 and b != a: continue
            for unary in ("U", ""):
                s = gram.Src(decl + [("token", ["N"])], [("e", ["e", "A", "e"], ""), ("e", ["e", "B", "e"], ""), ("e", ["A", "e"], unary), ("e", ["e", "e", "B"], unary), ("e", ["N"], "")])
                s.fz = k % 5 == 1; s.fu = k % 11 == 3; s.fB = k % 7 == 2
                if k % 3 == 0: s.sr = k % 4
                k += 1
                c.nontrivial(s.key())
                jobs.append(byjobs.job("op%d" % k, s))
    for name, s in corpus.grammars():
        if not byjobs.ok(s): continue
        for j, (u, z) in enumerate([(False, False), (True, False), (False, True)]):
            t = gram.Src(s.decl, s.rules, s.sr, s.rr, fu=u, fz=z)
            c.nontrivial(t.key()); jobs.append(byjobs.job("corpus-%s-%d" % (name, j), t))
    jobs.append(byjobs.job("accept-reduce", accept_reduce(), known="accept-reduce"))
    jobs.append(byjobs.job("nonassoc-default", gram.parse_text("%nonassoc '<'\n%%\ns : e ; e : e '<' e | 'n' ;"), known="nonassoc-default", strict=True))
    c.conform(jobs, "ByaccTrace")

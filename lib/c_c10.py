"""C10: lemon resolves and accounts for every conflict as declared."""
import itertools
import lgram, lemon, gram, c_c09

RULE = "a case is one grammar run through the real lemon, compared cell by cell (kept, dropped and conflicting actions), count by count and message by message with the resolution TLC computes; distinct by source text and options"
TAGS = {"rules", "states", "conflicts", "conflict-kinds", "conflict-message", "unreducible", "exit", "resolve-reduce", "nonassoc", "table-action"}

def run(c):
    n = 900 if c.quick else 9000
    srcs = lgram.mix(c.rng, n, ["expr", "rr", "expr", "rand", "rr", "layer", "expr", "tiny"], p_multi=.3)
    kinds = ["left", "right", "nonassoc", "precedence", "token"]
    k = 0
    for a, b, u in itertools.product(kinds, kinds, kinds):
        for same in (0, 1, 2):
            if same == 2 and b != a: continue
            if c.quick and same != 2 and k % 2 and a != u: k += 1; continue
            decl = {0: [(a, ["A"]), (b, ["B"]), (u, ["U"])], 1: [(u, ["U"]), (b, ["B"]), (a, ["A"])], 2: [(a, ["A", "B"]), (u, ["U"])]}[same]
            for unary in ("U", ""):
                rules = [("s", ["e"], "", True), ("e", ["e", "A", "e"], "", k % 2 == 0), ("e", ["e", "B", "e"], "", True), ("e", ["A", "e"], unary, k % 3 == 0),
                         ("e", ["e", "e", "B"], unary, True), ("e", ["N"], "", k % 4 == 1)]
                if k % 5 == 2: rules[1:3] = [("e", ["e", "A|B", "e"], "", True)]
                if k % 7 == 3: rules.append(("e", ["f", "B"], "", True)); rules.append(("f", ["N"], "A" if k % 2 else "U", False))
                s = lgram.LSrc(decl + [("token", ["N"])], rules, tag="op%d" % k)
                s.fz = k % 5 == 1; s.zdir = k % 2 == 1; s.fu = k % 11 == 3
                if k % 3 == 0: s.expect = k % 4
                k += 1
                srcs.append(s)
    srcs += c_c09.from_corpus(c)
    for t in c_c09.from_corpus(c):
        for fu, fz in ((True, False), (False, True)):
            s = lgram.LSrc(t.decl, t.rules, t.expect, fu, fz, tag=t.tag)
            srcs.append(s)
    jobs = []
    for i, s in enumerate(srcs):
        c.nontrivial(s.key())
        jobs.append(lemon.job("g%d-%s" % (i, s.tag), s, optsets=(("-c",),)))
    c.conform(jobs, "LemonTrace", TAGS)

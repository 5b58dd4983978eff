"""C06: byacc reports and headers describe the parser actually generated."""
import byjobs, corpus, yrep

RULE = "a case is one run of the real byacc with -v (and -g, -d, -i, -r, -s, -H, -p, ... in combinations) on a grammar; report, graph, header and name tables are compared with the generated tables and with the automaton TLC constructs; distinct by source text"

def run(c):
    q = c.quick
    srcs = byjobs.mix(c.rng, 1300 if q else 8000, ["rand", "rr", "expr", "null", "rand", "layer", "expr", "tiny"])
    srcs = [yrep.exotic(c.rng, s) if i % 3 == 0 else s for i, s in enumerate(srcs)]
    srcs += byjobs.sizes(c.rng, True)
    srcs += [s for n, s in corpus.grammars() if byjobs.ok(s) and len(s.rules) <= (90 if q else 400)]
    jobs = []
    for i, s in enumerate(srcs):
        if not byjobs.ok(s): continue
        c.nontrivial(s.key())
        jobs.append(yrep.job("p%d-%s" % (i, s.tag), s, yrep.options(c.rng), "n" if i % 4 == 3 and not s.fB else "bt"))
    c.conform(jobs, "ByaccReport")

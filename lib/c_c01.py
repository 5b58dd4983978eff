"""C01: byacc builds exactly the LALR(1) automaton."""
import byjobs, corpus

RULE = "a case is one run of the real byacc on a generated or corpus grammar, compared state by state (by kernel) with the automaton TLC constructs; distinct by source text"
TAGS = {"rules", "states", "shift", "reduce", "goto", "accept", "default", "nulls", "report-totals", "stats", "stats-shown",
        "table-action", "table-goto", "table-final", "table-len", "table-lhs"}

def run(c):
    c.theory("LRTheory", cfg="LRTheory.cfg" if c.quick else "LRTheory4.cfg", timeout=800 if c.quick else 5000)
    n = 900 if c.quick else 8000
    srcs = byjobs.mix(c.rng, n, ["rand", "null", "tiny", "layer", "rand", "rr", "expr"]) + byjobs.sizes(c.rng, c.quick)
    jobs = []
    for i, s in enumerate(srcs):
        c.nontrivial(s.key())
        jobs.append(byjobs.job("g%d-%s" % (i, s.tag), s, "n" if i % 4 == 3 and not s.fB else "bt"))
    for name, s in corpus.grammars():
        if byjobs.ok(s):
            c.nontrivial(s.key()); jobs.append(byjobs.job("corpus-" + name, s))
    c.conform(jobs, "ByaccTrace", TAGS)

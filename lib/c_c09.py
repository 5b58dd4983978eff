"""C09: lemon builds exactly the LALR(1) automaton."""
import lgram, lemon, gram, corpus

RULE = "a case is one grammar run through the real lemon under several option sets and compared state by state with the automaton TLC constructs; distinct by source text"
TAGS = {"rules", "states", "reduce", "shift", "goto", "accept", "items", "item-rule", "symbols", "stats", "extra-action", "unknown-symbol", "header", "defines"}

def from_corpus(c):
    out = []
    for name, s in corpus.grammars():
        t = lgram.from_src(s, c.rng); t.tag = "corpus-" + name
        if lgram.valid(t): out.append(t)
    return out

def run(c):
    c.theory("LRTheory", cfg="LRTheory.cfg")
    n = 700 if c.quick else 7000
    srcs = lgram.mix(c.rng, n, ["rand", "null", "tiny", "layer", "rand", "rr", "expr"], p_multi=.3) + lgram.sizes(c.rng, c.quick) + from_corpus(c)
    jobs = []
    for i, s in enumerate(srcs):
        c.nontrivial(s.key())
        jobs.append(lemon.job("g%d-%s" % (i, s.tag), s, optsets=(("-c",),)))
    c.conform(jobs, "LemonTrace", TAGS)

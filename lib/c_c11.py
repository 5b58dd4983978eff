"""C11: lemon's tables and options never change what the parser does."""
import lgram, lemon, gram, lrt, c_c09

RULE = "a case is one grammar under several option sets: every decision decoded from the packed tables is compared with the automaton TLC constructs, and the reductions of the compiled parsers on every input script with the machine TLC runs on that automaton; distinct by source text"
TAGS = {"table-states", "table-start", "table-nstate", "table-action", "table-goto", "table-error", "table-accept", "table-rules", "table-counts", "table-wildcard",
        "table-errsym", "table-fallback", "run-crash", "run-actions", "lang"}

def run(c):
    q = c.quick
    srcs = lgram.mix(c.rng, 420 if q else 4000, ["rand", "null", "layer", "expr", "rand", "rr", "tiny"], p_multi=.3, p_err=.06) + lgram.sizes(c.rng, q) + c_c09.from_corpus(c)
    jobs = []
    for i, s in enumerate(srcs):
        c.nontrivial(s.key())
        jobs.append(lemon.job("t%d-%s" % (i, s.tag), s, optsets=((), ("-r",), ("-c", "-r"))))
    c.conform(jobs, "LemonTrace", TAGS)
    srcs = lgram.mix(c.rng, 330 if q else 3500, ["rand", "null", "tiny", "layer", "expr", "rand", "rr"], p_multi=.3, p_err=.04)
    for s in srcs: c.nontrivial("run" + s.key())
    c.conform(lrt.cases(c.rng, srcs, 22, opts=True, depths=False), "LemonRunTrace", TAGS)

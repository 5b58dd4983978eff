"""C13: lemon runs each destructor exactly once for every value it discards."""
import lgram, lrt, c_c12

RULE = "a case is one grammar dressed with types, labels and destructors under three option sets; every value made, handed to an action and destroyed by the compiled parsers (address-sanitised in one build) is compared with the machine TLC runs, on which TLC checks that every value ends in exactly one place; distinct by source text and dressing"
TAGS = {"run-crash", "run-destructors", "run-actions"}

def run(c):
    q = c.quick
    srcs = lgram.mix(c.rng, 480 if q else 5000, ["layer", "expr", "rand", "null", "tiny", "rr"], p_multi=.35)
    srcs = c_c12.with_errors(c.rng, srcs[:len(srcs) // 2]) + srcs[len(srcs) // 2:]
    for s in srcs: c.nontrivial(s.key())
    c.conform(lrt.cases(c.rng, srcs, 24), "LemonRunTrace", TAGS)

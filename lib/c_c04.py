"""C04: byacc-generated parsers recover from errors as documented."""
import byjobs, gram, yrt

RULE = "a case is one grammar with error productions, destructors and actions that use yyerrok, yyclearin, YYERROR, YYABORT and YYACCEPT, generated in three ways and run on damaged inputs (several parses in a row); every message, discarded value, action and result is compared with the machine TLC runs; distinct by source text"
TAGS = {"run-crash", "run-errors", "run-outcome", "run-destructors", "run-order", "run-events"}

def run(c):
    q = c.quick
    srcs = byjobs.mix(c.rng, 330 if q else 4500, ["layer", "rand", "expr", "null", "tiny", "layer", "rr"])
    srcs = [yrt.with_errors(c.rng, s, .8) for s in srcs]
    srcs = [s for s in srcs if byjobs.ok(s)]
    for s in srcs: c.nontrivial(s.key())
    k = len(srcs) // 2
    jobs = yrt.cases(c.rng, srcs[:k], None, nscripts=16, damage=.8, specials=.0)
    jobs += yrt.cases(c.rng, srcs[k:], None, nscripts=16, damage=.7, specials=.25, tag="sp")
    jobs += yrt.deep(c.rng, 5 if q else 40)
    c.conform(jobs, "YaccRunTrace", TAGS)

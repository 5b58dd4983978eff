"""C03: byacc-generated parsers run the right actions with the right values."""
import byjobs, corpus, gram, yrt

RULE = "a case is one grammar with dressed actions (types, $$, $n, $0, @n, mid-rule actions), generated in three ways (options, skeletons, sizes) and run on scripts of inputs; every token request, action with its arguments and result is compared with the machine TLC runs; distinct by source text"
TAGS = {"run-crash", "run-actions", "run-lexer", "run-outcome", "run-order", "case-tokens", "case-rules"}

def full_stack(rng):
    """An empty rule reduced with locations when the stack is exactly full."""
    s = gram.Src([("token", ["A", "B"])], [("s", ["A", "e", "s"], ""), ("s", ["B"], ""), ("e", [], "")], tag="fullstack")
    while True:
        dr = yrt.Dress(s, rng, des=False, under=0, attrs=0)
        if dr.loc: break
    b = yrt.build_(rng, True, False, True, sizes=False)
    b["defs"]["YYINITSTACKSIZE"] = 2
    return yrt.job("full-stack-locations", dr, [b], [[[2, 3]], [[2, 2, 3]]], known="full-stack-locations")

def run(c):
    q = c.quick
    srcs = byjobs.mix(c.rng, 330 if q else 4000, ["rand", "expr", "layer", "null", "tiny", "expr", "layer", "rr"])
    big = [s for name, s in corpus.grammars() if byjobs.ok(s) and len(s.rules) <= (60 if q else 200)]
    c.rng.shuffle(big)
    if q: big = big[:14]
    for s in big: s.tag = "corpus"
    for s in srcs + big: c.nontrivial(s.key())
    jobs = yrt.cases(c.rng, srcs, None, nscripts=12 if q else 16, damage=.25)
    jobs += yrt.cases(c.rng, big, None, nscripts=6 if q else 16, builds=2, damage=.3, tag="corpus")
    jobs += yrt.deep(c.rng, 6 if q else 60)
    jobs.append(full_stack(c.rng))
    c.conform(jobs, "YaccRunTrace", TAGS)

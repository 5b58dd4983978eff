"""C12: lemon-generated parsers handle errors, fallback and wildcard as specified."""
import lgram, lrt

RULE = "a case is one grammar under three option sets with damaged, truncated, overlong and successive inputs; every token, reduction, message, acceptance, failure and overflow of the compiled parsers is compared with the machine TLC runs; distinct by source text"
TAGS = {"run-crash", "run-errors", "run-outcome", "run-order", "lang", "table-fallback", "table-wildcard", "table-errsym"}

def with_errors(rng, srcs):
    """Error productions in most of the grammars."""
    out = []
    for s in srcs:
        T, N = s.symbols()
        if "error" not in N and rng.random() < .6:
            rules = list(s.rules)
            for _ in range(rng.choice([1, 1, 2])):
                l = rng.choice([r[0] for r in rules])
                tail = rng.choice([[], [rng.choice(T)], [rng.choice(T)], [rng.choice([x for x in N if x != "error"] or T)]])
                rules.insert(rng.randrange(len(rules) + 1), (l, (["error"] if rng.random() < .7 else [rng.choice(T), "error"]) + tail, "", True))
            t = lgram.LSrc(s.decl, rules, s.expect, s.fu, s.fz, s.prefix, s.tag); t.zdir = s.zdir
            if lgram.valid(t): s = t
        out.append(s)
    return out

def more(rng, srcs):
    for s in srcs:
        T, N = s.symbols()
        have = {d for d, _ in s.decl}
        if len(T) > 2 and "fallback" not in have and rng.random() < .4: s.decl.append(("fallback", rng.sample(T, 2)))
        if len(T) > 2 and "wildcard" not in have and rng.random() < .3: s.decl.append(("wildcard", [rng.choice(T)]))
    return [s for s in srcs if lgram.valid(s)]

def run(c):
    q = c.quick
    srcs = lgram.mix(c.rng, 480 if q else 5000, ["layer", "tiny", "expr", "rand", "null", "rr"], p_multi=.2)
    srcs = more(c.rng, with_errors(c.rng, srcs))
    for s in srcs: c.nontrivial(s.key())
    c.conform(lrt.deep(c.rng, 3 if q else 12) + lrt.cases(c.rng, srcs, 26), "LemonRunTrace", TAGS)

"""C17: byacc and lemon agree on a grammar carried from one to the other."""
import byacc, byjobs, cross, exports, gram, lemon, lgram

RULE = "a case is one grammar given to one tool, converted by it (byacc -E; lemon -y, -Y) and given to the other; TLC explores the pairs of states the two real machines reach together and compares what both do on every symbol, then counts"

def run(c):
    n = 320 if c.quick else 5000
    jobs = []
    for i, s in enumerate(byjobs.mix(c.rng, n, ["rand", "rr", "expr", "tiny", "expr", "rr", "null", "rr", "layer"])):
        s.fB = False
        s.fz = c.rng.random() < .5
        if any("{}" in r for _, r, _ in s.rules): continue
        if c.rng.random() < .6: s = exports.respell(c.rng, s)
        s = cross.no_goal_inside(c.rng, s)
        if not byjobs.ok(s) or not exports.apart(s) or not any(x not in s.lhss() for _, r, _ in s.rules for x in r): continue
        if c.nontrivial(s.key()): jobs.append(cross.to_lemon("b%d-%s" % (i, s.tag), s, byacc.render(s, marks=c.rng)))
    for i in range(n // 5):
        s = cross.gen_rrprec(c.rng); s.fz = c.rng.random() < .8; s.tag = "rrp"
        if c.rng.random() < .7:
            if c.nontrivial(s.key()): jobs.append(cross.to_lemon("r%d-rrp" % i, s, byacc.render(s, marks=c.rng)))
        else:
            t = lgram.from_src(s, c.rng); t.fz = not s.fz; how = "y" if s.fz else "Y"
            if lgram.valid(t) and c.nontrivial(how + t.key()): jobs.append(cross.to_byacc("r%d%s-rrp" % (i, how), t, lemon.render(t, c.rng), how))
    for i, s in enumerate(lgram.mix(c.rng, n, ["rand", "rr", "expr", "tiny", "expr", "null", "layer"], p_err=0, p_multi=.12, wild=False)):
        multi = bool(s.classes())
        if multi and s.fz: s.fz = False
        hows = "Y" if s.fz or multi else c.rng.choice("yYY")
        for how in hows:
            if c.nontrivial(how + s.key()): jobs.append(cross.to_byacc("l%d%s-%s" % (i, how, s.tag), s, lemon.render(s, c.rng), how))
    t = gram.parse_text("%nonassoc '<'\n%%\ns : e ; e : e '<' e | 'n' ;")
    jobs.append(cross.to_lemon("nonassoc-default", t, byacc.render(t), known="nonassoc-default", strict=True))
    c.conform(jobs, "CrossTrace")

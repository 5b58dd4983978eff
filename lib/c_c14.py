"""C14: lemon's grammar exports preserve the grammar."""
import exports, lemon, lgram

RULE = "a case is one grammar and what lemon printed for it with -g, -y, -Y and -S (the tables and the grammar their view prints); TLC reads the exports character by character and compares what each says with the grammar; what lemon makes of its own reprints is compared too"

def run(c):
    n = 420 if c.quick else 6000
    jobs = []
    for i, s in enumerate(lgram.mix(c.rng, n, ["rand", "rr", "expr", "tiny", "rand", "null", "layer"], p_multi=.25)):
        t = lemon.render(s, c.rng)
        if c.rng.random() < .4: t = "%stack_size " + c.rng.choice(["50", "0", "1000", "{20}"]) + "\n" + t
        if c.nontrivial(repr((s.decl, s.rules, s.fu, s.fz))): jobs.append(exports.lemon_job("x%d-%s" % (i, s.tag), s, t))
    c.conform(jobs, "LemonExportTrace")

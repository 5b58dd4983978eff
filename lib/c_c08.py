"""C08: byacc's grammar converters preserve the grammar."""
import byacc, byjobs, exports

RULE = "a case is one grammar and what each converter (-n -N -E -S with its view, -e -c -C) wrote for it; TLC reads the exports in byacc's and lemon's notation character by character and compares what every export says with the grammar; the tools' own results on the exports are compared too"

def run(c):
    n = 420 if c.quick else 6000
    jobs = []
    for i, s in enumerate(byjobs.mix(c.rng, n, ["rand", "rr", "expr", "tiny", "rand", "null", "layer", "mids"])):
        s.fB = False
        if c.rng.random() < .7: s = exports.respell(c.rng, s)
        if not byjobs.ok(s) or not exports.apart(s): continue
        if c.nontrivial(s.key()): jobs.append(exports.byacc_job("x%d-%s" % (i, s.tag), s, variant="bt" if c.rng.random() < .8 else "n", text=byacc.render(s, marks=c.rng)))
    for i, s in enumerate(byjobs.mix(c.rng, 40 if c.quick else 400, ["rand", "expr", "tiny"])):
        s = exports.lengthen(c.rng, s)
        if byjobs.ok(s) and c.nontrivial(s.key()): jobs.append(exports.byacc_job("l%d-%s" % (i, s.tag), s, kinds="nNSe"))
    c.conform(jobs, "ByaccExportTrace")

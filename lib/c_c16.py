"""C16: lemon reads a grammar file into the grammar and codes it denotes."""
import lgram, lread

RULE = "a case is one file: a grammar laid out in one of its many spellings, or such a file damaged at character or token level; TLC reads the file character by character with the preprocessor and reader machines of LemonPre and LemonReader and the real lemon's rules, symbols, codes, complaints, automaton and tables must agree with the grammar the file denotes"

def run(c):
    q = c.quick
    srcs = lgram.mix(c.rng, 1100 if q else 14000, ["rand", "rr", "expr", "tiny", "rand", "null", "layer"], p_multi=.3)
    jobs = []
    for i, s in enumerate(srcs):
        t = lread.layout(c.rng, s)
        fz = s.fz and not s.zdir
        if c.rng.random() < .5: jid, whole = "w%d-%s" % (i, s.tag), True
        else: jid, whole, t = "m%d-%s" % (i, s.tag), False, lread.mutate(c.rng, t)
        t = t.replace("\0", "")
        if len(t) < 4000 and c.nontrivial(t): jobs.append(lread.job(jid, t, s.fu, fz, whole))
    c.conform(jobs, "LemonReaderTrace")

"""Compile and drive lemon-generated parsers: actions, labels, destructors, input scripts, event logs."""
import os, random, re, shutil, subprocess, tempfile
import build, gram, harness, lemon, lgram

PRELUDE = r"""%include {
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <assert.h>
typedef struct { long pad; int id; } SV;
typedef struct { int id; double d; } TV;
static int nev, nextid;
static void out(void){ if( ++nev>20000 ){ printf("!limit\n"); fflush(stdout); _exit(66); } }
static void dtor(int k, int v){ printf("D %d %d\n",k,v); out(); }
static SV mkS(int i){ SV s; s.pad = -7; s.id = i; return s; }
static int sv_id(SV *p){ return p->id; }
static int tv_id(TV *p){ return p->id; }
static int int_id(int *p){ return *p; }
static int long_id(long *p){ return (int)*p; }
#define IDOF(x) (_Generic(&(x), SV*: sv_id, TV*: tv_id, int*: int_id, long*: long_id)(&(x)))
static TV mkT(int i){ TV s; s.d = 2.5; s.id = i; return s; }
#include <unistd.h>
}
"""
MAIN = r"""
%%code {
static char line[65536];
int main(void){
  while( fgets(line,sizeof line,stdin) ){
    int n = 0; char *p = line;
    %(alloc)s
    printf("I\n"); nextid = 1000; nev = 0;
    while( *p && *p!='\n' ){
      int t = (int)strtol(p,&p,10); while( *p==' ' ) p++;
      n++; printf("T %%d\n", t); fflush(stdout); out();
      { %(tok)s Parse(q, t, v%(arg)s); }
    }
    printf("Z\n"); out();
    %(free)s
    fflush(stdout);
  }
  printf("END\n");
  return 0;
}
}
"""
TYPES = {"int": ("%s", "%s = %d", "{T}"), "SV": ("%s.id", None, None), "TV": ("%s.id", None, None)}
def get(ty, x): return x if ty in ("int", "long") else x + ".id"
def mk(ty, e): return {"int": "(%s)", "long": "(long)(%s)", "SV": "mkS(%s)", "TV": "mkT(%s)"}[ty] % e

class Dress:
    """How a grammar is dressed with values: types, labels, destructors, engine options."""
    def __init__(self, s, rng, err_ok=True):
        self.s, T_N = s, s.symbols()
        self.T, self.N = T_N
        cls = s.classes()
        self.toktype = rng.choice(["int", "int", "SV", "TV", "long"])
        self.deftype = rng.choice([None, "int", "SV", "TV", self.toktype])
        self.tokdes = rng.random() < .75
        self.defdes = 1 if rng.random() < .3 else 0
        L, goal = s.lhss(), s.goal()
        cand = [n for n in self.N if n in L and n != goal]
        self.valued = {n for n in cand if rng.random() < .8}
        if self.defdes: self.valued = set(cand)
        self.type, self.des = {}, {}
        for n in cand:
            if rng.random() < .5: self.type[n] = rng.choice(["int", "SV", "TV", "long"])
            if n in self.valued and rng.random() < .45: self.des[n] = 1
        if self.defdes and goal in L:      # the goal's own value is dropped by accepting
            pass
        # labels
        self.rules = []      # per rule (code, lhs label or '', [rhs labels or ''], style)
        rules = []
        for l, r, p, c in s.rules:
            need = l in self.valued
            code = c or need
            lab = [""] * len(r)
            if code:
                for j, x in enumerate(r):
                    ok = x[0].isupper() or x in cls or x in self.valued
                    if x != "error" and ok and rng.random() < .65: lab[j] = "x%d" % j if rng.random() < .5 else "L%d" % j
            ll = "a" if need else ""
            style = "plain"
            if ll and r and lab[0]:
                k = rng.random()
                if k < .2 and self.ty(l) == self.ty(r[0]): lab[0] = "a"; style = "same"
                elif k < .45: style = "over"
            rules.append((l, r, p, code)); self.rules.append((code, ll, lab, style))
        self.s = s2 = lgram.LSrc(s.decl, rules, s.expect, s.fu, s.fz, s.prefix, s.tag)
        s2.zdir = s.zdir
        self.heap = rng.random() < .4
        self.arg = rng.choice(["", "", "arg", "ctx"])
        self.desname = {}
        for i, n in enumerate(sorted(self.des)):
            mates = [m for m in self.desname if get(self.ty(m), "$$") == get(self.ty(n), "$$")]
            self.desname[n] = self.desname[rng.choice(mates)] if mates and rng.random() < .35 else 10 + i     # the same destructor text
        self.rng = rng

    def ty(self, x):
        if x[0].isupper() or x in self.s.classes(): return self.toktype
        return self.type.get(x) or self.deftype or self.toktype

    def info(self):
        return {"rules": [{"ll": bool(ll), "lab": [bool(x) for x in lab]} for _, ll, lab, _ in self.rules],
                "des": [{"n": n, "k": k} for n, k in sorted(self.desname.items())] ,
                "tokdes": 1 if self.tokdes else 0, "defdes": 2 if self.defdes else 0}

    def text(self, depth=None, norec=False):
        o = [PRELUDE]
        if norec: o.append("%include {\n#define YYNOERRORRECOVERY 1\n}")
        o.append("%%token_type {%s}" % self.toktype)
        if self.deftype: o.append("%%default_type {%s}" % self.deftype)
        if depth is not None: o.append("%%stack_size %d" % depth)
        if self.arg == "arg": o.append("%extra_argument {int *ex}")
        if self.arg == "ctx": o.append("%extra_context {int *ex}")
        if self.tokdes: o.append("%%token_destructor { dtor(1,(int)%s); }" % get(self.toktype, "$$"))
        if self.defdes: o.append("%default_destructor { dtor(2,IDOF($$)); }")
        use = "if( !ex || *ex!=77 ) printf(\"!extra\\n\");" if self.arg else ""
        o.append("%%syntax_error { printf(\"E %%d %%d\\n\", yymajor, (int)%s); out(); %s }" % (get(self.toktype, "TOKEN"), use))
        o.append("%%parse_accept { printf(\"A\\n\"); out(); %s }" % use)
        o.append("%%parse_failure { printf(\"F\\n\"); out(); %s }" % use)
        o.append("%%stack_overflow { printf(\"O\\n\"); out(); %s }" % use)
        def action(i):
            l, r = self.s.rules[i][0], self.s.rules[i][1]
            _, ll, lab, style = self.rules[i]
            named = [j for j in range(len(r)) if lab[j]]
            args = "".join(", (int)%s" % get(self.ty(r[j]), lab[j]) for j in named)
            fmt = " %d" * len(named)
            chk = "".join(" if( @%s!=%d ) printf(\"!major\\n\");" % (lab[j], self.code(r[j])) for j in named if r[j] in self.T and j % 2 == 0 and style == "plain" and not self.mixed())
            if not ll: return "{ printf(\"R %d 0%s\\n\"%s); out();%s %s }" % (i + 1, fmt, args, chk, use)
            pr = "printf(\"R %d %%d%s\\n\", ++nextid%s); out();" % (i + 1, fmt, args)
            st = "a = %s;" % mk(self.ty(l), "nextid")
            if style == "over": return "{ %s /*a-overwrites-%s*/ %s }" % (pr, lab[0], st)
            return "{ %s%s %s }" % (pr, chk, st)
        body = lemon.render(self.s, actions=lambda i: action(i)[1:-1], labels=lambda i, p: (self.rules[i][1] if p < 0 else self.rules[i][2][p]) or None)
        o.append(body)      # (the directives that follow mention symbols: their order must not matter)
        for n, t in sorted(self.type.items()): o.append("%%type %s {%s}" % (n, t))
        for n, k in sorted(self.desname.items()): o.append("%%destructor %s { dtor(%d,(int)%s); }" % (n, k, get(self.ty(n), "$$")))
        tok = {"int": "int v = n;", "long": "long v = n;", "SV": "SV v = mkS(n);", "TV": "TV v = mkT(n);"}[self.toktype]
        ctx = ", &seven" if self.arg == "ctx" else ""
        if self.heap:
            alloc = "static int seven = 77; void *q = ParseAlloc(malloc%s);" % ctx; free = "ParseFree(q, free);"
        else:
            alloc = "static int seven = 77; yyParser stk; void *q = &stk; memset(&stk,0x5a,sizeof stk); ParseInit(q%s);" % ctx; free = "ParseFinalize(q);"
        o.append(MAIN % {"alloc": alloc, "free": free, "tok": tok, "arg": ", &seven" if self.arg == "arg" else ""})
        return "\n".join(o)

    def code(self, t): return self.T.index(t) + 1
    def mixed(self):
        return any(k in ("fallback", "wildcard") for k, _ in self.s.decl)

def parse_log(text, rc, nscripts):
    runs, cur = [], None
    for l in text.split("\n"):
        if l == "I":
            cur = {"ev": [], "ds": [[]], "bad": ""}; runs.append(cur); continue
        if not l or l == "END" or cur is None: continue
        if l.startswith("!"): cur["bad"] = cur["bad"] or l; continue
        w = l.split(" ")
        if w[0] == "D": cur["ds"][-1].append([int(w[1]), int(w[2])]); continue
        if w[0] in ("T", "Z"): cur["ds"].append([])
        cur["ev"].append({"k": w[0], "a": [int(x) for x in w[1:]]})
    if rc != 0 or not text.rstrip().endswith("END"):
        if not runs: runs.append({"ev": [], "ds": [[]], "bad": ""})
        runs[-1]["bad"] = runs[-1]["bad"] or "exit status %s" % rc
    while len(runs) < nscripts: runs.append({"ev": [], "ds": [[]], "bad": "not reached"})
    return runs

def scripts(s, rng, n, T):
    """Input scripts: short exhaustive ones, sentences, damaged sentences, reuse after the end."""
    import itertools
    src = s.plain()
    codes = {t: i + 1 for i, t in enumerate(T)}
    out = []
    k = len(T)
    L = 2 if k <= 4 else 1
    for length in range(0, L + 1):
        for c in itertools.product(range(1, k + 1), repeat=length): out.append(list(c) + [0])
    rng.shuffle(out)
    out = out[:max(4, n // 4)]
    sent = [[codes[t] for t in w if t in codes] for w in sentences(src, rng, n)]
    for w in sent:
        r = rng.random()
        w = list(w)
        if r < .5: pass
        elif r < .9:
            for _ in range(rng.choice([1, 1, 2, 3])):
                x = rng.random()
                i = rng.randrange(len(w) + 1)
                if x < .35 and w: del w[i % len(w)]
                elif x < .75: w.insert(i, rng.randrange(1, k + 1))
                elif w: w[i % len(w)] = rng.randrange(1, k + 1)
        else: w = [rng.randrange(1, k + 1) for _ in range(rng.randrange(1, 9))]
        if rng.random() < .93: w = w + [0]
        if rng.random() < .25:
            w = w + list(rng.choice(sent)) + ([0] if rng.random() < .8 else [])
        out.append(w)
    seen, res = set(), []
    for w in out:
        if len(w) > 60: w = w[:60]
        if tuple(w) not in seen: seen.add(tuple(w)); res.append(w)
    return res[:n]

def sentences(src, rng, n, maxlen=24):
    """Random derivations (choice of inputs only)."""
    L = src.lhss()
    by = {}
    for l, r, _ in src.rules: by.setdefault(l, []).append([x for x in r if not gram.mark(x)])
    INF = 10 ** 6
    cost = {l: INF for l in L}
    ch = True
    while ch:
        ch = False
        for l, rs in by.items():
            for r in rs:
                c = 1 + sum(1 if x not in L else cost[x] for x in r)
                if "error" in r: c += 50
                if c < cost[l]: cost[l] = c; ch = True
    if cost[src.start()] >= INF: return [[]]
    out = []
    for _ in range(n):
        budget = rng.choice([6, 10, 16, 24, 40])
        w, st, steps = [], [src.start()], 0
        while st and len(w) < maxlen * 2 and steps < 600:
            steps += 1
            x = st.pop()
            if x not in L:
                if x != "error": w.append(x)
                continue
            rs = by[x]
            if steps + sum(1 for y in st) > budget: r = min(rs, key=lambda r: sum(1 if y not in L else cost[y] for y in r) + (99 if "error" in r else 0))
            else: r = rng.choice(rs)
            st.extend(reversed(r))
        out.append(w)
    return out

def compile_c(cc, src, exe, san, defs=()):
    flags = ["-w", "-O0"] + (["-fsanitize=address,undefined", "-fno-sanitize-recover=undefined", "-g1"] if san else []) + list(defs)
    r = build.run([cc] + flags + ["-o", exe, src], timeout=120)
    if r.returncode: raise RuntimeError("the generated parser does not compile: " + r.stdout[-1500:])

def observe(d, dress, builds, scr, cc="gcc"):
    """builds: list of (name, options, depth, norec, san)"""
    out = []
    s = dress.s
    flags = (["-u"] if s.fu else []) + (["-z"] if s.fz and not s.zdir else [])
    inp = "".join(" ".join(map(str, w)) + "\n" for w in scr)
    report = None
    for name, opts, depth, norec, san in builds:
        if "-q" in opts and report is None:
            with open(os.path.join(d, "g.yl"), "w") as f: f.write(dress.text(depth, norec))
            lemon.run(build.lemon(), ["-T" + build.TEMPLATE] + flags + [o for o in opts if o != "-q"] + ["g.yl"], d)
            report = open(os.path.join(d, "g.out"), errors="replace").read()
            for f in os.listdir(d): os.remove(os.path.join(d, f))
        with open(os.path.join(d, "g.yl"), "w") as f: f.write(dress.text(depth, norec))
        rc, so, se = lemon.run(build.lemon(), ["-T" + build.TEMPLATE] + flags + list(opts) + ["g.yl"], d)
        c = open(os.path.join(d, "g.c"), errors="replace").read()
        q = lemon.parse_out(open(os.path.join(d, "g.out"), errors="replace").read()) if os.path.exists(os.path.join(d, "g.out")) else lemon.parse_out(report)
        exe = os.path.join(d, "p")
        if "-m" in opts: open(os.path.join(d, "g.h"), "w").close()      # what makeheaders would write is not needed by one file
        compile_c(cc, os.path.join(d, "g.c"), exe, san, ["-I" + d] + (["-DINTERFACE=1"] if "-m" in opts else []))
        prc, log, err = build.contained([exe], input=inp, timeout=30)
        tb = lemon.parse_tables(c)
        out.append({"n": name, "exact": "-c" in opts, "tb": tb, "states": [{"n": x["n"], "items": x["items"]} for x in (q["states"] if q else [])],
                    "depth": tb["stack"] if tb["stack"] > 0 else 0, "norec": norec, "runs": parse_log(log, prc, len(scr)), "stderr": err[-600:]})
        for f in os.listdir(d): os.remove(os.path.join(d, f))
    return out

def job(jid, dress, builds, scr, known=None):
    def observe_():
        d = tempfile.mkdtemp(dir=build.scratch())
        try: return {"builds": observe(d, dress, builds, scr)}
        finally: shutil.rmtree(d, ignore_errors=True)
    return harness.Job(jid, "LemonRunTrace", observe_, {"src": dress.s.json(), "info": dress.info(), "scripts": scr}, known)

OPTS = [("-l",), ("-m",), ("-p",), ("-s",), ("-q",), ("-l", "-p"), ("-c", "-r"), ("-r", "-q"), ("-c", "-l", "-s")]
def cases(rng, srcs, nscripts=24, opts=False, depths=True, per=24, dyn=.12):
    """Dressed grammars with builds and scripts."""
    jobs = []
    for i, s in enumerate(srcs):
        if s.plain().cyclic(): continue
        dr = Dress(s, rng)
        if not lgram.valid(dr.s): continue
        T, N = dr.s.symbols()
        norec = rng.random() < .1 and "error" not in N
        d1 = rng.choice([None, None, 4, 6, 9]) if depths else None
        d2 = rng.choice([5, 8, 60]) if depths else 60
        builds = [("-c", ("-c",), d1 or 60, norec, False), ("def", ("-l",) if rng.random() < .3 else (), d2, norec, False), ("-r", ("-r",), 60, norec, True)]
        if opts:
            o = rng.choice(OPTS)
            builds.append(("".join(o), o, 60, norec, False))
        if rng.random() < dyn and all(r for _, r, _, _ in dr.s.rules): builds[-1] = builds[-1][:2] + (0,) + builds[-1][3:]
        jobs.append(job("g%d-%s" % (i, s.tag), dr, builds, scripts(dr.s, rng, nscripts, T)))
    return jobs

def deep(rng, n=3):
    """Stacks around the default depth, around the growth points of the dynamic one, and around small limits."""
    jobs = []
    for i in range(n):
        s = lgram.LSrc([("token", ["A", "B", "C"])], [("goal", ["s"], "", True), ("s", ["A", "s"], "", True), ("s", ["B"], "", True), ("s", ["C", "e", "s"], "", True), ("e", [], "", True)], tag="deep")
        dr = Dress(s, rng)
        scr = [[1] * k + [2, 0] for k in (2, 3, 4, 5, 6, 7, 97, 98, 99, 100, 130)] + [[1] * k + [3, 2, 0] for k in (2, 3, 4, 5, 97, 98, 99)]
        scr += [[1] * 101 + [2, 0] + [1] * 5 + [2, 0]] + ([[1] * 302 + [2, 0]] if i == 0 else [])
        d = rng.choice([4, 5, 6, 7])
        jobs.append(job("deep%d" % i, dr, [("dyn", ("-c",) if i % 2 else (), 0, False, i % 3 == 0), ("small", (), d, False, False), ("default", ("-c",), None, False, False)], scr))
    return jobs

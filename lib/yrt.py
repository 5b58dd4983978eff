"""Compile and drive byacc-generated parsers: dressed actions, destructors, input scripts, event logs (no judging here)."""
import os, re, shutil, tempfile
import build, byacc, gram, harness, lrt

IDENT = re.compile(r"[A-Za-z_]\w*$")
MEMBER = {"i": "i", "p": "p.id", "q": "q.id"}

PRELUDE = r"""
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <stdarg.h>
#include <sys/wait.h>
#include <sys/resource.h>
%(ytype)s
struct VP { int pad; int id; };
struct VQ { double d; int id; };
struct VW { int a; int b; int c; };
static int vv_i(int *p){ return *p; }
static int vv_p(struct VP *p){ return p->id; }
static int vv_q(struct VQ *p){ return p->id; }
static int vv_u(void *p){ return *(int*)p; }
static int vv_s(void *p){ return ((struct VP*)p)->id; }
static int vv_any(void *v){ int *x = (int*)v; return x[0]!=-7 ? x[0] : x[1]!=-7 ? x[1] : x[2]; }
static int vv_col(int c){ return c ? c-1000 : 0; }
#define VID(x) (_Generic(&(x), int*: vv_i, struct VP*: vv_p, struct VQ*: vv_q, default: %(vid)s)(&(x)))
extern void vv_tick(void);
extern int vv_next(void);
extern int vv_arg(int idx, int n, ...);
static struct VP vv_mkp(int id){ struct VP x; memset(&x, 0, sizeof x); x.id = id; return x; }
static struct VQ vv_mkq(int id){ struct VQ x; memset(&x, 0, sizeof x); x.id = id; return x; }
extern int vv_nlex, vv_nextid, vv_seven;
"""
DRIVER = r"""
int vv_nlex, vv_nextid, vv_seven = 77;
static int vv_nev, vv_in, vv_pos;
static int vv_toks[4096], vv_start[64], vv_len[64];
static const int vv_codes[] = { %(codes)s };
void vv_tick(void){ if( ++vv_nev>6000 ){ printf("#!limit\n"); fflush(stdout); _exit(66); } }
int vv_arg(int idx, int n, ...){
  va_list ap; int i;
  va_start(ap, n);
  printf("#R %%d %%d", idx, ++vv_nextid);
  for( i=0; i<n; i++ ) printf(" %%d", va_arg(ap, int));
  printf("\n"); vv_tick();
  va_end(ap);
  return vv_nextid;
}
int vv_next(void){
  int t = vv_pos < vv_len[vv_in] ? vv_toks[vv_start[vv_in] + vv_pos] : 0;
  vv_pos++; vv_nlex++;
  printf("#L %%d\n", vv_nlex); vv_tick(); fflush(stdout);
  return t;
}
static char vv_line[65536];
int main(void){
  while( fgets(vv_line, sizeof vv_line, stdin) ){
    int st = 0; pid_t c;
    printf("#I\n"); fflush(stdout); fflush(stderr);
    c = fork();
    if( c==0 ){
      int n = 0, ni = 0, i; char *p = vv_line;
      struct rlimit rl = { 2, 3 }; setrlimit(RLIMIT_CPU, &rl); alarm(20);
      vv_start[0] = 0; ni = 1;
      while( *p && *p!='\n' ){
        if( *p==' ' ) p++;
        else if( *p=='|' ){ vv_len[ni-1] = n - vv_start[ni-1]; vv_start[ni++] = n; p++; }
        else vv_toks[n++] = (int)strtol(p, &p, 10);
      }
      vv_len[ni-1] = n - vv_start[ni-1];
      vv_nextid = 1000;
      %(debug)s
      for( i=0; i<ni; i++ ){
        int r;
        vv_in = i; vv_pos = 0;
        r = yyparse(%(parg)s);
        printf("#Z %%d %%d\n", r, %(nerrs)s); fflush(stdout);
      }
      fflush(stdout); fflush(stderr); _exit(0);
    }
    waitpid(c, &st, 0);
    if( st!=0 ) printf("\n#!status %%d\n", st);
    fflush(stdout);
  }
  printf("#END\n");
  return 0;
}
"""
FUNCS = r"""
int YYLEX_DECL(){
  int t = vv_next(), k = vv_nlex;
  %(chk)s
  %(setval)s
  %(setloc)s
  return t<0 ? -5 : vv_codes[t];
}
static void YYERROR_DECL(){
  %(chk)s
  printf("#%%s\n", strcmp(s, "syntax error")==0 ? "E 0" : strcmp(s, "yacc stack overflow")==0 ? "E 1" : "!message"); vv_tick();
}
"""

def clean(s):
    """Names that can be macros of a C program."""
    def f(n): return n.replace(".", "_d") if IDENT.match(n.replace(".", "_d")) else n
    t = gram.Src([(k, [f(x) for x in v]) for k, v in s.decl], [(f(l), [f(x) for x in r], f(p)) for l, r, p in s.rules], -1, -1, s.fu, s.fz, s.fB, s.tag)
    L = t.lhss()
    for n in t.names():
        if n not in L and not n.startswith("'") and not IDENT.match(n): return None
        if n.startswith('"'): return None
    return t

def elab(src):
    """[(rule index, position of the action in the source or None, symbols before, "mid", "arg" or "")] in byacc's numbering."""
    out, made = [], set()
    for ri, (l, r, p) in enumerate(src.rules):
        acc, mids, pend = [], [], None
        for i, x in enumerate(r):
            if pend is not None:
                mids.append((ri, pend, list(acc), "mid")); acc = acc + ["$$"]; pend = None
            if x == "{}": pend = i
            else:
                if gram.mark(x) and x not in made: made.add(x); mids.append((ri, x, list(acc), "arg"))
                acc = acc + [x]
        out += mids + [(ri, pend, acc, "")]
    return out

ismark = lambda x: x[:1] == "("

NOISE = ["/* } $$ $1 ' \" */", '(void)"}{$$\\"/*";', "(void)'\\'';", "(void)'}';", "// it's } $$ @1 {\n\t", '(void)"//";', "{ ; }", "(void)'\"';", "/* * ** */",
         '{ int vv_a[2]; vv_a[0] = 0; (void)vv_a; }', '(void)"][";', "(void)']';", "/* [ */", '(void)"a\\\\";', "(void)'\\\\';", "/**/", "(void)(7 / 2);"]
def noise(rng, p=.25):
    """text in an action that means nothing"""
    return "".join(rng.choice(NOISE) + " " for _ in range(rng.choice([1, 1, 2, 3]))) if rng.random() < p else ""

class Dress:
    def __init__(self, s, rng, bt=True, specials=0.0, des=True, codeless=.2, under=.15, attrs=.3):
        self.s, self.rng = s, rng
        B = s.fB
        self.kind = rng.choice(["int", "int", "struct", "struct", "union", "union", "union"])
        L = s.lhss()
        names = s.names()
        self.toks = ["$end", "error"] + [n for n in names if n not in L]
        self.nts = [n for n in names if n in L]
        self.loc = bt and rng.random() < .35
        self.types = {}
        if self.kind == "union":
            for n in self.toks[2:] + self.nts:
                if rng.random() < .75: self.types[n] = rng.choice("ipq")
        ty = lambda x: self.types.get(x, "i")
        self.tagd = self.kind == "struct" and rng.random() < .6     # every reference says its type itself
        self.formals, self.calls, self.attrs, self.types_ = {}, {}, {}, {}
        if bt and rng.random() < attrs: self.attributes()
        s = self.s
        self.des = []       # (target, id)
        if bt and des and rng.random() < .8:
            k = 1
            for n in self.toks[2:] + self.nts:
                if IDENT.match(n) and rng.random() < .3: self.des.append((n, k)); k += 1
            if self.kind == "union":
                for t in "ipq":
                    if rng.random() < .4: self.des.append(("<%s>" % t, k)); k += 1
                if rng.random() < .5: self.des.append(("<*>", k)); k += 1
            if self.tagd and self.attrs:
                if rng.random() < .6: self.des.append(("<id>", k)); k += 1
                if rng.random() < .6: self.des.append(("<*>", k)); k += 1
            if rng.random() < .5: self.des.append(("<>", k)); k += 1
            rng.shuffle(self.des)
            # one declaration may name several
            for i in range(1, len(self.des)):
                if rng.random() < .25: self.des[i] = (self.des[i][0], self.des[i - 1][1])
            self.descode = {k: (noise(rng, .4), noise(rng, .2)) for k in sorted({k for _, k in self.des})}
        self.info, self.act = [], {}        # act: (rule, pos) -> (open, text, close)
        nul = lambda l, acc: not acc or acc[0] in ("error", "$$")
        for ri, pos, acc, kind in elab(s):
            l = s.rules[ri][0]
            n = len(acc)
            if kind == "arg":
                a = self.attrs[pos]
                a["idx"] = len(self.info) + 1
                self.info.append({"code": a["fn"], "set": a["fn"], "br": True, "args": a["args"] if a["fn"] else [], "locs": [], "rec": False, "sp": [], "cp": 99 if a["fn"] else a["args"][0]})
                continue
            mid = kind == "mid"
            vis = [i + 1 for i, x in enumerate(acc) if not ismark(x)]      # what $1, $2, ... are
            nf = len(self.formals.get(l, ()))
            lt = ty(l)      # (a mid-rule action has its rule's type)
            code = mid or pos is not None or rng.random() > codeless
            mine = lambda x: l if x == "$$" else x
            same = n > 0 and not mid and acc[0] != "error" and not ismark(acc[0]) and lt == ty(mine(acc[0]))
            if not code and not mid and self.kind == "union" and n > 0 and not same: code = True
            st = rng.random() < (.6 if mid else .85)
            if code and self.kind == "union" and not mid and n > 0 and not same: st = True
            if n > 0 and not mid and ismark(acc[0]): code = st = True
            br = code and B and rng.random() < .2
            args = [j for j in range(1, len(vis) + 1) if rng.random() < .75]
            if rng.random() < .3: rng.shuffle(args)
            if self.kind != "union" and rng.random() < (max(under, min(.5, under * 4)) if self.tagd and any(map(ismark, acc)) else under): args += rng.sample([0, -1], rng.choice([1, 2]))
            forms = [i for i in range(nf) if rng.random() < .75]
            locs = [j for j in range(1, len(vis) + 1) if rng.random() < .4] + ([99] if rng.random() < .6 else []) if self.loc else []
            at = lambda j: vis[j - 1] if j > 0 else j
            rec = rng.random() < .15
            sp = []
            if code and rng.random() < specials:
                ks = ["ok", "ok", "clear", "err", "abort", "accept"] + (["valid", "nested", "err"] if B and br else [])
                if self.loc: ks = [k for k in ks if k != "err"]
                sp = [{"k": rng.choice(ks), "mod": rng.choice([1, 2, 3, 5])} for _ in range(rng.choice([1, 1, 2]))]
            off = n if mid else 0
            idx = len(self.info) + 1
            self.info.append({"code": code, "set": code and st, "br": br, "args": [at(j) - off for j in args] + [i - nf + 1 - off for i in forms] if code else [],
                              "locs": [j if j == 99 else at(j) - off for j in locs] if code else [], "rec": code and rec, "sp": sp, "cp": 99})
            if not code: continue
            # the text
            a = []
            for j in args:
                if j < 1: a.append("((int)(yystack.s_mark - yystack.s_base) - %d + (%d) > 0 ? (int)$%s%d%s : -1)" % (n, j, "<id>" if self.tagd else "", j, ".id" if self.kind == "struct" and not self.tagd else "")); continue
                x = acc[at(j) - 1]
                a.append("(int)" + self.ref("$%d" % j, mine(x)))
            for i in forms: a.append("(int)" + self.formal(l, ri, i))
            for j in locs:
                r = "@$" if j == 99 else "@%d" % j
                a += ["%s.first_line" % r, "%s.last_line" % r, "vv_col(%s.first_column)" % r, "vv_col(%s.last_column)" % r]
            if rec: a.append("YYRECOVERING() ? 1 : 0")
            t = "++vv_nextid; printf(\"#R %d %s%s\\n\"%s); vv_tick();" % (idx, "%d" if st else "0", " %d" * len(a), "".join(", " + x for x in (["vv_nextid"] if st else []) + a))
            if st:
                t += " " + {"int": "$$ = vv_nextid;", "struct": "$<id>$ = vv_nextid;" if self.tagd else "$$.id = vv_nextid;", "union": ("$<i>$ = vv_nextid;" if l not in self.types else {"i": "$$ = vv_nextid;", "p": "$$.id = vv_nextid;", "q": "$$.id = vv_nextid;"}[lt])}[self.kind]
            for x in sp:
                t += " if ((vv_nextid - 1000) %% %d == 0) %s;" % (x["mod"], {"ok": "yyerrok", "clear": "yyclearin", "err": "YYERROR", "abort": "YYABORT", "accept": "YYACCEPT", "valid": "YYVALID", "nested": "YYVALID_NESTED"}[x["k"]])
            self.act[(ri, pos)] = ("[ %s ]" if br else "{ %s }") % (noise(rng) + t + " " + noise(rng, .1))

    def attributes(self):
        """Inherited attributes: some nonterminals get parameters, every use of them computations of their values."""
        s, rng = self.s, self.rng
        nts = [n for n in self.nts if n != s.start() and any(r and n in r for _, r, _ in s.rules)]
        if not nts: return
        T = {"int": ["i"], "struct": ["i"], "union": "ipq"}[self.kind]
        for n in rng.sample(nts, min(len(nts), rng.choice([1, 1, 2, 3]))): self.formals[n] = [rng.choice(T) for _ in range(rng.choice([1, 1, 2, 3]))]
        tag = {"i": "id" if self.tagd else "i", "p": "p", "q": "q"}
        rules, keys = [], {}
        for ri, (l, r, p) in enumerate(s.rules):
            out, acc, pend = [], [], False      # acc: the symbols on the stack, as elab() sees them
            F = self.formals.get(l, [])
            for x in r:
                if pend: acc.append("$$"); pend = False
                if x == "{}": pend = True; out.append(x); continue
                G = self.formals.get(x, [])
                if G and not acc and F == G and rng.random() < .5: G = []      # its own are handed on
                vis = [i + 1 for i, y in enumerate(acc) if not ismark(y)]
                texts, plain = [], []
                for i, t in enumerate(G):
                    # what can be handed on as it is: (text, position relative to the top, formal or symbol)
                    mine = lambda y: l if y == "$$" else y
                    cand = [("$%d", j + 1, vis[j] - len(acc), self.types.get(mine(acc[vis[j] - 1]), "i")) for j in range(len(vis)) if acc[vis[j] - 1] != "error"]
                    cand += [("$f", j, j - len(F) + 1 - len(acc), F[j]) for j in range(len(F))]
                    same = [c for c in cand if c[3] == t]
                    if same and rng.random() < (.9 if not acc else .5):
                        pref = [c for c in same if c[2] == i - len(G) + 1]
                        texts.append(("copy", rng.choice(pref if pref and rng.random() < .6 else same), rng.random() < .2))
                    else: texts.append(("fn", rng.sample(cand, min(len(cand), rng.choice([0, 1, 1, 2]))), rng.random() < .4))
                # the leading values that are on top of the stack already are not pushed again
                ontop = lambda k: texts[k][0] == "copy" and not texts[k][2] and 1 - texts[k][1][2] or 0
                el = ontop(0) if G else 0
                if el > len(G) or any(ontop(k) != el - k for k in range(1, el)): el = 0
                words = []
                for i, t in enumerate(G):
                    k, c, sp = texts[i]
                    if i >= el:
                        # positions in the text move as values are pushed; those relative to the top move with it
                        up = i - el
                        rel = [(q[2] - up) for q in ([c] if k == "copy" else c)]
                        if k == "copy": key = ("copy", t, rel[0])
                        else: key = ("fn", t, tuple((q[0], q[3], z) for q, z in zip(c, rel)), 0 if sp else (ri, len(out), i))
                        if key not in keys:
                            if len(keys) == 40: self.formals, self.calls, self.attrs, self.types_ = {}, {}, {}, {}; return
                            keys[key] = "(%d)" % (len(keys) + 1)
                            self.attrs[keys[key]] = {"fn": k == "fn", "args": rel, "t": t, "idx": 0}
                        m = keys[key]
                        out.append(m); acc.append(m)
                        self.types_[m] = tag[t] if self.kind == "union" or self.tagd else ""
                    else: m = None
                    words.append((k, c, sp, t, m))
                if words: self.calls[(ri, len(out))] = words
                out.append(x); acc.append(x)
            rules.append((l, out, p))
        if not self.calls: self.formals = {}; return
        self.s = gram.Src(s.decl, rules, s.sr, s.rr, s.fu, s.fz, s.fB, s.tag)

    def formal(self, l, ri, i):
        """reference to a parameter by its name"""
        n, t = "f%d" % i, self.formals[l][i]
        if self.kind == "int": return "$" + n
        if self.kind == "struct": return ("$%s" % n) if self.tagd else "$%s.id" % n
        return {"i": "$%s%s", "p": "$%s%s.id", "q": "$%s%s.id"}[t] % ("<%s>" % t if self.rng.random() < .3 else "", n)

    def given(self, ri, pos):
        """the text of the values passed to a symbol"""
        l = self.s.rules[ri][0]
        out = []
        def sym(j):
            vis = [x for x in self.s.rules[ri][1][:pos] if not ismark(x)]
            # an action followed by something is a symbol
            return l if vis[j - 1] == "{}" else vis[j - 1]
        for i, (k, c, sp, t, m) in enumerate(self.calls[(ri, pos)]):
            def plain(q):
                if q[0] == "$f": return "$f%d" % q[1]
                x = sym(q[1])
                if self.kind == "union" and x not in self.types: return "$<i>%d" % q[1]
                return ("$<id>%d" if self.tagd else "$%d") % q[1]
            if k == "copy": out.append((" " if sp else "") + plain(c)); continue
            ref = lambda q: self.formal(l, ri, q[1]) if q[0] == "$f" else self.ref("$%d" % q[1], sym(q[1]))
            v = "vv_arg(%s%d, %d%s)" % ("0*(int)sizeof \",)'\\\"(\" + " if self.attrs[m]["idx"] % 3 == 0 else "", self.attrs[m]["idx"], len(c), "".join(", (int)" + ref(q) for q in c))
            if t != "i" or self.kind == "struct" and not self.tagd: v = "vv_mk%s(%s)" % ("q" if t == "q" else "p", v)
            out.append(v)
        return "(" + ",".join(out) + ")"

    def ref(self, d, x):
        if self.kind == "int": return d
        if self.tagd: return d.replace("$", "$<id>")
        if self.kind == "struct": return d + ".id"
        if x == "error": return "vv_any(&%s)" % d.replace("$", "$<w>")
        if x not in self.types: return d.replace("$", "$<i>")
        return {"i": "%s", "p": "%s.id", "q": "%s.id"}[self.types[x]] % d

    def json(self):
        return {"rules": self.info, "des": [{"n": a, "k": k} for a, k in self.des],
                "types": [{"n": n, "t": "<%s>" % t} for n, t in sorted(self.types.items())] +
                         [{"n": n, "t": "<%s>" % t} for n, t in sorted(self.types_.items()) if t]}

    def text(self, b, layout=None):
        """b: the build (dict)"""
        s, o = self.s, []
        yt = {"int": "", "struct": "#define YYSTYPE struct VP", "union": ""}[self.kind]
        pre = PRELUDE % {"ytype": yt, "vid": "vv_u"}
        pure, pp, lp = b.get("pure"), b.get("pparam"), b.get("lparam")
        o.append("%{" + pre)
        o.append("%}")
        if self.kind == "union":
            o.append("%union { int i; struct VP p; struct VQ q; struct VW w; }")
        if pure and not b.get("P"): o.append("%pure-parser")
        if self.loc: o.append("%locations")
        if pp: o.append("%parse-param { int *pp }")
        if lp: o.append("%lex-param { int *pp }")
        done = set()
        for k, v in s.decl:
            if k == "token" and self.types:
                for x in v:
                    o.append("%%token %s%s" % ("<%s> " % self.types[x] if x in self.types and x not in done else "", x)); done.add(x)
            else: o.append("%" + k + " " + " ".join(v))
        for n, t in sorted(self.types.items()):
            if n not in done and n not in self.formals: o.append("%%type <%s> %s" % (t, n))
        if self.kind == "union" or self.tagd:
            for n, f in sorted(self.formals.items()):
                o.append("%%type %s%s(%s)" % ("<%s> " % self.types[n] if n in self.types else "", n, ", ".join("<id>" if self.tagd else "<%s>" % t for t in f)))
        for k in dict.fromkeys(k for _, k in self.des):
            o.append("%%destructor { %sprintf(\"#D %d %%d\\n\", VID($$)); vv_tick(); %s} %s" % (self.descode[k][0], k, self.descode[k][1], " ".join(n for n, q in self.des if q == k)))
        o.append("%%")
        i = 0
        rng = layout
        while i < len(s.rules):
            l = s.rules[i][0]
            alts, j = [], i
            while j < len(s.rules) and s.rules[j][0] == l and (j == i or rng is None or rng.random() < .8):
                _, r, p = s.rules[j]
                parts = [self.act[(j, pos)] if x == "{}" else x + (self.given(j, pos) if (j, pos) in self.calls else "") for pos, x in enumerate(r) if not ismark(x)]
                if p: parts.insert(len(parts) - (1 if r and r[-1] == "{}" else 0), "%prec " + p)
                if (j, None) in self.act and not (r and r[-1] == "{}"): parts.append(self.act[(j, None)])
                alts.append(" ".join(parts)); j += 1
            if l in self.formals: l += "(" + ", ".join("$%sf%d" % ("<id>" if self.tagd else "<%s>" % t if self.kind == "union" else "", k) for k, t in enumerate(self.formals[l])) + ")"
            o.append(l + "\n    : " + "\n    | ".join(alts) + "\n    ;")
            i = j
        o.append("%%")
        pu = "yylval->" if pure else "yylval."
        chk = "if( *pp!=77 ) printf(\"#!param\\n\");"
        un = []
        if self.kind == "int": sv = "%s = k;" % ("*yylval" if pure else "yylval")
        elif self.kind == "struct": sv = "%spad = -7; %sid = k;" % (pu, pu)
        else:
            un = ["%sw.a = -7; %sw.b = -7; %sw.c = -7;" % (pu, pu, pu), "switch( t<0 ? 0 : t ){"]
            for m in "ipq":
                ts = [i for i, n in enumerate(self.toks) if i >= 2 and self.types.get(n, "i") == m]
                if ts: un.append(" ".join("case %d:" % i for i in ts) + " %s%s = k; break;" % (pu, MEMBER[m]))
            un.append("default: %sw.a = %sw.b = %sw.c = k; }" % (pu, pu, pu))
            sv = "\n  ".join(un)
        pl = "yylloc->" if pure else "yylloc."
        sl = "{0}first_line = 2*k; {0}last_line = 2*k+1; {0}first_column = 2*k+1000; {0}last_column = 2*k+1001;".format(pl) if self.loc else ""
        codes = ", ".join(["0", "256"] + self.toks[2:] + ["30000"])
        o.append(DRIVER % {"codes": codes, "debug": "if( freopen(\"/dev/null\", \"w\", stderr)==0 ) _exit(9); yydebug = 1;" if b.get("t") else "", "parg": "&vv_seven" if pp else "", "nerrs": "0" if pure else "yynerrs"})
        f = FUNCS.replace("%(chk)s", "@CHK@", 1)
        o.append((f % {"chk": chk if pp else "(void)0;", "setval": sv, "setloc": sl}).replace("@CHK@", chk if lp else "(void)0;"))
        return "\n".join(o) + "\n"

def parse_log(text, rc, n):
    runs, cur = [], None
    for l in text.split("\n"):
        if not l.startswith("#"): continue
        l = l[1:]
        if l == "I": cur = {"ev": [], "bad": ""}; runs.append(cur); continue
        if l == "END" or cur is None: continue
        if l.startswith("!"): cur["bad"] = cur["bad"] or l; continue
        w = l.split(" ")
        try: cur["ev"].append({"k": w[0], "a": [int(x) for x in w[1:]]})
        except ValueError: cur["bad"] = cur["bad"] or "line cut short"
    if rc != 0 or not text.rstrip().endswith("#END"):
        if not runs: runs.append({"ev": [], "bad": ""})
        runs[-1]["bad"] = runs[-1]["bad"] or "exit status %s" % rc
    while len(runs) < n: runs.append({"ev": [], "bad": "not reached"})
    return runs

def observe(d, dr, builds, scr):
    out, nT = [], len(dr.toks)
    inp = "".join(" | ".join(" ".join(str(nT if t == 10000 else t) for t in w) for w in x) + "\n" for x in scr)
    for b in builds:
        with open(os.path.join(d, "g.y"), "w") as f: f.write(dr.text(b))
        s = dr.s
        args = ["-b", "g"] + (["-u"] if s.fu else []) + (["-z"] if s.fz else []) + (["-B"] if s.fB else []) + list(b.get("opts", ())) + (["-t"] if b.get("t") else []) + (["-P"] if b.get("P") else []) + ["g.y"]
        rc, so, se = byacc.run(build.byacc(b["variant"]), args, d)
        files = [f for f in ("g.tab.c", "g.code.c") if os.path.exists(os.path.join(d, f))]
        if not files: raise RuntimeError("byacc %s: exit %s %s" % (" ".join(args), rc, se[-600:]))
        flags = ["-w", "-O0", "-I" + d] + ["-D%s=%d" % (k, v) for k, v in b.get("defs", {}).items()]
        if b.get("san"): flags += ["-fsanitize=address,undefined", "-fno-sanitize-recover=undefined", "-g1"]
        exe = os.path.join(d, "p")
        r = build.run(["gcc"] + flags + ["-o", exe] + [os.path.join(d, f) for f in files], timeout=120)
        if r.returncode: raise RuntimeError("the generated parser does not compile: " + r.stdout[-1500:])
        prc, log, err = build.contained([exe], input=inp, timeout=120)
        df = b.get("defs", {})
        cap = max(df.get("YYINITSTACKSIZE", 200), df.get("YYSTACKSIZE", 10000)) - 1
        out.append({"n": b["n"], "kind": "B" if s.fB else b["variant"], "cap": cap, "pure": bool(b.get("pure")), "loc": dr.loc, "runs": parse_log(log, prc, len(scr)), "stderr": err[-800:]})
        for f in os.listdir(d): os.remove(os.path.join(d, f))
    return out

def job(jid, dr, builds, scr, left=900, known=None):
    def observe_():
        d = tempfile.mkdtemp(dir=build.scratch())
        try: return {"builds": observe(d, dr, builds, scr)}
        finally: shutil.rmtree(d, ignore_errors=True)
    return harness.Job(jid, "YaccRunTrace", observe_, {"src": dr.s.json(), "info": dr.json(), "toks": dr.toks, "scripts": scr, "left": left}, known)

def inputs(s, toks, rng, n, maxlen=40, calls=True, damage=.55, neg=True):
    codes = {t: i for i, t in enumerate(toks)}
    k = len(toks)
    sent = [[codes[t] for t in w if t in codes][:maxlen] for w in lrt.sentences(s, rng, n + 6)]
    def one():
        w = list(rng.choice(sent))
        r = rng.random()
        if r < 1 - damage: pass
        elif r < .93 and k > 2:
            for _ in range(rng.choice([1, 1, 2, 3])):
                x, i = rng.random(), rng.randrange(len(w) + 1)
                t = rng.randrange(2, k) if rng.random() < .94 else rng.choice([10000, 1, 0])
                if x < .35 and w: del w[i % len(w)]
                elif x < .75: w.insert(i, t)
                elif w: w[i % len(w)] = t
        elif k > 2: w = [rng.randrange(2, k) for _ in range(rng.randrange(0, 8))]
        if neg and rng.random() < .04: w.append(-1)
        return w[:maxlen]
    seen, out = set(), []
    for w in sent[:max(3, n // 3)]:
        if repr([w]) not in seen: seen.add(repr([w])); out.append([w])
    tries = 0
    while len(out) < n and tries < 5 * n:
        tries += 1
        x = [one() for _ in range(rng.choice([1, 1, 1, 1, 2, 3]) if calls else 1)]
        if repr(x) not in seen: seen.add(repr(x)); out.append(x)
    return out[:n]

OPTS = [("-l",), ("-d",), ("-t",), ("-r",), ("-p", "zz"), ("-s",), ("-i",), ("-d", "-l"), ("-r", "-d"), ("-r", "-p", "zz_"), ("-v", "-g"), ("-p", "zz", "-d", "-r", "-l")]
def build_(rng, bt, B, base=False, sizes=True):
    """One way to generate and compile a parser. (With locations the stack is kept from being exactly full: see known-findings.txt.)"""
    b = {"variant": "bt" if bt else "n", "san": True, "defs": {}, "n": ""}
    if B: b["defs"]["YYLVQUEUEGROWTH"] = rng.choice([1, 2, 5, 32])
    if bt and sizes and rng.random() < .35: b["defs"]["YYINITSTACKSIZE"] = rng.choice([2, 3, 5, 8])
    if bt and sizes and rng.random() < .15:
        b["defs"]["YYINITSTACKSIZE"] = i = rng.choice([2, 3, 4, 6]); b["defs"]["YYSTACKSIZE"] = rng.choice([4, 5, 6, 7, 9, 12, i])
    if not base:
        o = rng.choice(OPTS)
        if "-t" in o: b["t"] = True; o = tuple(x for x in o if x != "-t")
        b["opts"] = o
        b["san"] = rng.random() < .6
        r = rng.random()
        if r < .5 and "-r" not in o:
            b["pure"] = True
            if rng.random() < .4: b["P"] = True
        if rng.random() < .3: b["pparam"] = True; b["lparam"] = rng.random() < .5
    b["n"] = " ".join(list(b.get("opts", ())) + [k for k in ("t", "pure", "P", "pparam", "lparam") if b.get(k)] + ["%s=%d" % x for x in sorted(b["defs"].items())]) or "plain"
    return b

def with_errors(rng, s, p=.65):
    """Error productions in most of the grammars."""
    if rng.random() > p or any("error" in r for _, r, _ in s.rules): return s
    L = s.lhss()
    toks = [n for n in s.names() if n not in L]
    rules = list(s.rules)
    for _ in range(rng.choice([1, 1, 2, 3])):
        l = rng.choice([r[0] for r in rules])
        tail = rng.choice([[], [rng.choice(toks)], [rng.choice(toks)], [rng.choice(sorted(L))]]) if toks else []
        head = ["error"] if rng.random() < .7 or not toks else [rng.choice(toks + sorted(L)), "error"]
        rules.insert(rng.randrange(len(rules) + 1) if any(k == "start" for k, _ in s.decl) else rng.randrange(1, len(rules) + 1), (l, head + tail, ""))
    t = gram.Src(s.decl, rules, s.sr, s.rr, s.fu, s.fz, s.fB, s.tag)
    return t

def cases(rng, srcs, kind, nscripts=12, builds=3, maxlen=40, damage=.55, specials=0.0, left=900, tag="", **kw):
    """kind: 'n', 'bt' or 'B'; or None to choose per grammar."""
    jobs = []
    for i, s in enumerate(srcs):
        s = clean(s)
        if not s or s.cyclic() or s.start() not in s.lhss(): continue
        k = kind or rng.choice(["n", "bt", "bt"])
        s.fB = k == "B"
        dr = Dress(s, rng, bt=k != "n", specials=specials, **kw)
        sz = not dr.loc
        bs = [build_(rng, k != "n", k == "B", j == 0, sizes=sz) for j in range(builds)]
        ml = maxlen if k != "B" else min(maxlen, 10)
        scr = inputs(s, dr.toks, rng, nscripts, maxlen=ml, calls=k != "B", neg=k != "B", damage=damage)
        jobs.append(job("%s%s%d-%s" % (tag, k, i, s.tag), dr, bs, scr, left))
    return jobs

def deep(rng, n, kind=None):
    """Stacks around every size at which they grow and around their limit."""
    jobs = []
    for i in range(n):
        k = kind or rng.choice(["n", "bt"])
        s = gram.Src([("token", ["A", "B", "C"])], [("goal", ["s"], ""), ("s", ["A", "s"], ""), ("s", ["B"], ""), ("s", ["C", "e", "s"], ""), ("s", ["C", "error"], ""), ("e", [], "")], tag="deep")
        dr = Dress(s, rng, bt=k != "n", under=.4)
        if dr.loc: s.rules = [r for r in s.rules if r[0] != "e" and "e" not in r[1]]; dr = Dress(s, rng, bt=k != "n", attrs=0)
        tA, tB, tC = [dr.toks.index(x) for x in "ABC"]
        lim = rng.choice([0, 200, 203, 250, 399, 401])
        b = build_(rng, k != "n", False, True, sizes=False)
        if lim: b["defs"]["YYSTACKSIZE"] = lim
        ini = 200
        if k == "bt" and rng.random() < .6: ini = b["defs"]["YYINITSTACKSIZE"] = rng.choice([2, 3, 10, 64])
        at = sorted({x + d for x in [200, lim or 400, 400 if not lim or lim > 400 else 200, ini, 2 * ini, 4 * ini] for d in (-3, -2, -1, 0, 1)} & set(range(1, 420)))
        at = sorted(rng.sample(at, min(len(at), 12)))
        scr = [[[tA] * (x - 1) + ([tC] if rng.random() < .3 else []) + [tB] + ([] if rng.random() < .7 else [tA])] + ([[tA, tB]] if rng.random() < .3 else []) for x in at]
        b["n"] = "%s %s" % (k, sorted(b["defs"].items()))
        jobs.append(job("deep%s%d" % (k, i), dr, [b], scr, left=3000))
    return jobs

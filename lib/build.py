"""Build the tools of /repo from its current working tree into a scratch directory."""
import os, shutil, subprocess, sys, tempfile, threading, atexit

REPO = os.environ.get("VERIF_REPO", "/repo")
_scratch = None
_lock = threading.RLock()

def locked(f):
    def g(*a, **k):
        with _lock:
            return f(*a, **k)
    return g

@locked
def scratch():
    global _scratch
    if _scratch is None:
        _scratch = tempfile.mkdtemp(prefix="verif-")
        atexit.register(lambda d=_scratch: os.environ.get("VERIF_KEEP") or shutil.rmtree(d, ignore_errors=True))
    return _scratch

def run(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)

SAN = ["-fsanitize=address,undefined", "-fno-sanitize-recover=undefined", "-fno-omit-frame-pointer"]
BY_SRC = "closure error graph lalr lr0 main mkpar mstring output reader symtab verbose warshall".split()

class BuildError(Exception):
    pass

@locked
def byacc(variant, san=True):
    """variant 'bt' (backtracking skeleton, the default configuration here) or 'n' (plain skeleton)."""
    d = os.path.join(scratch(), "byacc-" + variant + ("-san" if san else ""))
    exe = os.path.join(d, "yacc")
    if os.path.exists(exe):
        return exe
    os.makedirs(d, exist_ok=True)
    cfg = config_h(variant)
    with open(os.path.join(d, "config.h"), "w") as f:
        f.write(cfg)
    ver = open(REPO + "/byacc/VERSION").read().strip()
    srcs = BY_SRC + (["btyaccpar"] if variant == "bt" else ["yaccpar"])
    flags = ["-g", "-O1", "-w", "-I" + d, "-I" + REPO + "/byacc", "-DHAVE_CONFIG_H", "-DYYPATCH=" + ver,
             "-D_DEFAULT_SOURCE", "-D_XOPEN_SOURCE=500"] + (SAN if san else [])
    procs = []
    for s in srcs:
        src = REPO + "/byacc/%s.c" % s
        procs.append((s, subprocess.Popen(["gcc"] + flags + ["-c", src, "-o", d + "/" + s + ".o"],
                      stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)))
    for s, p in procs:
        out, _ = p.communicate()
        if p.returncode:
            raise BuildError("compiling %s: %s" % (s, out))
    r = run(["gcc"] + (SAN if san else []) + ["-o", exe] + [d + "/%s.o" % s for s in srcs])
    if r.returncode:
        raise BuildError(r.stdout)
    return exe

def config_h(variant):
    t = open(REPO + "/byacc/config.h").read()
    if variant == "n":
        t = "\n".join(l for l in t.split("\n") if "YYBTYACC" not in l)
    return t

@locked
def lemon(san=True):
    d = os.path.join(scratch(), "lemon" + ("-san" if san else ""))
    exe = os.path.join(d, "lemon")
    if os.path.exists(exe):
        return exe
    os.makedirs(d, exist_ok=True)
    r = run(["gcc", "-g", "-O1", "-w"] + (SAN + ["-fno-sanitize=null"] if san else []) + ["-o", exe, REPO + "/lemon/lemon.c"])
    if r.returncode:
        raise BuildError(r.stdout)
    return exe

TEMPLATE = REPO + "/lemon/lempar.c"
SAN_ENV = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:exitcode=97", UBSAN_OPTIONS="halt_on_error=1:exitcode=97")

def contained(cmd, cwd=None, input=None, timeout=60, env=None, maxout=24 << 20):
    """Run a program of unknown behaviour: bounded time, output and (address space aside, for the sanitizers) processes.
    Returns (status or 'timeout', stdout, stderr)."""
    import tempfile
    with tempfile.TemporaryFile(dir=scratch()) as so, tempfile.TemporaryFile(dir=scratch()) as se, tempfile.TemporaryFile(dir=scratch()) as si:
        if input: si.write(input.encode()); si.seek(0)
        try:
            p = subprocess.run(["prlimit", "--fsize=%d" % maxout, "--core=0", "--rss=%d" % (4 << 30), "--"] + cmd, cwd=cwd, stdin=si, stdout=so, stderr=se, timeout=timeout, env=env or SAN_ENV)
            rc = p.returncode
        except subprocess.TimeoutExpired:
            rc = "timeout"
        so.seek(0); se.seek(0)
        return rc, so.read().decode(errors="replace"), se.read(1 << 20).decode(errors="replace")

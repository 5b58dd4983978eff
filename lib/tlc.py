"""Run TLC on a specification of /verif/spec with a file of cases; collect one verdict per case."""
import json, os, re, subprocess, tempfile
from build import scratch

SPEC = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "spec")
JAR = "/opt/veriftools/tla/tla2tools.jar"

class ModelFailure(Exception):
    pass

def tlc(module, cfg=None, env=None, workers=8, timeout=840, extra=(), heap="-Xmx12g", go_on=True):
    """Returns (output lines, {'generated','distinct'})."""
    meta = tempfile.mkdtemp(prefix="tlc-", dir=scratch())
    e = dict(os.environ)
    e.update(env or {})
    cp = [JAR] + [os.path.join(os.path.dirname(JAR), f) for f in os.listdir(os.path.dirname(JAR))
                  if f.endswith(".jar") and f != "tla2tools.jar"]
    cmd = ["java", heap, "-Xss512m", "-XX:+UseParallelGC", "-cp", ":".join(cp), "tlc2.TLC",
           "-workers", str(workers), "-metadir", meta, "-noGenerateSpecTE"] + (["-continue"] if go_on else []) + [
           "-config", cfg or (module + ".cfg")] + list(extra) + [module + ".tla"]
    log = os.path.join(meta, "log")
    with open(log, "w") as f:
        p = subprocess.run(["timeout", "-k", "5", str(timeout), "prlimit", "--fsize=%d" % (400 << 20), "--"] + cmd, cwd=SPEC, env=e, stdout=f, stderr=subprocess.STDOUT)
    out = open(log, errors="replace").read().split("\n")
    st = {"generated": 0, "distinct": 0, "rc": p.returncode}
    for l in out:
        m = re.match(r"(\d+) states generated, (\d+) distinct states found, 0 states left", l)
        if m:
            st["generated"], st["distinct"] = int(m.group(1)), int(m.group(2))
    subprocess.run(["rm", "-rf", meta])
    return out, st

def verdicts(out):
    """The JSON records the specification printed with PrintT(ToJson(..))."""
    res = []
    for l in out:
        l = l.strip()
        if l.startswith('"{') and l.endswith('}"'):
            try:
                res.append(json.loads(json.loads(l)))
            except ValueError:
                pass
    return res

STOP_AT_ERROR = {"LemonRunTrace", "YaccRunTrace", "BtRunTrace"}      # their invariants are about the specification itself

def check_cases(module, cases, workers=8, timeout=840, name="cases"):
    """cases: list of dicts with 'id'. Returns ({id: record}, stats). Raises ModelFailure if any case got no verdict."""
    if not cases:
        return {}, {"generated": 0, "distinct": 0, "rc": 0}
    path = os.path.join(scratch(), "%s-%s.ndjson" % (module, name))
    with open(path, "w") as f:
        for c in cases:
            f.write(json.dumps(c) + "\n")
    cfg = None
    if len(cases) > 1:      # the verdicts tell; a counterexample (of Conforms) is only asked for when one case is judged alone
        lines = open(os.path.join(SPEC, module + ".cfg")).read().split("\n")
        cfg = path + ".cfg"
        with open(cfg, "w") as f: f.write("\n".join(l for l in lines if l.split() != ["INVARIANT", "Conforms"]) + "\n")
    out, st = tlc(module, cfg=cfg, env={"CASES": path}, workers=workers, timeout=timeout, go_on=module not in STOP_AT_ERROR)
    recs = verdicts(out)
    v = {r["verdict"]: r for r in recs if "verdict" in r}
    for r in recs:
        if r.get("note") in v: v[r["note"]].setdefault("notes", []).append(r)
    missing = [c["id"] for c in cases if c["id"] not in v]
    if missing:
        text = "\n".join(l for l in out if not l.strip().startswith('"{'))
        raise ModelFailure("no verdict for %s\n%s" % (missing[:5], text if len(text) < 7000 else text[:3000] + '\n...\n' + text[-4000:]))
    return v, st

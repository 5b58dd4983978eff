"""Common machinery of the checks: jobs -> observations of the real tools -> TLC verdicts -> report."""
import concurrent.futures as cf, hashlib, json, os, random, re, sys, time, traceback
import build, tlc

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

def known_findings():
    out = {}
    p = os.path.join(ROOT, "known-findings.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"known: property=(\S+) id=(\S+) (.*)$", l.strip())
            if m: out[(m.group(1), m.group(2))] = m.group(3)
    return out

class Job:
    """One real execution to be judged. observe() -> dict merged into the case; must be repeatable."""
    def __init__(self, id, module, observe, data=None, known=None):
        self.id, self.module, self._observe, self.data, self.known = id, module, observe, data or {}, known
    def case(self):
        c = {"id": self.id}
        c.update(self.data)
        c.update(self._observe())
        return c

class Check:
    def __init__(self, prop):
        self.prop = prop
        self.tier = os.environ.get("VERIF_TIER", "quick")
        self.seed = int(os.environ.get("VERIF_SEED", "1") or 1)
        self.quick = self.tier != "thorough"
        self.rng = random.Random("%s-%d" % (prop, self.seed))
        self.t0 = time.time()
        self.states = self.transitions = self.traces = 0
        self.violations, self.known_hit = [], []
        self.samples, self.notes, self.counts = [], [], {}
        self.seen = set()
        self.assumptions = []

    def log(self, *a):
        print("[%s %6.1fs]" % (self.prop, time.time() - self.t0), *a, flush=True)

    def count(self, k, n=1):
        self.counts[k] = self.counts.get(k, 0) + n

    # ---- pure model checking ------------------------------------------------
    def theory(self, module, cfg=None, workers=8, timeout=600, env=None):
        out, st = tlc.tlc(module, cfg=cfg, workers=workers, timeout=timeout, env=env)
        text = "\n".join(out)
        if "No error has been found" not in text:
            raise tlc.ModelFailure("the specification %s does not satisfy its own properties:\n%s" % (module, text[-3000:]))
        self.states += st["distinct"]; self.transitions += st["generated"]
        self.notes.append({"model": module, "config": cfg or module + ".cfg", "states": st["distinct"], "generated": st["generated"]})
        self.log("model", module, cfg or "", st["distinct"], "states")

    # ---- conformance ----------------------------------------------------------
    def observe_all(self, jobs, threads=8):
        cases = {}
        def one(j):
            try:
                return j, j.case()
            except Exception as e:      # the tool could not be observed at all
                return j, {"id": j.id, "broken": "%s: %s" % (type(e).__name__, str(e)[-2500:]), "trace": traceback.format_exc()[-1500:]}
        with cf.ThreadPoolExecutor(threads) as ex:
            for j, c in ex.map(one, jobs):
                cases[j.id] = c
        return cases

    def judge(self, cases, module, timeout=840):
        """id -> (fails, info). A case the model cannot even be evaluated on is judged alone."""
        res = {}
        good = []
        for c in cases.values():
            if c.get("broken"): res[c["id"]] = (["broken"], c["broken"])
            else: good.append(c)
        if not good: return res
        path_name = "%s-%d" % (self.prop, len(self.notes))
        try:
            v, st = tlc.check_cases(module, good, timeout=timeout, name=path_name)
            self.states += st["distinct"]; self.transitions += st["generated"]
        except tlc.ModelFailure as e:
            self.log("model could not evaluate a batch; judging cases one by one:", str(e)[-2500:])
            v = self.judge_split(good, module, timeout)
        for c in good:
            r = v.get(c["id"])
            if r is None: res[c["id"]] = (["unexplained"], "the specification cannot be evaluated on what was observed")
            else: res[c["id"]] = (r["fails"], r)
        return res

    def judge_split(self, good, module, timeout):
        v = {}
        todo = [good]
        runs = 0
        while todo and runs < 60:
            part = todo.pop(0)
            runs += 1
            try:
                r, st = tlc.check_cases(module, part, timeout=timeout, name="split")
                self.states += st["distinct"]; self.transitions += st["generated"]
                v.update(r)
            except tlc.ModelFailure:
                if len(part) > 1:
                    k = max(1, len(part) // 4)
                    todo += [part[i:i+k] for i in range(0, len(part), k)]
        return v

    def conform(self, jobs, module, tags=None, timeout=840, batch=1500, max_viol=5):
        """Run all jobs, judge them, report rejections that repeat. tags: the failure kinds this property owns (None: all)."""
        jobs = [j for j in jobs if j is not None]
        jm = {j.id: j for j in jobs}
        assert len(jm) == len(jobs), "duplicate job ids"
        for k in range(0, len(jobs), batch):
            part = jobs[k:k+batch]
            cases = self.observe_all(part)
            res = self.judge(cases, module, timeout)
            self.traces += len(part)
            for j in part:
                fails, info = res[j.id]
                mine = [f for f in fails if tags is None or f in tags or f in ("broken", "unexplained")]
                if not self.samples or (len(self.samples) < 4 and self.rng.random() < .02):
                    self.samples.append({"case": j.id, "input": j.data.get("src", j.data.get("input", "")) or "see id", "verdict": fails, "module": module})
                if isinstance(info, dict):
                    for kk in ("conflicts",):
                        if info.get(kk): self.count("cases with " + kk)
                    for kk in ("runs", "of"):
                        if info.get(kk): self.count({"runs": "runs compared", "of": "runs made"}[kk], info[kk])
                if not mine: 
                    if j.known and (self.prop, j.known) in known_findings():
                        self.log("known finding %s no longer occurs" % j.known)
                    continue
                if j.known and (self.prop, j.known) in known_findings():
                    self.known_hit.append((j.known, known_findings()[(self.prop, j.known)]))
                    continue
                if len(self.violations) >= max_viol: continue
                again = self.observe_all([j], 1)
                r2 = self.judge(again, module, timeout)[j.id]
                mine2 = [f for f in r2[0] if tags is None or f in tags or f in ("broken", "unexplained")]
                if not mine2:
                    self.log("rejection of", j.id, "did not repeat:", mine); continue
                self.violation(j.id, mine2, {"module": module, "case": again[j.id], "info": r2[1]})
            self.log(module, k + len(part), "of", len(jobs), "cases judged,", len(self.violations), "violations")

    def violation(self, name, fails, payload):
        d = os.path.join(ROOT, "evidence", "replay")
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, "%s-%s.json" % (self.prop, re.sub(r"\W+", "_", name)[:60]))
        with open(path, "w") as f:
            json.dump({"property": self.prop, "name": name, "fails": fails, **payload}, f, indent=1, default=str)
        self.violations.append((name, fails, path))
        self.log("REJECTED", name, fails)

    def nontrivial(self, key):
        h = hashlib.sha1(key.encode()).hexdigest()
        new = h not in self.seen
        self.seen.add(h)
        return new

    def finish(self, rule="", level="model_checking"):
        for k, what in sorted(set(self.known_hit)):
            print("KNOWN-FINDING: property=%s %s: %s" % (self.prop, k, what))
        ev = {"property": self.prop, "tier": "quick" if self.quick else "thorough", "seed": self.seed, "level": level,
              "coverage": {"states": self.states, "transitions": self.transitions, "traces_validated_against_impl": self.traces,
                           "distinct_inputs": len(self.seen), "rule": rule, "models": self.notes, "counts": self.counts,
                           "samples": self.samples[:6]},
              "assumptions": self.assumptions, "wall_s": round(time.time() - self.t0, 2), "violations": len(self.violations)}
        os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
        with open(os.path.join(ROOT, "evidence", self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1, default=str)
        for name, fails, path in self.violations:
            print("VIOLATION property=%s replay=%s" % (self.prop, path))
        self.log("done: %d states, %d traces, %d violations" % (self.states, self.traces, len(self.violations)))
        return 1 if self.violations else 0

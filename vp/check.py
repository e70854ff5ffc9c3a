"""Common frame of every check: seed, tier, evidence, verdict."""
import os, sys, json, time, random, traceback, shutil, tempfile
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

class Violation(Exception):
    def __init__(self, what, data=None):
        Exception.__init__(self, what); self.what = what; self.data = data

class Check:
    def __init__(self, pid, level):
        self.pid = pid; self.level = level
        self.seed = int(os.environ.get("VERIF_SEED", "1") or 1)
        self.tier = os.environ.get("VERIF_TIER", "quick")
        if self.tier not in ("quick", "thorough"): self.tier = "quick"
        self.thorough = self.tier == "thorough"
        self.rng = random.Random("%s-%d" % (pid, self.seed))
        self.t0 = time.time()
        self.cov = {"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "evaluations": 0,
                    "distinct_nontrivial": 0, "rule": "", "samples": [], "parts": {}}
        self.assumptions = []
        self.tmp = tempfile.mkdtemp(prefix="vp-%s-" % pid)
        os.environ["VERIF_TMP"] = self.tmp
        self.distinct = set()
        self.findings = []

    def elapsed(self): return time.time() - self.t0
    def budget(self, quick, thorough): return thorough if self.thorough else quick
    def log(self, *a): print("[%s %6.1fs]" % (self.pid, self.elapsed()), *a, flush=True)

    def tlc(self, r, part=None):
        self.cov["states"] += r.distinct; self.cov["transitions"] += r.states
        if part: self.cov["parts"].setdefault(part, {"states": 0, "transitions": 0})
        if part:
            self.cov["parts"][part]["states"] += r.distinct
            self.cov["parts"][part]["transitions"] += r.states

    def case(self, key, nontrivial=True, sample=None):
        self.cov["evaluations"] += 1
        if nontrivial: self.distinct.add(key if isinstance(key, str) else json.dumps(key, sort_keys=True))
        if sample is not None and len(self.cov["samples"]) < 5: self.cov["samples"].append(sample)

    def traces(self, n): self.cov["traces_validated_against_impl"] += n

    def violation(self, what, data=None): raise Violation(what, data)

    def known(self, what):
        self.findings.append(what)

    def finish(self, viol):
        self.cov["distinct_nontrivial"] = len(self.distinct)
        ev = {"property": self.pid, "tier": self.tier, "seed": self.seed, "level": self.level, "coverage": self.cov,
              "assumptions": self.assumptions, "wall_s": round(self.elapsed(), 2), "violations": 1 if viol else 0}
        if not self.cov["samples"]: self.cov["samples"] = ["none"]
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.pid + ".json"), "w") as f: json.dump(ev, f, indent=1, default=str)
        shutil.rmtree(self.tmp, ignore_errors=True)

def main(pid, level, fn):
    c = Check(pid, level)
    try:
        fn(c)
    except Violation as v:
        os.makedirs(os.path.join(VERIF, "replay"), exist_ok=True)
        path = os.path.join(VERIF, "replay", "%s-%d.json" % (pid, int(time.time())))
        with open(path, "w") as f: json.dump({"property": pid, "what": v.what, "data": v.data, "seed": c.seed, "tier": c.tier}, f, indent=1, default=str)
        for k in c.findings: print("KNOWN-FINDING: property=%s %s" % (pid, k))
        print("what: " + str(v.what)[:2000])
        print("data: " + json.dumps(v.data, default=str)[:3000])
        c.finish(True)
        print("VIOLATION property=%s replay=%s" % (pid, path))
        return 1
    except Exception:
        traceback.print_exc()
        c.finish(False)
        return 2
    for k in c.findings: print("KNOWN-FINDING: property=%s %s" % (pid, k))
    c.finish(False)
    c.log("held on everything explored;", json.dumps({k: v for k, v in c.cov.items() if isinstance(v, int)}))
    return 0

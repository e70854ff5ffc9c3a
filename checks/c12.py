"""C12: spec/Results.tla (saving with faults) and every file operation of the real program failed or killed in turn; directories validated (ResultsTrace)."""
import os, re, shutil
from vp import tlc
from vp.runs import Runner, Cfg, parallel, digest
from vp.pool import schedule
from vp.textio import Malformed
LEVEL = "fault_enumeration"

KINDS = ["crash", "after", "short", "enospc", "full"]
SWITCHES = ["RecordFirst", "InPlace", "IgnoreFailure", "Forgetful"]

def results(c, np, runs, pairs, on=None, timeout=3000):
    r = tlc.run("Results", "SPECIFICATION Spec\nCONSTANTS\n Packages = {%s}\n MaxRuns = %d\n MaxPairs = %d\n%s\nINVARIANT PairsOK Apart Complete Census\nPROPERTY Kept" % (
        ", ".join("p%d" % i for i in range(np)), runs, pairs, "\n".join(" %s = %s" % (n, "TRUE" if n == on else "FALSE") for n in SWITCHES)), timeout=timeout)
    c.tlc(r, "Results with %d packages, %d runs, %d pairs%s" % (np, runs, pairs, ", " + on if on else ""))
    if r.ok != (on is None): raise RuntimeError("Results %s: %s" % (on, r.out[-3000:]))

def ops(log): return [(int(a), b, p) for a, b, p in re.findall(r"^OP (\d+) (\S+) ?(.*)$", log, re.M)]

def base(c, R):
    """runs whose operations are enumerated: (configurations, workers, schedule)"""
    out = []
    for cfgs, n, seeds in [([Cfg(3, 1, 1, False, None, 12, "r0")], 2, c.budget(4, 12)), ([Cfg(3, 1, 1, False, 2, 5, "r0"), Cfg(5, 1, 1, True, None, 30, "r1")], 3, c.budget(3, 8)),
                           ([Cfg(3, 1, 2, True, 1, 20, "r0")], 1, c.budget(3, 8)), ([Cfg(5, 1, 1, False, None, 8, "a/b/c")], 4, c.budget(2, 6))]:
        for s in range(seeds):
            vs = schedule(c.rng); vs["VS_JUMP"] = c.rng.choice([100, 300, 600]); out.append((cfgs, n, vs))
    return out

def run(c):
    R = Runner(c, "hycu-threaded-inst", "hycu-merger", "filedrv", "vsched.so")
    results(c, 3, 2, 3)
    for s in SWITCHES[:3]: results(c, 2, 2, 3, s)
    if c.thorough: results(c, 3, 3, 4); results(c, 4, 2, 3, timeout=6000)
    c.log("model checked")
    jobs = []
    bases = base(c, R)
    for cfgs, n, vs in bases:
        R.packages(cfgs); d = R.dir("o")
        r = R.threaded(cfgs, d, n, dict(vs, VS_DIR=d), timeout=180); shutil.rmtree(d)
        k = len(ops(r.log))
        if r.rc != 0: c.violation("an undisturbed run ends with status %s" % r.rc, {"stderr": r.err[-500:]})
        if k < 5: raise RuntimeError("file operations are not seen")
        jobs += [(cfgs, n, vs, kind, i) for kind in KINDS for i in range(1, k + 1)]
    c.cov["parts"]["points of failure"] = len(jobs)
    if not c.thorough and len(jobs) > 1800: jobs = c.rng.sample(jobs, 1800)
    # further faults while recovering
    def one(j):
        cfgs, n, vs, kind, k = j; d = R.dir("o"); rows = []; info = {"configurations": [x.short() for x in cfgs], "workers": n, "scheduler": vs, "fault": "%s at operation %d" % (kind, k)}
        rng = __import__("random").Random("%s %s %s" % (c.seed, kind, k))
        def look(what, whole, merge):
            for cfg in cfgs:
                p = os.path.join(d, cfg.path)
                if not os.path.isdir(p):
                    if whole: raise Malformed("no directory of results")
                    continue
                m = R.merge(p) if merge else None
                if m is not None and (m.rc != 0 or m.rec is None): raise Malformed("merging fails with status %s: %s" % (m.rc, m.err[-200:]))
                rows.append((R.row(cfg, p, whole, m), what))
        try:
            r = R.threaded(cfgs, d, n, dict(vs, VS_DIR=d, VS_FAULT="%s:%d" % (kind, k)), timeout=180)
            info["operations"] = [" ".join(map(str, o)) for o in ops(r.log)][max(0, k - 4):k + 2]
            look("after the fault", False, True)
            if rng.random() < .3:
                r = R.threaded(cfgs, d, rng.choice([1, 2, 3]), dict(vs, VS_SEED=rng.randrange(10 ** 6), VS_DIR=d, VS_FAULT="%s:%d" % (rng.choice(KINDS), rng.randint(1, 20))), timeout=180)
                look("after a second fault", False, False)
            r = R.threaded(cfgs, d, rng.choice([1, 2, 4]), dict(vs, VS_SEED=rng.randrange(10 ** 6)), timeout=180)
            if r.rc != 0: raise Malformed("the run after it ends with status %s: %s" % (r.rc, r.err[-300:]))
            look("after the run that followed", True, True)
        except (Malformed, OSError) as x: info["problem"] = str(x)
        shutil.rmtree(d, ignore_errors=True)
        return rows, info
    rows = []; meta = []
    for rs, info in parallel(one, jobs, stop=lambda x: "problem" in x[1]):
        c.case(info["fault"] + str(info["configurations"]))
        if "problem" in info: c.violation("after %s: %s" % (info["fault"], info["problem"]), info)
        for r, what in rs: rows.append(r); meta.append(dict(info, when=what))
    c.log("%d faults" % len(jobs))
    ok, bad, r = R.validate(rows)
    c.tlc(r, "result directories")
    if not ok: c.violation("%s (%s) the directory is not consistent" % (meta[bad]["when"], meta[bad]["fault"]), dict(meta[bad], files=[{"name": f["name"], "rec": f["rec"], "lines": [l["t"] for l in f["lines"]][:60]} for f in rows[bad]["files"]][:40], merged=rows[bad].get("merged", {}).get("rec")))
    c.traces(len(rows))
    c.cov["samples"] = [meta[0], meta[-1]]
    c.cov["rule"] = "each file operation of the runs (count in parts) killed before, after and in the middle, and failed once or for good; quick tier: up to 1800 of them; non-trivial: distinct faults"
    c.assumptions.append("the process dies; what it wrote before is kept by the system (no power loss)")

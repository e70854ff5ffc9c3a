"""C09: spec/PoolImpl.tla refines PoolAbs; recorded runs of the real pool validated (PoolTrace); directories of real runs validated (ResultsTrace)."""
import os, shutil
from vp.runs import Runner, Cfg, parallel
from vp.pool import Pool, schedule
from vp.poolmodel import model
from vp.textio import Malformed
from checks.c11 import judge
LEVEL = "model_checking"

CFGS = [Cfg(3, 1, 1, False, None, 12), Cfg(3, 1, 1, False, None, 3), Cfg(3, 1, 1, False, 2, 2), Cfg(5, 1, 1, False, 1, 30), Cfg(5, 1, 1, True, None, 6), Cfg(3, 1, 2, True, 1, 20), Cfg(3, 1, 2, False, None, 9),
        Cfg(3, 2, 1, True, 1, 40)]

def saving(rng):
    s = schedule(rng); s["VS_JUMP"] = rng.choice([20, 100, 300, 600]); return s

def life(rng, cfg):
    s = ["C " + cfg.drv()]
    for k in range(rng.randint(1, 6)): s.append(rng.choice(["A %d" % rng.randint(1, 4), "V", "V", "Q"]))
    return s + rng.choice([["A"], ["A", "Q"], ["A", "V"], []])

def directories(c, R, jobs, whole=True):
    """jobs: (cfgs, workers, schedule): complete runs of the program, every result directory validated"""
    def one(j):
        d = R.dir("o"); r = R.threaded(j[0], d, j[1], j[2], timeout=180)
        try: rows = [R.row(cfg, os.path.join(d, cfg.path), whole) for cfg in j[0]] if r.rc == 0 else None
        except (Malformed, OSError) as x: rows = str(x)
        shutil.rmtree(d, ignore_errors=True); return r, rows
    rows = []; meta = []
    R.packages([x for j in jobs for x in j[0]])
    for j, (r, rs) in zip(jobs, parallel(one, jobs, stop=lambda x: not isinstance(x[1], list))):
        info = {"configurations": [x.short() + " " + x.path for x in j[0]], "workers": j[1], "scheduler": j[2], "stderr": r.err[-500:], "log": r.log[-500:]}
        if rs is None: c.violation("a run ends with status %s" % r.rc, info)
        if isinstance(rs, str): c.violation("a run leaves a malformed pair: " + rs, info)
        rows += rs; meta += [info] * len(rs)
    ok, bad, r = R.validate(rows)
    c.tlc(r, "result directories")
    if not ok: c.violation("the saved pairs are not consistent with the packages", dict(meta[bad], files=[{"name": f["name"], "rec": f["rec"], "lines": [l["t"] for l in f["lines"]][:60]} for f in rows[bad]["files"]][:40], packages=len(R.packages([j[0][0]])[0][1])))
    c.traces(len(rows))
    return sum(len(r["files"]) for r in rows), sum(len(f["rec"]) > 0 for r in rows for f in r["files"])

def run(c):
    R = Runner(c, "pooldrv", "filedrv", "vsched.so", "hycu-threaded-inst"); P = Pool(c, R)
    model(c, 2, 3, 1, props="AbsSpec"); model(c, 2, 2, 1, oldflush=True, props="", expect=False, part="negative control")
    if c.thorough: model(c, 3, 3, 1, props="AbsSpec"); model(c, 2, 4, 2, props="AbsSpec", timeout=3000); model(c, 3, 4, 1, props="AbsSpec", timeout=6000)
    R.packages(CFGS); c.log("model checked")
    jobs = []
    for i in range(c.budget(500, 8000)):
        cfg = c.rng.choice(CFGS[:6]); n = c.rng.choice([1, 2, 2, 3, 4])
        jobs.append(("standalone", n, [cfg], life(c.rng, cfg), saving(c.rng))); c.case(str(jobs[-1][1:2] + jobs[-1][3:]))
    judge(c, P, jobs)
    c.log("%d runs of the pool validated" % len(jobs))
    jobs = []
    for i in range(c.budget(500, 5000)):
        cfg = c.rng.choice(CFGS); jobs.append(([cfg], c.rng.choice([1, 2, 3, 4, 8]), saving(c.rng))); c.case(cfg.short() + str(jobs[-1][1:]))
    # more saves than a process may have files open
    for _ in range(c.budget(1, 6)):
        cfg = Cfg(1009, 1, 1, True, 1, 2); vs = dict(saving(c.rng), VS_MODE="sticky", VS_FP=0, VS_MAX=10 ** 8, VS_JUMP=1000); jobs.append(([cfg], c.rng.choice([1, 2, 3]), vs)); c.case("many saves" + str(vs))
    for n in (256, 300): jobs.append(([Cfg(1009, 1, 1, True, 1, 4)], n, dict(saving(c.rng), VS_MODE="sticky", VS_FP=0, VS_MAX=10 ** 8))); c.case("%d workers" % n)
    n, k = directories(c, R, jobs)
    c.cov["parts"]["saved pairs"] = n; c.cov["parts"]["saved pairs with packages"] = k
    if k <= len(jobs): raise RuntimeError("no periodic saves happened")
    c.cov["samples"] = [jobs[0][0][0].short() + str(jobs[0][1:])]
    c.cov["rule"] = "random lives of the complete pool and complete program runs with clock jumps (periodic saves) under random schedules; non-trivial: distinct pairs of life and schedule"
    c.assumptions.append("threads interfere only at synchronisation operations, clock readings, file operations and function entries (granularity of the scheduler)")
    c.assumptions.append("contributions of the packages are computed one after another by the repository's classes (their correctness is C01 to C08)")

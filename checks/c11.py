"""C11: behaviours of the abstract pool (spec/PoolAbs.tla) replayed in the real thread pool, recorded runs validated (PoolTrace)."""
import shutil
from vp.runs import Runner, Cfg, parallel
from vp.pool import Pool, schedule, scripts
from vp.poolmodel import model
from vp.mpirun import Mpi
from vp.moduli import moduli
LEVEL = "model_checking"

CFGS = [Cfg(3, 1, 1, False, None, 12), Cfg(3, 1, 1, False, None, 8), Cfg(3, 1, 1, True, None, 4), Cfg(3, 1, 1, False, None, 3), Cfg(5, 1, 1, True, None, 6), Cfg(3, 1, 2, True, 1, 20)]

def judge(c, P, jobs):
    """jobs: (mode, n, cfgs, script, schedule); runs them, validates what was observed"""
    def one(j):
        r = P.run(j[0], j[1], j[3], j[4]); f = P.failed(r)
        if f:
            r2 = P.run(j[0], j[1], j[3], j[4], timeout=180); f2 = P.failed(r2)
            if f2 is None: c.log("not repeated:", f)
            r, f = r2, f2
        return r, f
    res = parallel(one, jobs, stop=lambda x: x[1])
    rows = []; meta = []
    for j, (r, f) in zip(jobs, res):
        if f:
            c.violation("the pool does not go through a behaviour the specification has: " + f, {"script": j[3], "workers": j[1], "scheduler": j[4], "events": r.events[-20:], "log": r.log[-800:]})
        rows.append(P.row(j[0], j[1], j[2], r)); meta.append(j)
    bad = P.validate(rows)
    for b in bad:
        at, before, ev = P.explain(rows[b]); j = meta[b]
        c.violation("the specification has no behaviour that explains event %d of a run: %s" % (at, ev),
                    {"workers": j[1], "configurations": [x.short() for x in j[2]], "script": j[3], "scheduler": j[4], "events before": before})
    c.traces(len(rows))
    return rows

def distributed(c, R):
    """the same with several processes, each with threads of its own: spec/MpiTrace.tla, guarantees Credit, OneProcess, reports, Idle"""
    M = Mpi(c, R); jobs = []
    if not M.so: return
    for i in range(c.budget(400, 4000)):
        vs = schedule(c.rng); vs["VMPI_SYNC"] = c.rng.choice([0, 100, 500, 1000]); vs["VS_JUMP"] = c.rng.choice([0, 0, 20, 100])
        jobs.append(([c.rng.choice(CFGS)] if i % 4 == 0 else moduli(c.rng, 3), c.rng.choice([2, 2, 3, 3, 4]), c.rng.choice([1, 1, 2, 3]), vs))
        c.case(str([x.short() for x in jobs[-1][0]]) + str(jobs[-1][1:]))
    R.packages([x for j in jobs for x in j[0]])
    def info(j, r): return {"configurations": [x.short() + " " + x.path for x in j[0]], "processes": j[1], "threads": j[2], "scheduler": j[3], "stderr": r.err[-500:], "log": r.log[-500:]}
    def one(j):
        d = R.dir("o"); r = M.sched(j[0], d, j[1], j[2], j[3]); shutil.rmtree(d, ignore_errors=True)
        return r, M.row(j[0], j[1], j[2], r, kind="pool") if r.rc == 0 else None
    rows = []
    for j, (r, row) in zip(jobs, parallel(one, jobs, stop=lambda x: x[1] is None)):
        if row is None: c.violation("a distributed run ends with status %s" % r.rc, info(j, r))
        rows.append(row)
    ok, bad, t = M.validate(rows); c.tlc(t, "messages of distributed runs")
    if not ok: c.violation("packages of a distributed run are not handed out and reported as the specification allows: " + " ".join(l for l in t.out.splitlines() if "BAD" in l)[:600], dict(info(jobs[bad], r), messages=rows[bad]["msgs"][:400]))
    c.traces(len(rows))

def run(c):
    R = Runner(c, "pooldrv", "filedrv", "vsched.so"); P = Pool(c, R)
    model(c, 2, 3, 1, props="AbsSpec")
    if c.thorough: model(c, 3, 3, 1, props="AbsSpec"); model(c, 3, 4, 1, props="AbsSpec", timeout=3000); model(c, 2, 5, 2, props="AbsSpec", timeout=3000)
    jobs = []
    pk = R.packages(CFGS)
    for cfg, p in zip(CFGS, pk):
        np = len(p[1])
        for n in (1, 2, 3, 4, 6):
            for s in scripts(c, n, np, c.budget(12, 150), c.rng.randrange(10 ** 6), depth=30 * np + 50)[:c.budget(12, 150)]:
                jobs.append(("pool", n, [cfg], ["C " + cfg.drv(), "T"] + s, schedule(c.rng)))
                c.case("%s n=%d %s" % (cfg.short(), n, s))
    # the same behaviours in the complete pool: offers are its own business, but a package never has to wait while a worker is free
    for j in list(jobs)[::2]:
        s = [{"N": "A 1", "S": "V"}.get(x, x) for x in j[3] if x[0] not in "RFD"]
        jobs.append(("standalone", j[1], j[2], s + ["O", "Q"], schedule(c.rng))); c.case("%s n=%d %s" % (j[2][0].short(), j[1], s))
    c.log("%d behaviours" % len(jobs))
    judge(c, P, jobs)
    c.log("behaviours of the specification replayed")
    jobs = []
    for i in range(c.budget(120, 3000)):
        cfg = c.rng.choice(CFGS); n = c.rng.choice([1, 2, 3, 4])
        s = ["C " + cfg.drv()]
        for k in range(c.rng.randint(1, 4)): s += [c.rng.choice(["A %d" % c.rng.randint(1, 5), "V", "Q"])]
        jobs.append(("standalone", n, [cfg], s + ["A", "Q"], schedule(c.rng)))
        c.case("%s n=%d %s" % (cfg.short(), n, s))
    # more workers than fit into a byte
    for n in (257, 300):
        vs = dict(schedule(c.rng), VS_MODE="sticky", VS_FP=0, VS_MAX=10 ** 8); big = Cfg(1009, 1, 1, True, 1, 60)
        jobs.append(("standalone", n, [big], ["C " + big.drv(), "A", "Q"], vs)); c.case("%d workers" % n)
        jobs.append(("pool", n, [big], ["C " + big.drv(), "R %d" % n] + ["N"] * 20 + ["F 20", "S", "D"], vs)); c.case("%d workers of the thread pool" % n)
    judge(c, P, jobs)
    c.log("runs of the complete pool")
    distributed(c, R)
    c.cov["samples"] = [" ".join(jobs[0][3])[:400]]
    c.cov["rule"] = "scripts generated by TLC from PoolGen for up to 6 workers, replayed at gates under random schedules, and free runs of the complete pool (some with hundreds of workers) and of two to four processes; non-trivial: distinct scripts"
    c.assumptions.append("threads interfere only at synchronisation operations, clock readings, file operations and function entries (granularity of the scheduler)")

"""C10: liveness of spec/PoolImpl.tla and the real pool and program under many schedules (deadlocks and lack of progress are detected)."""
import os, shutil
from vp.runs import Runner, Cfg, parallel
from vp.pool import Pool, schedule
from vp.poolmodel import model
from vp import tlc
LEVEL = "model_checking"

CFGS = [Cfg(3, 1, 1, False, None, 12), Cfg(3, 1, 1, False, None, 3), Cfg(3, 1, 1, True, 1, 1000), Cfg(5, 1, 1, True, None, 6), Cfg(3, 1, 2, True, 1, 20), Cfg(3, 2, 1, True, 1, 60)]

def script(rng):
    """lives of a complete worker pool: idle, busy, several moduli, saves, waits, early ends"""
    s = []
    for k in range(rng.choice([0, 1, 1, 1, 2, 3])):
        s.append("C " + rng.choice(CFGS).drv())
        for j in range(rng.randint(0, 4)): s.append(rng.choice(["A %d" % rng.randint(1, 6), "A", "V", "Q"]))
    return s

def direct(rng, n):
    """handing out packages one after the other at a thread pool, as fast as it takes them"""
    cfg = rng.choice(CFGS[:2]); np = {12: 6, 3: 14}[cfg.size]; m = rng.randint(0, np); s = ["C " + cfg.drv(), "R %d" % n]
    out = 0
    for i in range(m):
        if out >= n: s.append("R 1")
        s.append("N"); out += 1
        if rng.random() < .2: s.append("S")
    return s + (["F %d" % m] if m else []) + ["S", "D"]

def lazy(c, n, uses, warm, part):
    r = tlc.run("LazyInit", "SPECIFICATION Spec\nCONSTANTS\n Workers = {%s}\n Warm = %s\n Uses = %d\nINVARIANT Complete\n" % (", ".join("w%d" % i for i in range(n)), str(warm).upper(), uses))
    c.tlc(r, part)
    if r.ok != warm: raise RuntimeError("LazyInit: %s\n%s" % (r.kind, r.out[-2000:]))

def run(c):
    R = Runner(c, "pooldrv", "filedrv", "vsched.so", "hycu-threaded-inst"); P = Pool(c, R)
    model(c, 2, 3, 0); model(c, 2, 3, 0, split=2, part="PoolImpl with two moduli")
    model(c, 2, 2, 0, oldwait=True, expect=False, part="negative control")
    if c.thorough: model(c, 3, 3, 1, timeout=3000); model(c, 3, 4, 0, timeout=6000); model(c, 2, 4, 1, split=2, timeout=3000)
    lazy(c, 3, 2, True, "LazyInit, warmed up"); lazy(c, 2, 2, False, "negative control: LazyInit without warming up")
    c.log("model checked")
    # number of packages the direct scripts rely on
    pk = R.packages(CFGS); sizes = {cfg.size: len(p[1]) for cfg, p in zip(CFGS, pk)}
    if sizes[12] < 6 or sizes[3] < 14: raise RuntimeError("packages: %r" % sizes)
    jobs = []
    for i in range(c.budget(5000, 60000)):
        n = c.rng.choice([1, 1, 2, 2, 3, 4, 8])
        if i % 2: jobs.append(("standalone", n, script(c.rng), schedule(c.rng)))
        else: jobs.append(("pool", n, direct(c.rng, n), schedule(c.rng)))
    def one(j):
        r = P.run(j[0], j[1], j[2], j[3]); f = P.failed(r)
        if f:
            r2 = P.run(j[0], j[1], j[2], j[3], timeout=180); f2 = P.failed(r2)
            return (f2, r2) if f2 else None
        if not r.events or r.events[-1]["e"] != "exit": return ("the run ended without coming to its end", r)
    for j, b in zip(jobs, parallel(one, jobs, stop=bool)):
        c.case(str(j))
        if b:
            c.violation("a run does not end: " + b[0], {"mode": j[0], "workers": j[1], "script": j[2], "scheduler": j[3], "events": b[1].events[-20:], "log": b[1].log[-1500:]})
    c.traces(len(jobs))
    c.log("%d lives of a pool" % len(jobs))
    # the real program
    jobs = []
    for i in range(c.budget(800, 8000)):
        cfgs = [Cfg(x.p, x.n, x.g, x.mark, x.count, x.size, "r%d" % k) for k, x in enumerate(c.rng.choices(CFGS, k=c.rng.choice([1, 1, 2])))]
        jobs.append((cfgs, c.rng.choice([1, 2, 3, 4, 8]), schedule(c.rng)))
    # more workers than fit into a byte
    for n in (257, 300, 256, 512)[:c.budget(3, 4)]:
        for x in (Cfg(1009, 1, 1, True, 1, 4), Cfg(3, 1, 1, False, None, 12)): jobs.append(([x], n, dict(schedule(c.rng), VS_MODE="sticky", VS_FP=0, VS_MAX=10 ** 8)))
    def prog(j):
        d = R.dir("o"); r = R.threaded(j[0], d, j[1], j[2])
        if r.rc != 0:
            shutil.rmtree(d); os.makedirs(d); r = R.threaded(j[0], d, j[1], j[2], timeout=180)
        shutil.rmtree(d, ignore_errors=True); return r
    for j, r in zip(jobs, parallel(prog, jobs, stop=lambda r: r.rc != 0)):
        c.case("%s %s %s" % ([x.short() for x in j[0]], j[1], j[2]))
        if r.rc != 0: c.violation("the program does not end properly: status %s" % r.rc, {"configurations": [x.short() for x in j[0]], "workers": j[1], "scheduler": j[2], "stderr": r.err[-500:], "log": r.log[-1500:]})
    c.traces(len(jobs))
    c.cov["samples"] = [str(jobs[0][1:])]
    c.cov["rule"] = "random lives of the thread pool and of the complete pool (up to 8 workers, with and without work) and complete program runs (some with hundreds of workers), each under one random schedule (uniform, sticky or priority based; clock jumps, spurious wake-ups); non-trivial: distinct pairs of life and schedule"
    c.assumptions.append("threads interfere only at synchronisation operations, clock readings, file operations and function entries (granularity of the scheduler)")

"""C16: several moduli in one configuration: spec/PoolImpl.tla with two moduli, recorded runs (PoolTrace), directories (ResultsTrace)."""
from vp.moduli import BASE, moduli
from vp.runs import Runner, Cfg
from vp.pool import Pool
from vp.poolmodel import model
from checks.c11 import judge
from checks.c09 import saving, directories
LEVEL = "model_checking"

def run(c):
    R = Runner(c, "pooldrv", "filedrv", "vsched.so", "hycu-threaded-inst"); P = Pool(c, R)
    for s in ((1, 2) if not c.thorough else (1, 2, 3)):
        model(c, 2, 3 if not c.thorough else 4, 1, split=s, props="AbsSpec", timeout=3000)
    model(c, 2, 3, 1, split=1, nowait=True, props="", invs="PathsOK", expect=False, part="negative control")
    c.log("model checked"); R.packages(BASE)
    jobs = []
    for i in range(c.budget(300, 5000)):
        cfgs = moduli(c.rng, 3); s = []
        for x in cfgs:
            s.append("C " + x.drv())
            for k in range(c.rng.randint(0, 3)): s.append(c.rng.choice(["A %d" % c.rng.randint(1, 6), "A %d" % c.rng.randint(1, 20), "V", "Q"]))
        jobs.append(("standalone", c.rng.choice([1, 2, 3, 4]), cfgs, s, saving(c.rng))); c.case(str(s) + str(jobs[-1][4]))
    judge(c, P, jobs)
    c.log("%d runs of the pool validated" % len(jobs))
    jobs = []
    for i in range(c.budget(400, 4000)):
        jobs.append((moduli(c.rng), c.rng.choice([1, 2, 3, 4, 8]), saving(c.rng))); c.case(str([x.short() for x in jobs[-1][0]]) + str(jobs[-1][1:]))
    n, k = directories(c, R, jobs)
    c.cov["parts"]["saved pairs"] = n
    c.cov["samples"] = [str([x.short() for x in jobs[0][0]]) + str(jobs[0][1:])]
    c.cov["rule"] = "random lists of two to four moduli, many differing in one field only, run by the complete pool and by the program under random schedules with periodic saves; non-trivial: distinct pairs of list and schedule"
    c.assumptions.append("threads interfere only at synchronisation operations, clock readings, file operations and function entries (granularity of the scheduler)")

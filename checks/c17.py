"""C17: spec/MpiPool.tla (processes and messages) refines PoolAbs; the real master and worker loops scheduled with their messages
(MpiTrace), directories of these runs and of real runs with mpirun (ResultsTrace)."""
import os, random, shutil
from vp.runs import Runner, Cfg, parallel, digest, pairs, blk
from vp.pool import schedule
from vp.mpimodel import model
from vp.mpirun import Mpi
from vp.textio import Malformed
from vp.moduli import moduli
from checks.c12 import ops
LEVEL = "model_checking"

CFGS = [Cfg(3, 1, 1, False, None, 5), Cfg(3, 1, 1, False, 2, 2), Cfg(3, 1, 1, True, None, 3), Cfg(5, 1, 1, False, 1, 30), Cfg(5, 1, 1, True, None, 6), Cfg(3, 1, 2, True, 1, 20), Cfg(3, 2, 1, True, 1, 40), Cfg(7, 1, 1, True, 2, 9)]

def models(c):
    model(c, 2, 1, 3, 1, split=1); model(c, 2, 2, 4, 1, split=2); model(c, 3, 1, 4, 1, split=2); model(c, 0, 2, 3, 1, split=1)
    for sw, inv, n in (("NoWait", "PathsOK", 4), ("Greedy", "Credit", 3), ("OwnOnly", "EndState", 3), ("Overtake", "PathsOK", 3), ("NoConfig", "PathsOK", 3)):
        model(c, 2, 1, n, 0, split=(n // 2 if sw in ("NoWait", "Overtake", "NoConfig") else 99), switch=sw, invs=inv, props="", expect=False, part="negative controls")
    if c.thorough:
        model(c, 3, 2, 6, 1, split=3, timeout=5000); model(c, 4, 1, 5, 1, split=2, timeout=5000); model(c, 2, 3, 7, 2, split=4, timeout=5000)

def refused(rng):
    """(name, text of the configuration, arguments; None: the usual ones) that no run can follow"""
    ok = Cfg(3, 1, 1, False, None, 5).yaml
    first = lambda x, y: "Moduli:\n  - " + ok("    ").lstrip().replace(x, y) + "\n"
    one = first("Genus", "Genus")
    bad = [("unknown store type", "StoreType: XY\n" + one),
           ("genus 0", first("Genus: 1", "Genus: 0")),
           ("second modulus with exponent 0", one + "  - " + ok("    ").lstrip().replace("PrimeExponent: 1", "PrimeExponent: 0").replace("ResultPath: r", "ResultPath: s") + "\n"),
           ("package size 0", first("PackageSize: 5", "PackageSize: 0")), ("no result path", first("ResultPath: r", "Result: r"))]
    return bad

def run(c):
    R = Runner(c, "hycu-mpi", "hycu-merger", "filedrv", "vsched.so", "hycu-threaded-inst"); M = Mpi(c, R, 20)
    models(c); c.log("model checked")
    R.packages(CFGS)
    jobs = []
    for i in range(c.budget(2500, 30000) if M.so else 0):
        cfgs = [c.rng.choice(CFGS)] if i % 3 else moduli(c.rng, 3)
        vs = schedule(c.rng); vs["VS_JUMP"] = c.rng.choice([0, 0, 20, 100, 300]); vs["VMPI_SYNC"] = c.rng.choice([0, 100, 500, 1000])
        jobs.append((cfgs, c.rng.choice([1, 2, 2, 3, 3, 4, 5]), c.rng.choice([1, 1, 2, 3]), vs, c.rng.random() < .25, c.rng.randrange(10 ** 9)))
        c.case(str([x.short() for x in cfgs]) + str(jobs[-1][1:]))
    # many processes, many threads
    for i in range(c.budget(6, 30) if M.so else 0):
        cfg = Cfg(1009, 1, 1, True, 1, c.rng.choice([4, 20, 60])); procs, n = c.rng.choice([(2, 257), (2, 300), (3, 150), (3, 256), (20, 3), (17, 20), (20, 14), (9, 33)])
        jobs.append(([cfg], procs, n, dict(schedule(c.rng), VS_MODE="sticky", VS_FP=0, VS_MAX=10 ** 8, VMPI_SYNC=c.rng.choice([0, 1000])), False, c.rng.randrange(10 ** 9))); c.case("many" + str(jobs[-1][1:]))
    R.packages([x for j in jobs for x in j[0]])
    def info(j, r): return {"configurations": [x.short() + " " + x.path for x in j[0]], "processes": j[1], "threads": j[2], "scheduler": j[3], "stderr": r.err[-500:], "log": r.log[-500:], "messages": r.msgs[-30:] if hasattr(r, "msgs") else None}
    def one(j):
        cfgs, procs, n, vs, interrupted, seed = j; rng = random.Random(seed); d = R.dir("o"); msgs = []; dirs = []; skip = None; r = None
        try:
            before = {}
            if interrupted:
                # the whole computation dies somewhere, then starts again
                d2 = R.dir("dry"); o = ops(M.sched(cfgs, d2, procs, n, dict(vs, VS_DIR=d2)).log); shutil.rmtree(d2)
                k = rng.randint(1, max(1, len(o)))
                M.sched(cfgs, d, procs, n, dict(vs, VS_DIR=d, VS_FAULT="%s:%d" % (rng.choice(["crash", "after", "short"]), k)))
                skip = []
                for x in cfgs:
                    p = os.path.join(d, x.path); ids = R.packages([x])[0][1]
                    skip.append(sorted({ids.get(blk(b), 0) for f in pairs(p) for b in f[0]}) if os.path.isdir(p) else [])
                before = digest(d); procs = rng.choice([1, 2, 3, 4]); vs = dict(vs, VS_SEED=rng.randrange(10 ** 9))
            r = M.sched(cfgs, d, procs, n, vs)
            if r.rc != 0: return r, "a distributed run ends with status %s" % r.rc, None, None
            if procs > 1: msgs.append(M.row(cfgs, procs, n, r, skip))
            for i, x in enumerate(cfgs):
                p = os.path.join(d, x.path); row = R.row(x, p, True, R.merge(p) if rng.random() < .4 else None)
                if i == 0: row["before"] = sorted(map(list, before.items())); row["after"] = sorted(map(list, digest(d).items()))
                dirs.append(row)
            return r, None, msgs, dirs
        except (Malformed, OSError) as x: return r, str(x), None, None
        finally: shutil.rmtree(d, ignore_errors=True)
    rows = []; meta = []; drows = []; dmeta = []
    for j, (r, problem, ms, ds) in zip(jobs, parallel(one, jobs, stop=lambda x: x[1])):
        if problem: c.violation(problem, info(j, r))
        rows += ms; meta += [(j, r)] * len(ms); drows += ds; dmeta += [(j, r)] * len(ds)
    c.log("%d distributed runs scheduled" % len(jobs))
    if rows:
        ok, bad, t = M.validate(rows); c.tlc(t, "messages")
        if not ok: c.violation("the messages of a distributed run are not what the specification allows: " + " ".join(l for l in t.out.splitlines() if "BAD" in l)[:600], dict(info(*meta[bad]), row=rows[bad]["msgs"][:400]))
        c.cov["parts"]["messages looked at"] = sum(len(r["msgs"]) for r in rows)
    # refused configurations: the run ends, with an error, for every process
    rej = []
    for name, text in refused(c.rng):
        for procs in (2, 3):
            if M.so:
                d = R.dir("o"); vs = dict(schedule(c.rng), VMPI_SYNC=c.rng.choice([0, 1000]))
                r = M.sched(None, d, procs, 2, vs, text=text); rej.append((name, procs, r)); shutil.rmtree(d)
    d = R.dir("o")
    if M.so: rej.append(("missing configuration", 3, M.sched(None, d, 3, 2, dict(schedule(c.rng)), args=[os.path.join(c.tmp, "none.yaml"), d], text="")))
    jobs2 = [([x], p, n, None) for x, p, n in ((CFGS[0], 2, 2), (CFGS[4], 3, 1), (CFGS[5], 4, 2), (CFGS[3], 1, 3))] + [(moduli(c.rng, 3), 3, 2, None) for _ in range(c.budget(2, 12))]
    R.packages([x for j in jobs2 for x in j[0]])
    for name, text in refused(c.rng)[:2]: rej.append((name + " (mpirun)", 3, M.real(None, d, 3, 2, 60, text=text)))
    rej.append(("missing configuration (mpirun)", 3, M.real(None, d, 3, 2, 60, args=[os.path.join(c.tmp, "none.yaml"), d], text="")))
    for name, procs, r in rej:
        c.case("refused %s %d" % (name, procs))
        if r.rc in (0, "timeout", 97, 98): c.violation("a run with %s, %d processes, %s" % (name, procs, "reports success" if r.rc == 0 else "does not end"), {"rc": r.rc, "stderr": r.err[-500:], "log": r.log[-500:]})
    c.log("%d refused configurations" % len(rej))
    for j in jobs2:
        d = R.dir("o"); r = M.real(j[0], d, j[1], j[2]); c.case("mpirun " + str([x.short() for x in j[0]]) + str(j[1:3]))
        if r.rc != 0: c.violation("a run with mpirun ends with status %s" % r.rc, info(j, r))
        try:
            for x in j[0]: p = os.path.join(d, x.path); drows.append(R.row(x, p, True, R.merge(p))); dmeta.append((j, r))
        except (Malformed, OSError) as x: c.violation("a run with mpirun leaves a malformed result: %s" % x, info(j, r))
        shutil.rmtree(d)
    c.log("%d runs with mpirun" % len(jobs2))
    # the same as a single process
    for x in CFGS:
        if x.count == 2 and x.p == 7: continue
        d = R.dir("o"); r = R.threaded([x], d, 2, schedule(c.rng))
        if r.rc == 0: drows.append(R.row(x, os.path.join(d, x.path), True, R.merge(os.path.join(d, x.path)))); dmeta.append((([x], 0, 2, None), r))
        shutil.rmtree(d)
    ok, bad, t = R.validate(drows); c.tlc(t, "result directories")
    if not ok: c.violation("the results of a distributed run are not the sum of its packages", dict(info(*dmeta[bad]), files=[{"name": f["name"], "rec": f["rec"], "lines": [l["t"] for l in f["lines"]][:40]} for f in drows[bad]["files"]][:40]))
    c.traces(len(rows) + len(drows))
    c.cov["samples"] = [str([x.short() for x in jobs[0][0]]) + str(jobs[0][1:])] if jobs else ["mpirun"]
    c.cov["rule"] = "one to five processes with one to three threads each, some with up to 20 processes or 300 threads, one to three moduli, random schedules of threads and messages, sends that wait or not, periodic saves, interrupted and resumed computations; non-trivial: distinct choices"
    c.assumptions.append("messages between two processes do not overtake each other (MPI standard); scheduled runs use harness/mpistub instead of Boost.MPI and Open MPI, which the runs with mpirun use")
    c.assumptions.append("when one process ends with an error, mpirun ends the others")

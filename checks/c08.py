"""C08: complete runs of the real program, merged, against the census computed by TLC (spec/Census.tla, CensusTrace.tla)."""
import glob, json, os, shutil
from vp import tlc
from vp.mathlib import limbs
from vp.runs import Runner, Cfg, parallel, blk
from vp import laws
LEVEL = "model_checking"

# moduli too large for a census: laws only
BOTH = ["all", "odd"]
LAWS = [(101, 1, 1, 1, BOTH), (211, 1, 1, 1, BOTH), (1009, 1, 1, 1, ["odd"]), (10007, 1, 1, 1, ["odd"]), (31, 1, 1, 3, BOTH), (7, 1, 1, 6, BOTH), (13, 1, 1, 4, BOTH), (7, 2, 1, 2, BOTH), (11, 2, 1, 1, BOTH), (5, 3, 1, 2, ["odd"]), (3, 4, 1, 2, BOTH), (3, 5, 1, 1, ["odd"]),
        (13, 1, 2, 3, BOTH), (31, 1, 2, 1, BOTH), (53, 1, 2, 1, ["odd"]), (3, 1, 2, 8, BOTH), (5, 1, 2, 5, BOTH), (3, 2, 2, 2, BOTH), (5, 2, 2, 1, ["odd"]), (7, 1, 3, 3, ["odd"]), (7, 1, 3, 1, BOTH), (11, 1, 3, 1, ["odd"]), (3, 1, 3, 6, BOTH), (5, 1, 3, 4, ["odd"]), (3, 1, 4, 5, ["odd"]), (5, 1, 4, 2, ["odd"]), (3, 1, 5, 3, BOTH), (3, 1, 6, 2, ["odd"]), (3, 2, 3, 1, ["odd"])]
LAWS_MORE = LAWS + [(503, 1, 1, 1, BOTH), (101, 1, 1, 2, ["odd"]), (31, 1, 2, 2, BOTH), (101, 1, 2, 1, ["odd"]), (7, 1, 3, 4, BOTH), (13, 1, 3, 1, BOTH), (3, 1, 5, 6, BOTH), (3, 1, 6, 3, BOTH), (5, 1, 4, 4, BOTH), (3, 1, 7, 2, ["odd"]), (5, 2, 2, 2, BOTH), (3, 3, 2, 1, BOTH), (13, 2, 1, 2, ["odd"]), (3, 6, 1, 1, ["odd"])]

# p, n, genus, exponents counted by the census
QUICK = [(3, 1, 1, 3), (5, 1, 1, 2), (7, 1, 1, 2), (3, 2, 1, 2), (3, 1, 2, 3), (5, 1, 2, 2), (3, 1, 3, 3), (11, 1, 1, 1), (13, 1, 1, 1)]
THOROUGH = QUICK + [(5, 2, 1, 1), (17, 1, 1, 2), (19, 1, 1, 1), (23, 1, 1, 1), (7, 1, 2, 2), (3, 1, 4, 4), (3, 2, 2, 2), (5, 1, 3, 3), (3, 3, 1, 1)]

def census(c, p, n, d, e, all_leads=False):
    out = os.path.join(c.tmp, "census-%d-%d-%d" % (p, n, d))
    r = tlc.run("Census", "SPECIFICATION Spec\nINVARIANT Written\n", env=dict(P=str(p), N=str(n), D=str(d), E=str(e), ALL="1" if all_leads else "0", OUT=out), timeout=20000)
    c.tlc(r, "census q=%d degree %d" % (p ** n, d))
    if not r.ok: raise RuntimeError("census failed: " + r.out[-2000:])
    parts = [json.load(open(f)) for f in sorted(glob.glob(out + ".*"))]
    return {"q": p ** n, "d": d, "parts": parts}

def options(c, p, n, g, emax, k):
    """k settings of a configuration and of the run"""
    out = []
    for i in range(k):
        mark = c.rng.random() < .5 if i > 1 else bool(i)
        e = [None, c.rng.randint(1, emax)][c.rng.random() < .6]
        if e is None and g > emax: e = emax
        q = p ** n
        small = 1 if q ** (2 * g - 1) < 200 else 4
        size = c.rng.choice([small, 7, 25, 60, 400, 100000])
        threads = c.rng.choice([1, 2, 3, 4, 8])
        vs = None if i == 0 else {"VS_SEED": c.rng.randrange(10 ** 9), "VS_MODE": c.rng.choice(["rand", "sticky", "pct"]), "VS_P": 30, "VS_FP": 2, "VS_JUMP": c.rng.choice([0, 0, 3, 30])}
        out.append((Cfg(p, n, g, mark, e, size), threads, vs))
    return out

def run(c):
    R = Runner(c, "hycu-threaded", "hycu-threaded-inst", "hycu-merger", "filedrv", "vsched.so")
    fields = THOROUGH if c.thorough else QUICK
    jobs = []
    for p, n, g, emax in fields: jobs += options(c, p, n, g, emax, c.budget(6, 14))
    R.packages([j[0] for j in jobs])
    def one(j):
        cfg, threads, vs = j
        d = R.dir("out"); r = R.threaded([cfg], d, threads, vs, timeout=c.budget(120, 1200))
        if r.rc == "timeout" and vs is None: shutil.rmtree(d); os.makedirs(d); r = R.threaded([cfg], d, threads, vs, timeout=c.budget(240, 2400))
        m = R.merge(os.path.join(d, cfg.path), timeout=120)
        return r, m
    res = parallel(one, jobs, stop=lambda x: x[0].rc != 0 or x[1].rc != 0 or x[1].rec is None)
    c.log("%d runs done" % len(jobs))
    rows = []
    for (cfg, threads, vs), (r, m) in zip(jobs, res):
        what = {"configuration": cfg.short(), "threads": threads, "scheduler": vs, "stderr": r.err[-500:], "log": r.log[-500:]}
        if r.rc != 0: c.violation("a complete run ends with status %s" % r.rc, what)
        if m.rc != 0 or m.rec is None: c.violation("merging a complete run fails (status %s)" % m.rc, what)
        _, ids, _, _ = R.packages([cfg])[0]
        rows.append({"q": cfg.p ** cfg.n, "degrees": [2 * cfg.g + 1] + ([] if cfg.mark else [2 * cfg.g + 2]), "e": cfg.e,
                     "rec": [ids.get(blk(b), 0) for b in m.rec], "npk": len(ids), "lines": m.lines})
        c.case(cfg.short() + " threads=%d" % threads, len(ids) > 0)
    want = []
    for p, n, g, emax in fields:
        for d in (2 * g + 1, 2 * g + 2): want.append(census(c, p, n, d, emax))
        c.log("census of genus %d over F_%d^%d" % (g, p, n))
    # the reduction to two leading coefficients, without it
    a = census(c, 5, 1, 4, 2, True); b = [w for w in want if w["q"] == 5 and w["d"] == 4][0]
    def table(w):
        t = {}
        for s in w["parts"]:
            for ram, off, k in s: t[(tuple(ram), tuple(off))] = t.get((tuple(ram), tuple(off)), 0) + k
        return t
    if table(a) != table(b): raise RuntimeError("the census does not agree with itself")
    # the laws hold of the census
    rows2 = []
    for p, n, g, emax in fields:
        odd, even = [table(w) for d in (2 * g + 1, 2 * g + 2) for w in want if w["q"] == p ** n and w["d"] == d]
        both = {k: odd.get(k, 0) + even.get(k, 0) for k in set(odd) | set(even)}
        lines = lambda t: [{"k": [list(k[0]), list(k[1])], "v": limbs(t[k])} for k in sorted(t)]
        rows2.append({"q": p ** n, "p": p, "g": g, "e": emax, "has": ["all", "odd"], "laws": laws.ALL, "all": lines(both), "odd": lines(odd)})
    ok, bad, r = tlc.records("LawsTrace", rows2); c.tlc(r, "laws of the census")
    if not ok: raise RuntimeError("the census breaks a law: %r %s" % (fields[bad], r.out[-500:]))
    f = os.path.join(c.tmp, "want.ndjson"); open(f, "w").write("".join(json.dumps(w) + "\n" for w in want))
    ok, bad, r = tlc.records("CensusTrace", rows, extra_env={"CENSUS": f}, timeout=3000)
    c.tlc(r, "runs against the census")
    if not ok:
        cfg, threads, vs = jobs[bad]
        c.violation("the merged result is not the census", {"configuration": cfg.short(), "threads": threads, "scheduler": vs, "lines": [l["t"] for l in rows[bad]["lines"]][:400],
                    "packages": rows[bad]["npk"], "recorded": len(rows[bad]["rec"])})
    c.traces(len(rows))
    laws.check(c, R, [x + (c.rng.choice([200, 1000, 3000, 20000]) if x[0] ** (x[1] * x[2]) < 400 else c.rng.choice([3000, 10000, 50000]),) for x in (LAWS_MORE if c.thorough else LAWS)])
    c.cov["parts"]["polynomials examined"] = sum(sum(x[2] for s in w["parts"] for x in s) for w in want)
    c.cov["samples"] = [j[0].short() + " threads=%d %s" % (j[1], j[2]) for j in jobs[:3]]
    c.cov["rule"] = "fields and genera listed with random marked point, exponent, package size, thread number and schedule; non-trivial: distinct settings with at least one package"
    c.assumptions.append("polynomials that differ by a square factor define isomorphic curves (checked without this for F_5, degree 4)")

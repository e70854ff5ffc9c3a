"""C05: ramification types against the specification's factorisation (spec/Poly.tla FactorDegrees), in histories of calls."""
import itertools
from vp import tlc
from vp.drv import Driver
from vp.mathlib import Fields, curve_cmd, prime_of
from vp.polys import squarefree_poly
LEVEL = "model_checking"

# q, n, extension degrees that may be counted, histories
QUICK = [(3, 1, [1, 2, 3, 4, 5, 6], 500), (5, 1, [1, 2, 3, 4], 300), (7, 1, [1, 2, 3], 200), (11, 1, [1, 2], 100), (13, 1, [1, 2], 100), (31, 1, [1, 2], 60), (101, 1, [1], 60), (9, 2, [1, 2, 3], 200), (25, 2, [1, 2], 100), (27, 3, [1, 2], 80), (49, 2, [1], 60), (81, 4, [1], 60), (125, 3, [1], 40), (1009, 1, [1], 30)]
MORE = [(3, 1, [1, 2, 3, 4, 5, 6, 7], 4000), (5, 1, [1, 2, 3, 4, 5], 2000), (7, 1, [1, 2, 3, 4], 1500), (11, 1, [1, 2, 3], 600), (13, 1, [1, 2, 3], 600), (31, 1, [1, 2], 400), (101, 1, [1], 400), (9, 2, [1, 2, 3], 1500), (25, 2, [1, 2], 800), (27, 3, [1, 2], 500), (49, 2, [1, 2], 400), (81, 4, [1], 400), (121, 2, [1], 300), (125, 3, [1], 300), (243, 5, [1], 200), (343, 3, [1], 150), (729, 6, [1], 100), (1009, 1, [1], 200), (4001, 1, [1], 60), (10007, 1, [1], 20)]

def history(rng, n, ks, g):
    """ramification before, between and after counts over any set of extensions"""
    kind = rng.randrange(5)
    if kind == 0: order = []
    elif kind == 1: order = [k for k in ks if k <= g]                       # as the program does
    elif kind == 2: order = list(ks)[:rng.randint(1, len(ks))]              # an initial segment
    else: order = rng.sample(ks, rng.randint(1, len(ks)))                   # any subset in any order
    ops = []
    if rng.random() < .4: ops.append("R0")
    for k in order:
        ops.append("C%d" % (n * k))
        if rng.random() < .4: ops.append("R0")
    return ops + ["R0"] + (["S0", "R0"] if rng.random() < .3 else [])

def run(c):
    d = Driver(c, "mathdrv")
    fs = MORE if c.thorough else QUICK
    F = Fields(c, d, [(prime_of(q, n), n, ks) for q, n, ks, _ in fs])
    cmds = []; meta = []
    for q, n, ks, m in fs:
        p = prime_of(q, n)
        for t in range(m):
            deg = c.rng.choice([3, 4, 5, 6, 7, 8, 9, 10, 11, 12]) if q < 30 else c.rng.choice([3, 4, 5, 6, 7, 8])
            e = squarefree_poly(c.rng, F.py[(p, n)], deg, 4 if t % 2 else t)
            cmds.append(curve_cmd(p, n, e, history(c.rng, n, ks, (deg - 1) // 2))); meta.append((p, n))
    rows = d.run(cmds)
    for r, k in zip(rows, meta): r["fi"] = F.index[k]; r["kind"] = "curve"
    ok, bad, r = tlc.records("CurveTrace", rows, extra_env=F.env(), timeout=850 if not c.thorough else 6000)
    c.tlc(r, "recorded curves")
    if not ok: c.violation("ramification type differs from the factorisation pattern", {"command": cmds[bad], "recorded": rows[bad]})
    c.traces(len(rows))
    types = {}
    for x, r in zip(cmds, rows):
        c.case(x)
        t = str([o["ram"] for o in r["ops"] if o["op"] == "R"][-1]); types[t] = types.get(t, 0) + 1
    c.cov["parts"]["ramification types seen"] = len(types)
    c.cov["samples"] = [cmds[0], cmds[len(cmds) // 2], cmds[-1]]
    c.cov["rule"] = "random histories mixing counts over subsets of extensions with questions for the ramification type, polynomials of degree 3..12 over %d fields, half of them products of factors of degree at most two; non-trivial: distinct histories" % len(fs)

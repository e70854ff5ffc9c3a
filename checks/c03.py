"""C03: point counts over every extension (spec/HyperCurve.tla Points, recorded histories CurveTrace)."""
from vp import tlc
from vp.drv import Driver
from vp.mathlib import Fields, curve_cmd, prime_of
from vp.polys import squarefree_poly
LEVEL = "model_checking"

# q, n, extension degrees, number of histories
QUICK = [(3, 1, [1, 2, 3, 4, 5, 6, 7], 60), (5, 1, [1, 2, 3, 4, 5], 60), (7, 1, [1, 2, 3, 4], 60), (11, 1, [1, 2, 3], 60), (13, 1, [1, 2, 3], 60), (17, 1, [1, 2], 60), (19, 1, [1, 2], 40), (23, 1, [1, 2], 40), (31, 1, [1, 2], 40), (37, 1, [1, 2], 30),
         (9, 2, [1, 2, 3], 90), (25, 2, [1, 2], 80), (27, 3, [1, 2], 60), (49, 2, [1, 2], 40), (81, 4, [1], 60), (121, 2, [1], 50), (125, 3, [1], 50), (169, 2, [1], 40), (243, 5, [1], 40), (343, 3, [1], 30), (101, 1, [1], 50), (1009, 1, [1], 30), (4001, 1, [1], 10)]
MORE = [(3, 1, [1, 2, 3, 4, 5, 6, 7, 8, 9], 150), (5, 1, [1, 2, 3, 4, 5, 6], 150), (7, 1, [1, 2, 3, 4, 5], 100), (11, 1, [1, 2, 3, 4], 100), (13, 1, [1, 2, 3], 200), (17, 1, [1, 2, 3], 150), (19, 1, [1, 2, 3], 100), (23, 1, [1, 2, 3], 100), (31, 1, [1, 2], 150), (37, 1, [1, 2], 100), (61, 1, [1, 2], 100), (101, 1, [1, 2], 30),
        (9, 2, [1, 2, 3, 4], 200), (25, 2, [1, 2, 3], 150), (27, 3, [1, 2, 3], 100), (49, 2, [1, 2], 150), (81, 4, [1, 2], 120), (121, 2, [1, 2], 50), (125, 3, [1, 2], 40), (169, 2, [1], 200), (243, 5, [1], 200), (343, 3, [1], 150), (729, 6, [1], 80), (2187, 7, [1], 40), (625, 4, [1], 80), (961, 2, [1], 60), (997, 1, [1], 100), (4001, 1, [1], 40), (10007, 1, [1], 20), (30011, 1, [1], 6)]

# q, n, genus, degrees that are counted (the largest is out of reach of a recount), number of curves
LARGE = [(3, 1, 1, [8, 11, 12], 2), (3, 1, 2, [9, 11], 3), (3, 1, 4, [5, 10], 2), (3, 1, 6, [7, 12], 2), (5, 1, 2, [6, 8], 3), (5, 1, 4, [5, 8], 2), (7, 1, 1, [5, 7], 2), (7, 1, 3, [4, 6], 2), (11, 1, 2, [4, 5], 2), (13, 1, 2, [5], 2), (13, 1, 3, [4, 5], 2), (31, 1, 2, [3, 4], 2),
         (47, 1, 2, [3], 2), (97, 1, 1, [3], 2), (251, 1, 1, [2], 4), (1009, 1, 1, [2], 3), (9, 2, 1, [4, 6], 2), (9, 2, 3, [4, 5], 2), (25, 2, 2, [3, 4], 2), (27, 3, 2, [3, 4], 2), (49, 2, 1, [3], 2), (81, 4, 1, [2, 3], 2), (243, 5, 1, [2], 3), (343, 3, 1, [2], 3), (729, 6, 1, [2], 3), (961, 2, 1, [2], 2), (625, 4, 1, [2], 2)]
LARGE_MORE = [(q, n, g, ks, 3 * m) for q, n, g, ks, m in LARGE] + [(3, 1, 1, [13, 14], 3), (3, 1, 7, [8, 13], 3), (5, 1, 1, [9, 10], 3), (7, 1, 2, [7, 8], 3), (11, 1, 3, [6], 3), (101, 1, 1, [3], 4), (2003, 1, 1, [2], 4), (1331, 3, 1, [2], 3), (2187, 7, 1, [2], 3), (49, 2, 2, [4], 2), (121, 2, 1, [3], 3)]

def large(c, d):
    fs = LARGE_MORE if c.thorough else LARGE
    by = {}
    for q, n, g, ks, m in fs: by.setdefault((prime_of(q, n), n), set()).update(range(1, g + 1))
    F = Fields(c, d, [(p, n, sorted(ks)) for (p, n), ks in by.items()])
    cmds = []; meta = []
    for q, n, g, ks, m in fs:
        p = prime_of(q, n)
        for t in range(m):
            e = squarefree_poly(c.rng, F.py[(p, n)], 2 * g + 1 + (t + c.rng.randint(0, 1)) % 2, t)
            cmds.append(curve_cmd(p, n, e, ["C%d" % (k * n) for k in c.rng.sample(ks, len(ks))] + ["P0"])); meta.append((p, n, e))
    rows = []
    for (p, n, e), r in zip(meta, d.run(cmds)):
        rows.append({"fi": F.index[(p, n)], "exps": e, "pts": [[x[0] // n, x[1], x[2]] for x in r["ops"][-1]["pts"]]})
    ok, bad, r = tlc.records("CurveLaws", rows, extra_env=F.env(), timeout=850 if not c.thorough else 6000)
    c.tlc(r, "large extensions")
    if not ok: c.violation("point counts over a large extension differ from those determined by the zeta function of the curve", {"command": cmds[bad], "recorded": rows[bad]})
    c.traces(len(rows))
    for x in cmds: c.case(x)

# genus one over large prime fields: p, counting method (table, naive nmod, naive Zech), number of curves
ELLIPTIC = [(16777289, "N", 1), (3000017, "N", 2), (1048583, "C", 2), (1048583, "N", 2), (1048583, "Z", 1), (524309, "C", 3), (524309, "Z", 2), (262147, "C", 4), (131101, "C", 4), (131101, "Z", 4)]
ELLIPTIC_MORE = [(p, m, 4 * k) for p, m, k in ELLIPTIC] + [(16777289, "C", 1), (16777259, "N", 1), (16777213, "N", 2), (16777259, "Z", 1), (33554393, "N", 1), (8388617, "C", 2), (8388617, "Z", 2), (4194319, "C", 4), (65537, "C", 20), (65539, "C", 20), (109987, "C", 20), (110017, "C", 20), (99991, "N", 20)]

def elliptic(c, d):
    cmds = []; meta = []
    for p, m, k in ELLIPTIC_MORE if c.thorough else ELLIPTIC:
        for t in range(k):
            # only coefficients 0, 1 and -1, that do not depend on the generator
            while True:
                f = [c.rng.choice([0, 1, -1]) for _ in range(3)] + [c.rng.choice([1, -1])]
                a, b, g, h = f[3], f[2], f[1], f[0]
                if (b * b * g * g - 4 * a * g ** 3 - 4 * b ** 3 * h - 27 * a * a * h * h + 18 * a * b * g * h) % p: break
            cmds.append(curve_cmd(p, 1, [{0: p - 1, 1: 0, -1: (p - 1) // 2}[x] for x in f], [m + "1", "P0", "H0"])); meta.append((p, f))
    rows = []
    for (p, f), r in zip(meta, d.run(cmds, shards=6)):
        rows.append({"p": p, "f": [x % p for x in f], "pts": r["ops"][1]["pts"][0][1:], "hw": r["ops"][2]["hw"][0][1], "ram": [], "xs": [c.rng.randrange(p) for _ in range(8)]})
    ok, bad, r = tlc.records("EllipticOrder", rows, timeout=850 if not c.thorough else 6000)
    c.tlc(r, "genus one over large prime fields")
    if not ok: c.violation("the number of points does not annihilate the points of the elliptic curve", {"command": cmds[bad], "recorded": rows[bad]})
    c.traces(len(rows))
    for x in cmds: c.case(x)

def run(c):
    d = Driver(c, "mathdrv")
    fs = MORE if c.thorough else QUICK
    F = Fields(c, d, [(prime_of(q, n), n, ks) for q, n, ks, _ in fs])
    cmds = []; meta = []
    for q, n, ks, m in fs:
        p = prime_of(q, n)
        for t in range(m):
            deg = c.rng.choice([3, 4, 5, 6, 7, 8, 9, 10]) if q < 50 else c.rng.choice([3, 4, 5, 6, 7])
            e = squarefree_poly(c.rng, F.py[(p, n)], deg, t)
            order = [k * n for k in ks]; c.rng.shuffle(order)
            if t % 3 == 0: order = order[:c.rng.randint(1, len(order))]
            ops = []
            for i, k in enumerate(order):
                ops.append("C%d" % k)
                if c.rng.random() < .4: ops.append("C%d" % c.rng.choice(order[:i + 1]))
                if c.rng.random() < .3: ops.append("P0")
            ops += ["P0", "H0"]
            if t % 3: ops.append("L%d" % (n * len(ks)))
            cmds.append(curve_cmd(p, n, e, ops)); meta.append((p, n))
    rows = d.run(cmds)
    for r, k in zip(rows, meta): r["fi"] = F.index[k]; r["kind"] = "curve"
    ok, bad, r = tlc.records("CurveTrace", rows, extra_env=F.env(), timeout=850 if not c.thorough else 6000)
    c.tlc(r, "recorded curves")
    if not ok: c.violation("point counts differ from the number of points of the curve", {"command": cmds[bad], "recorded": rows[bad]})
    c.traces(len(rows))
    for x in cmds: c.case(x)
    large(c, d)
    elliptic(c, d)
    c.cov["samples"] = [cmds[0], cmds[len(cmds) // 2], cmds[-1]]
    c.cov["rule"] = "random histories of count calls on square-free polynomials of degree 3..10 over %d fields; non-trivial: distinct histories" % len(fs)

"""C06: square-freeness of right hand sides (spec/Poly.tla SquareFree), exhaustively over small fields, and of what a run counts."""
import itertools
from vp import tlc
from vp.drv import Driver
from vp.mathlib import Fields, prime_of
from vp.polys import random_poly
from vp import laws
from vp.runs import Runner
LEVEL = "model_checking"

# exhaustive: q, n, degrees
QUICK = [(3, 1, [3, 4, 5, 6, 7]), (5, 1, [3, 4, 5]), (7, 1, [3, 4]), (9, 2, [3]), (11, 1, [3])]
MORE = [(3, 1, [3, 4, 5, 6, 7, 8, 9]), (5, 1, [3, 4, 5, 6]), (7, 1, [3, 4, 5]), (9, 2, [3, 4]), (11, 1, [3, 4]), (13, 1, [3]), (25, 2, [3])]
# sampled: q, n, polynomials
SAMPLED = [(9, 2, 600), (25, 2, 600), (27, 3, 600), (49, 2, 300), (81, 4, 300), (121, 2, 200), (125, 3, 300), (243, 5, 200), (343, 3, 200), (13, 1, 400), (17, 1, 300), (31, 1, 300), (101, 1, 300), (1009, 1, 200), (4001, 1, 100)]

def with_square(rng, F, t):
    """polynomials near the border: squares, p-th powers (zero derivative), common factors, one coefficient changed"""
    kind = t % 7; g = F.random(rng, rng.randint(0, 3)); h = F.random(rng, rng.randint(1, 3))
    if kind == 0: f = F.pmul(F.pmul(h, h), g)
    elif kind == 1:                                    # derivative zero: only exponents divisible by p
        m = max(1, (9 if F.p < 6 else 8) // F.p) if F.p < 9 else 1
        f = [F.zero] * (F.p * m + 1)
        for i in range(0, len(f), F.p): f[i] = rng.randrange(F.q)
        f[-1] = rng.randrange(F.q - 1)
        if len(f) > 14: f = F.pmul(F.pmul(h, h), h)
    elif kind == 2:                                    # derivative zero but one further term
        f = [F.zero] * ((F.p if F.p < 12 else 5) + 1); f[0] = rng.randrange(F.q); f[-1] = rng.randrange(F.q - 1); f[rng.randrange(1, len(f))] = rng.randrange(F.q - 1)
    elif kind == 3:
        f = F.pmul(F.pmul(h, h), g); i = rng.randrange(len(f)); f[i] = F.add(f[i], rng.randrange(F.q - 1))
    elif kind == 4: f = F.pmul([F.zero, F.zero, 0], F.random(rng, rng.randint(1, 6)))      # double root at zero
    elif kind == 5: f = F.pmul(h, F.random(rng, 3))
    else: f = random_poly(rng, F, rng.randint(3, 9), t // 7)
    f = F.trim(f)
    return f if len(f) > 3 else F.random(rng, 3)

def run(c):
    d = Driver(c, "mathdrv")
    ex = MORE if c.thorough else QUICK
    fields = {}
    for q, n, _ in ex + SAMPLED: fields[(prime_of(q, n), n)] = [1]
    F = Fields(c, d, [(p, n, ks) for (p, n), ks in fields.items()])
    jobs = []; exhaustive = 0
    for q, n, degs in ex:
        p = prime_of(q, n)
        for deg in degs:
            polys = [list(x) + [l] for x in itertools.product(range(q), repeat=deg) for l in range(q - 1)]
            exhaustive += len(polys)
            for i in range(0, len(polys), 500): jobs.append((p, n, polys[i:i + 500]))
    for q, n, m in SAMPLED:
        p = prime_of(q, n); P = F.py[(p, n)]; by = {}
        for t in range(m * (10 if c.thorough else 1)):
            f = with_square(c.rng, P, t); by.setdefault(len(f), []).append(f)
        for l in by.values():
            for i in range(0, len(l), 500): jobs.append((p, n, l[i:i + 500]))
    cmds = ["squares %d %d %d %d %s" % (p, n, len(polys[0]), len(polys), " ".join(str(x) for f in polys for x in f)) for p, n, polys in jobs]
    rec = d.run(cmds)
    rows = [{"kind": "squares", "fi": F.index[(p, n)], "polys": polys, "sqf": [x == "1" for x in r["sqf"]]} for (p, n, polys), r in zip(jobs, rec)]
    ok, bad, r = tlc.records("CurveTrace", rows, extra_env=F.env(), timeout=850 if not c.thorough else 6000)
    c.tlc(r, "square-freeness")
    if not ok: c.violation("square-freeness differs from gcd(f, f') = 1 for a polynomial of this list", {"command": cmds[bad], "recorded": rows[bad]["sqf"]})
    c.traces(len(rows))
    no = 0
    for row in rows:
        for f, s in zip(row["polys"], row["sqf"]):
            c.cov["evaluations"] += 1; no += not s
            c.distinct.add(hash((row["fi"], tuple(f))))
    c.cov["parts"]["not square-free"] = no; c.cov["parts"]["exhaustive"] = exhaustive
    # in a run exactly the square-free ones contribute
    runs = [(3, 1, 1, 1), (5, 1, 1, 1), (7, 1, 1, 1), (3, 2, 1, 1), (5, 2, 1, 1), (3, 3, 1, 1), (3, 1, 2, 1), (5, 1, 2, 1), (7, 1, 2, 1), (3, 2, 2, 1), (3, 1, 3, 1), (5, 1, 3, 1), (3, 1, 4, 1), (3, 1, 5, 1), (101, 1, 1, 1), (5, 3, 1, 1), (7, 2, 1, 1)]
    laws.check(c, Runner(c, "hycu-threaded", "hycu-merger"), [x + (["all", "odd"], c.rng.choice([7, 100, 1000])) if x[0] ** (x[1] * x[2]) < 60 else x + (["all", "odd"], c.rng.choice([300, 1000, 10000])) for x in runs], ["total", "pattern"])
    c.cov["samples"] = [str((rows[0]["polys"][0], rows[0]["sqf"][0])), str((rows[-1]["polys"][0], rows[-1]["sqf"][0]))]
    c.cov["rule"] = "all polynomials of the listed degrees over small fields, and polynomials with or close to a repeated factor over %d fields; non-trivial: distinct polynomials" % len(SAMPLED)

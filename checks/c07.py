"""C07: registration of curves with their twists (spec/Tally.tla, recorded histories StoreTrace)."""
from vp import tlc
from vp.drv import Driver
from vp.mathlib import Fields, prime_of, limbs
from vp.polys import squarefree_poly
from vp.textio import parse_table, parse_record, Malformed, block_args
LEVEL = "model_checking"

QUICK = [(3, 1, [1, 2, 3, 4]), (5, 1, [1, 2, 3]), (7, 1, [1, 2]), (11, 1, [1, 2]), (9, 2, [1, 2]), (25, 2, [1]), (27, 3, [1])]

def history(rng, P, p, n, ks, length):
    ns = rng.choice([1, 1, 2, 3]); ops = []; pool = []; blocks = 0
    for i in range(length):
        x = rng.random()
        if x < .75:
            if pool and rng.random() < .3: e = rng.choice(pool)
            else:
                e = squarefree_poly(rng, P, rng.choice([3, 4, 5, 6, 7, 8] if P.q < 10 else [3, 4, 5]), rng.randrange(8)); pool.append(e)
                if rng.random() < .4:       # its twist, and a scaled copy
                    k = rng.choice([1, 2]); pool.append([y if y == P.zero else (y + k) % (P.q - 1) for y in e])
            y = rng.random()
            cs = ks[:rng.randint(1, len(ks))] if y < .85 else rng.sample(ks, rng.randint(0, len(ks)))
            ops.append("R %d %d %s %d %s" % (rng.randrange(ns), len(e), " ".join(map(str, e)), len(cs), " ".join(str(n * k) for k in cs)))
        elif x < .87:
            blocks += 1; b = [[blocks, blocks + 1], [0, rng.randint(1, 5)]]
            ops.append("F %d %s" % (rng.randrange(ns), block_args(b)))
        elif x < .95: ops.append("I %d" % rng.randrange(ns))
        else: ops.append("X")
    ops += ["I %d" % s for s in range(ns)] + ["F %d %s" % (s, block_args([[100 + s, 101 + s]])) for s in range(ns)] + ["X", "X"]
    return ns, "hist %d %d %d %s" % (p, n, ns, " ".join(ops))

def convert(c, cmd, r):
    try:
        for o in r["ops"]:
            if "text" in o: o["lines"] = parse_table(o.pop("text"))
            if "record" in o: o["record"] = parse_record(o["record"])
            if "mult" in o: o["mult"] = limbs(int(o["mult"]))
    except Malformed as m: c.violation("not in the documented form: %s" % m, {"command": cmd})

def run(c):
    d = Driver(c, "filedrv"); dm = Driver(c, "mathdrv")
    F = Fields(c, dm, [(prime_of(q, n), n, ks) for q, n, ks in QUICK])
    cmds = []; meta = []
    for q, n, ks in QUICK:
        p = prime_of(q, n)
        for t in range(c.budget(40, 600)):
            ns, x = history(c.rng, F.py[(p, n)], p, n, ks, c.rng.choice([3, 8, 20, 40])); cmds.append(x); meta.append((p, n, ns))
    rows = d.run(cmds)
    for cmd, r, (p, n, ns) in zip(cmds, rows, meta):
        r["fi"] = F.index[(p, n)]; r["kind"] = "hist"; r["ns"] = ns; convert(c, cmd, r)
    ok, bad, r = tlc.records("StoreTrace", rows, extra_env=F.env(), timeout=850 if not c.thorough else 6000)
    c.tlc(r, "recorded histories")
    if not ok: c.violation("a table is not the tally of the registered curves and their twists", {"command": cmds[bad], "recorded": rows[bad]})
    c.traces(len(rows))
    for x in cmds: c.case(x)
    c.cov["parts"]["registrations"] = sum(o["op"] == "R" for r in rows for o in r["ops"])
    c.cov["samples"] = [cmds[0][:600], cmds[-1][:600]]
    c.cov["rule"] = "random histories of registering, handing over, writing and taking on up to three stores over %d fields; non-trivial: distinct histories" % len(QUICK)

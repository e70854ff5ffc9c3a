"""C02: representatives and multiplicities against orbit sizes (spec/Orbits.tla, OrbitForms, OrbitMass)."""
import re, json
from collections import Counter
from vp import tlc
from vp.drv import Driver
from vp.mathlib import Fields, prime_of, limbs
from vp import laws
from vp.runs import Runner
LEVEL = "model_checking"

# q, n, genera
QUICK = [(3, 1, [1, 2, 3, 4]), (5, 1, [1, 2]), (7, 1, [1, 2]), (9, 2, [1]), (11, 1, [1, 2]), (13, 1, [1]), (17, 1, [1]), (19, 1, [1]), (25, 2, [1]), (27, 3, [1]), (31, 1, [1]), (49, 2, [1])]
MORE = [(3, 1, [1, 2, 3, 4, 5]), (5, 1, [1, 2, 3]), (7, 1, [1, 2, 3]), (9, 2, [1, 2]), (11, 1, [1, 2]), (13, 1, [1, 2]), (17, 1, [1, 2]), (19, 1, [1]), (23, 1, [1]), (29, 1, [1]), (25, 2, [1]), (27, 3, [1]), (31, 1, [1]), (37, 1, [1]), (43, 1, [1]), (61, 1, [1]), (49, 2, [1]), (81, 4, [1]), (101, 1, [1]), (121, 2, [1]), (125, 3, [1]), (169, 2, [1])]

# whole runs where single orbits are too many: p, n, g, exponent, tables, package size (0: any)
BOTH = ["all", "odd"]
RUNS = [(5, 2, 2, 1, ["odd"]), (3, 3, 2, 1, ["odd"]), (3, 2, 3, 1, ["odd"]), (7, 2, 2, 1, ["odd"]), (13, 1, 3, 1, ["odd"]), (11, 1, 3, 1, ["odd"]), (31, 1, 2, 1, ["odd"]), (3, 2, 2, 1, BOTH), (7, 1, 3, 1, BOTH),
        (5, 1, 4, 1, BOTH), (3, 1, 5, 1, BOTH), (3, 1, 6, 1, BOTH), (19, 1, 2, 1, BOTH), (7, 2, 1, 1, BOTH), (11, 2, 1, 1, BOTH), (13, 2, 1, 1, BOTH), (5, 3, 1, 1, BOTH), (3, 4, 1, 1, BOTH), (61, 1, 1, 1, BOTH), (127, 1, 1, 1, BOTH)]
RUNS_MORE = RUNS + [(5, 2, 2, 1, BOTH), (3, 3, 2, 1, BOTH), (3, 2, 3, 1, BOTH), (3, 1, 7, 1, BOTH), (5, 1, 5, 1, ["odd"]), (7, 3, 1, 1, BOTH), (13, 1, 3, 1, BOTH), (241, 1, 1, 1, BOTH), (31, 1, 2, 1, BOTH), (17, 2, 1, 1, BOTH)]

# enumerations too large to be listed: p, n, genus, number of polynomials
BIG = [(7, 2, 2, 24), (11, 2, 2, 30), (17, 2, 3, 24), (65537, 1, 1, 12), (257, 2, 1, 12), (41, 3, 1, 12), (11, 5, 1, 12), (131071, 1, 1, 12), (3000017, 1, 1, 8), (7, 6, 1, 12),
       (101, 1, 2, 16), (211, 1, 2, 16), (7, 3, 2, 12), (503, 1, 2, 16), (31, 1, 3, 12), (43, 1, 3, 12), (17, 1, 4, 12), (3, 4, 2, 16), (3, 5, 2, 16), (5, 3, 2, 16), (5, 2, 3, 16), (3, 3, 4, 16), (7, 2, 3, 16), (11, 1, 5, 16), (13, 1, 6, 10)]
BIG_MORE = BIG + [(1009, 1, 2, 30), (2003, 1, 2, 30), (101, 1, 3, 30), (37, 2, 2, 30), (13, 3, 2, 30), (29, 1, 4, 30), (17, 1, 5, 20), (7, 3, 3, 20), (19, 1, 5, 20), (3, 6, 2, 20), (5, 4, 2, 20), (11, 2, 3, 20), (9999991, 1, 1, 8)]

def poly(rng, p, q, d, big, pair=None):
    """exponents of a polynomial of degree d without term of degree d-1, or, if p divides d, without term of degree d-2"""
    z = q - 1; e = [z] * (d + 1); top = d - 1 - (d % p == 0)
    if big: low = rng.choice([[0], [1], [0, 1], [1, 2], [0, 2]])
    elif pair and pair[0] < top: low = list(pair) + ([rng.randint(0, 1)] if pair[1] > 1 else [])
    else:
        low = rng.sample(range(top), rng.randint(1, min(3, top)))
        if rng.random() < .3: low = list(range(top))
        if min(low) > 1: low.append(rng.randint(0, 1))
    for i in low + [d] + [d - 1] * (d % p == 0): e[i] = rng.choice([rng.randrange(z), 0, 1, z // 2, z - 1])
    return e

def big(c, d):
    fs = BIG_MORE if c.thorough else BIG
    F = Fields(c, d, [(p, n, [1]) for p, n, _, _ in fs if p ** n < 5000])
    confs = []; cmds = []
    for p, n, g, k in fs:
        q = p ** n
        for m in (0, 1):
            # all pairs of second and third exponent, as far as there are polynomials to be taken
            pairs = [(i, j) for i in range(2 * g + 1) for j in range(i)]; c.rng.shuffle(pairs); pairs += [None] * k
            ps = [poly(c.rng, p, q, d_, q >= 5000, pair) for d_, pair in zip([c.rng.choice([2 * g + 1, 2 * g + 1 + (1 - m)]) if p > 2 * g + 2 else c.rng.choice([2 * g + 1, 2 * g + 2]) for _ in range(k)], pairs if p > 2 * g + 2 else [None] * k)]
            size = c.rng.choice([4294967295, 2 ** 31, 10 ** 9] if q ** (2 * g) > 10 ** 8 else [4294967295, 10 ** 6, 10 ** 5])
            confs.append((p, n, g, m, ps))
            cmds.append("boxes %d %d %d %d %d 20000 %d %s" % (p, n, g, m, size, k, " ".join("%d %s" % (len(e), " ".join(map(str, e))) for e in ps)))
    rows = []; back = []
    for (p, n, g, m, ps), cmd, r in zip(confs, cmds, d.run(cmds)):
        if not r["ended"]: c.log("too many packages:", cmd[:60]); continue
        step = 4 if len(r["boxes"]) > 100 else 1
        for i in range(0, len(ps), step):
            rows.append({"fi": F.index.get((p, n), 0), "p": p, "n": n, "q": p ** n, "g": g, "marked": bool(m), "boxes": r["boxes"],
                         "polys": [{"e": e, "mult": limbs(int(x))} for e, x in zip(ps[i:i + step], r["mults"][i:i + step])]})
            back.append(cmd.split(" 20000")[0])
        c.case(cmd[:60], nontrivial=len(r["boxes"]) > 1)
    ok, bad, r = tlc.records("BigOrbits", rows, extra_env=F.env(), timeout=850 if not c.thorough else 6000, heap="12g")
    c.tlc(r, "orbits in large enumerations"); skipped = r.out.count('"SKIPPED')
    c.cov["parts"]["large enumerations"] = {"orbits": sum(len(x["polys"]) for x in rows) - skipped, "not square-free": skipped}
    if not ok: c.violation("the packages do not contain representatives that weigh the orbit", {"enumeration": back[bad], "row": {k: v for k, v in rows[bad].items() if k != "boxes"}})
    c.traces(len(rows))

def run(c):
    d = Driver(c, "mathdrv")
    fs = MORE if c.thorough else QUICK
    F = Fields(c, d, [(prime_of(q, n), n, [1]) for q, n, _ in fs])
    confs = []
    for q, n, gs in fs:
        for g in gs:
            for m in (0, 1):
                pkgs = [1, c.rng.choice([2, 3, 5, 7]), c.rng.choice([10, 16, 100]), c.rng.choice([1000, 10 ** 6])]
                if q ** (2 * g) > 3000: pkgs = [c.rng.choice(pkgs[:2]), c.rng.choice(pkgs[2:])]
                confs += [(q, n, g, m, k) for k in pkgs]
    limit = 3000000
    cmds = ["enum %d %d %d %d %d %d 0" % (prime_of(q, n), n, g, m, k, limit) for q, n, g, m, k in confs]
    order = sorted(range(len(cmds)), key=lambda i: -confs[i][0] ** (2 * confs[i][2]))
    confs = [confs[i] for i in order]; cmds = [cmds[i] for i in order]
    rows = d.run(cmds)
    # the same enumeration may come out of several package sizes; polynomials are classified once
    runs = {}; polys = {}
    for conf, cmd, r in zip(confs, cmds, rows):
        if not r["ended"]: c.violation("the enumeration of representatives does not end", {"command": cmd})
        zero = conf[0] - 1; w = Counter()
        for e, _, m in r["reps"]:
            e = list(e)
            while e and e[-1] == zero: e.pop()
            w[tuple(e)] += int(m)
        key = (conf[:4], tuple(sorted(w.items())))
        runs.setdefault(key, (conf, cmd, w))
        polys.setdefault(conf[:2], set()).update(w)
        c.case(str(conf), nontrivial=len(w) > 1)
    jobs = []
    for (q, n), s in polys.items():
        s = sorted(s)
        step = max(1, min(400, int(400000 / (q * 40 * (q if q % 3 == 0 or q in (5, 25, 125, 7, 49) else 1)))))
        for i in range(0, len(s), step): jobs.append(((q, n), s[i:i + step]))
    jobs.sort(key=lambda j: -j[0][0])
    prows = [{"fi": F.index[(prime_of(q, n), n)], "polys": [list(e) for e in s]} for (q, n), s in jobs]
    c.log(len(rows), "enumerations,", sum(map(len, polys.values())), "polynomials,", len(prows), "rows")
    ok, bad, r = tlc.records("OrbitForms", prows, extra_env=F.env(), timeout=850 if not c.thorough else 10000, heap="12g")
    c.tlc(r, "normal forms")
    if not ok: c.violation("the element table is no discrete logarithm table", {"field": jobs[bad][0]})
    form = {}
    for m in re.finditer(r'"FORMS (\d+) <<(.*)>>"', r.out):
        v = re.findall(r"<<(\d+), (\d+), (\d+)>>", m.group(2)); (q, n), s = jobs[int(m.group(1)) - 1]
        assert len(v) == len(s)
        for e, x in zip(s, v): form[(q, n, e)] = tuple(map(int, x))
    mrows = []; back = []
    for (conf4, _), (conf, cmd, w) in runs.items():
        q, n, g, m = conf4; groups = {}
        for e, mult in w.items():
            dg, nf, st = form[(q, n, e)]
            if dg: groups.setdefault((dg, nf, st), []).append((e, mult))
        base = {"q": q, "g": g, "marked": bool(m)}
        for (dg, nf, st), l in groups.items():
            mrows.append(dict(base, kind="orbit", d=dg, stab=st, w=[limbs(x) for _, x in l])); back.append((cmd, l))
        mrows.append(dict(base, kind="total", w=[limbs(x) for l in groups.values() for _, x in l])); back.append((cmd, "all square-free representatives"))
        c.cov["parts"]["q=%d g=%d marked=%d" % (q, g, m)] = {"orbits": len(groups), "representatives": len(w)}
    ok, bad, r = tlc.records("OrbitMass", mrows, timeout=850 if not c.thorough else 6000, heap="12g")
    c.tlc(r, "orbit masses")
    if not ok:
        cmd, l = back[bad]
        c.violation("the representatives of one orbit of curves (or all of them) do not weigh its size" , {"command": cmd, "representatives (exponents, multiplicity)": l, "row": mrows[bad]})
    c.traces(len(rows))
    big(c, d)
    laws.check(c, Runner(c, "hycu-threaded", "hycu-merger"), [x + (c.rng.choice([700, 3000, 10000, 50000]),) for x in (RUNS_MORE if c.thorough else RUNS)], ["shape", "keys", "total", "pattern"])
    c.cov["samples"] = [cmds[0], cmds[-1], str(back[0])[:300]]
    c.cov["rule"] = "complete enumerations of %d (field, genus, marked point) with several package sizes; every orbit is weighed; non-trivial: more than one representative" % len({x[:4] for x in confs})

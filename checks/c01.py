"""C01: packages of BlockIterator partition the enumeration (spec/Blocks.tla)."""
import json, os, subprocess
from vp import build, tlc
from vp.drv import Driver
LEVEL = "model_checking"

def command(l, limit, form=0, S=0):
    """S is added to all values of the layout (TLC has 32 bit integers with sign, and works with the ones before)"""
    b = []; s = []; d = []; sh = lambda v: " ".join(str(x + S) for x in v)
    for i, c in enumerate(l["c"]):
        if c["t"] == "b": b.append("%d %d %d" % (i, c["lo"] + S, c["hi"] + S))
        elif c["t"] == "s": s.append("%d %d %s" % (i, len(c["v"]), sh(c["v"])))
        else:
            K = S if l["c"][c["on"]]["t"] == "b" else 0     # keys are values of a range, or indices into a set
            d.append("%d %d %d %s" % (i, c["on"], len(c["m"]), " ".join("%d %d %s" % (k + K, len(v), sh(v)) for k, v in c["m"])))
    return "blocks %d %d %d %s %d %s %d %s %d %d" % (l["len"], l["pkg"], len(b), " ".join(b), len(s), " ".join(s), len(d), " ".join(d), limit, form)

def random_layout(rng):
    while True:
        n = rng.randint(1, 6); pkg = rng.choice([1, 2, 3, 4, 5, 7, 10, 16, 50, 1000]); c = []; size = 1
        for i in range(n):
            t = rng.choice("bbbssd")
            if t == "b":
                lo = rng.choice([0, 0, 1, 5]); k = rng.choice([1, 2, 3, 4, 5, 7, 11]); c.append({"t": "b", "lo": lo, "hi": lo + k}); size *= k
            else:
                k = rng.choice([1, 1, 2, 3, 4]); c.append({"t": "s", "v": rng.sample(range(20), k)}); size *= k
                if t == "d": c[-1]["d"] = 1
        for i in range(n):
            if c[i].pop("d", 0):
                on = [j for j in range(n) if j != i and (c[j]["t"] == "s" or (c[j]["t"] == "b" and pkg == 1))]
                # a coordinate others depend on must stay a set or range
                if not on or any(x["t"] == "d" and x["on"] == i for x in c): continue
                j = rng.choice(on)
                keys = list(range(len(c[j]["v"]))) if c[j]["t"] == "s" else list(range(c[j]["lo"], c[j]["hi"]))
                c[i] = {"t": "d", "on": j, "m": [[k, rng.sample(range(20), rng.choice([1, 2, 3, 4]))] for k in keys]}
                size *= 3
        if size <= 1200: return {"len": n, "pkg": pkg, "c": c}

def unshift(r, S):
    f = lambda x: [f(y) for y in x] if isinstance(x, list) else max(-1, min(x - S, 2 ** 31 - 1))
    return dict(r, pk=[{k: v if k == "fin" else f(v) for k, v in p.items()} for p in r["pk"]])

def large_layout(rng, size):
    """a range with many values, and little beside it"""
    k = size + rng.randint(0, 99); lo = rng.choice([0, 1, 60000]); c = [{"t": "b", "lo": lo, "hi": lo + k}]
    pkg = rng.choice([7, 256, 300, k // 2, k - 1, k])
    if rng.random() < .5: c.insert(rng.randrange(2), rng.choice([{"t": "s", "v": [3]}, {"t": "b", "lo": 4, "hi": 5}]))
    return {"len": len(c), "pkg": max(1, pkg), "c": c, "size": k}

SHIFTS = [0] * 6 + [250, 2 ** 16 - 6, 2 ** 16, 2 ** 24 - 3, 2 ** 31 - 12, 2 ** 31 - 3, 2 ** 31 + 5, 4 * 10 ** 9]

def run(c):
    d = Driver(c, "mathdrv")
    # 1. the odometer of the specification partitions every small layout, and always ends
    fam = "SmallLayouts" if c.thorough else "TinyLayouts"
    r = tlc.run("Blocks", "SPECIFICATION Spec\nINVARIANT PackageOK\nINVARIANT CoverOK\n" +
                "CONSTANT Layouts <- %s\n" % fam, timeout=600)
    c.tlc(r, "odometer safety")
    if not r.ok: c.violation("specification of the iterator is inconsistent: " + str(r.kind), r.out[-3000:])
    r = tlc.run("Blocks", "SPECIFICATION Spec\nPROPERTY Ends\nCONSTANT Layouts <- TinyLayouts\n", timeout=600)
    c.tlc(r, "odometer termination")
    if not r.ok: c.violation("specification of the iterator does not end: " + str(r.kind), r.out[-3000:])
    # 2. the layouts of the specification and random larger ones, run through the implementation
    out = os.path.join(c.tmp, "layouts.ndjson")
    tlc.run("BlocksDump", "SPECIFICATION DumpSpec\nCONSTANT Layouts = {}\n", env={"OUT": out})
    layouts = [json.loads(x) for x in open(out)]
    n_small = len(layouts)
    if not c.thorough:
        c.rng.shuffle(layouts); layouts = layouts[:2500]
    layouts += [random_layout(c.rng) for _ in range(c.budget(500, 6000))]
    layouts += [large_layout(c.rng, x) for x in c.budget([300, 5000, 20000], [300, 5000, 66000, 66000, 70000] * 4)]
    cmds = []; ls = []; shifts = []
    for l in layouts:
        forms = [0]
        if all(x["t"] == "b" for x in l["c"]) and l["pkg"] == 1: forms = [0, 1, 2]
        elif l["pkg"] == 1: forms = [0, 2]
        for f in forms:
            S = c.rng.choice(SHIFTS); big = f == 0 and l["pkg"] >= 1000 and all(x["t"] != "d" for x in l["c"])
            # the size of packages has no upper bound but the one of its type
            cl = dict(l, pkg=c.rng.choice([l["pkg"], 10 ** 5, 2 ** 31 - 1, 2 ** 31, 2 ** 32 - 1])) if big and l["pkg"] == 1000 else l
            cmds.append(command(cl, max(5000, 2 * l.get("size", 0)), f, S)); ls.append(l if cl is l else dict(l, pkg=min(cl["pkg"], 2 ** 31 - 1))); shifts.append(S)
    rows = d.run(cmds)
    rows = [dict(unshift(r_, S), l=l) for r_, l, S in zip(rows, ls, shifts)]
    ok, bad, r = tlc.records("BlocksTrace", rows, spec="TraceSpec", timeout=800)
    c.tlc(r, "recorded enumerations")
    if not ok:
        c.violation("packages of the real iterator are no partition of the layout", {"layout": ls[bad], "command": cmds[bad], "recorded": rows[bad]})
    c.traces(len(rows))
    for l, r_ in zip(ls, rows): c.case(json.dumps(l, sort_keys=True), nontrivial=len(r_["pk"]) > 1)
    c.cov["samples"] = [cmds[0], cmds[-1]]
    c.cov["rule"] = "layouts: %d of the %d small layouts of Blocks.tla (up to 3 coordinates) plus random ones up to 6 coordinates, and some with tens of thousands of values, values shifted up to 4 * 10^9; non-trivial: more than one package" % (min(len(layouts), n_small), n_small)
    c.assumptions = ["layouts outside the documented domain (empty sets, value sets with repetitions, dependence on dependent sets) are not covered"]

"""Complete runs of the real program on moduli too large for a census, against the laws of spec/Laws.tla."""
import os, shutil
from vp import tlc
from vp.runs import Cfg, parallel
ALL = ["shape", "keys", "points", "weil", "zeta", "total", "pattern", "twist", "moment1", "moment2", "trace", "marked"]

def table(R, cfg, threads=4, timeout=300):
    """-> (lines, what went wrong)"""
    for k in range(2):
        d = R.dir("law"); r = R.threaded([cfg], d, threads, None, timeout=timeout)
        m = R.merge(os.path.join(d, cfg.path), timeout=120); shutil.rmtree(d, ignore_errors=True)
        if r.rc != "timeout": break
    if r.rc != 0: return None, "a complete run ends with status %s: %s" % (r.rc, r.err[-300:])
    if m.rc != 0 or m.rec is None: return None, "merging a complete run fails (status %s)" % m.rc
    return [{"k": l["k"], "v": l["v"]} for l in m.lines], None

def check(c, R, jobs, laws=ALL, part="laws", n=4):
    """jobs: (p, n, g, e, which of all/odd, package size)"""
    todo = [(j, w) for j in jobs for w in j[4]]
    def one(x):
        (p, n, g, e, _, size), w = x
        return table(R, Cfg(p, n, g, w == "odd", e, size), c.rng.choice([1, 2, 3, 4, 8]) if p ** (n * g) < 400 else 6, c.budget(250, 3000))
    res = parallel(one, todo, n, stop=lambda x: x[1])
    for (j, w), (lines, bad) in zip(todo, res):
        if bad: c.violation(bad, {"configuration": Cfg(j[0], j[1], j[2], w == "odd", j[3], j[5]).short()})
    got = {(id(j), w): r[0] for (j, w), r in zip(todo, res)}
    rows = []
    for j in jobs:
        p, n, g, e, which, size = j
        rows.append({"q": p ** n, "p": p, "g": g, "e": e, "has": list(which), "laws": list(laws), "all": got.get((id(j), "all"), []), "odd": got.get((id(j), "odd"), [])})
        c.case("laws p=%d n=%d g=%d e=%d size=%d" % (p, n, g, e, size))
    c.log("%d runs for the laws" % len(todo))
    order = sorted(range(len(rows)), key=lambda i: -len(rows[i]["all"]) - len(rows[i]["odd"]))
    ok, bad, r = tlc.records("LawsTrace", [rows[i] for i in order], timeout=3000)
    c.tlc(r, part)
    if not ok:
        j = jobs[order[bad]]
        c.violation("the table of a complete run breaks a law every census obeys: " + ", ".join(sorted({l.split()[-1].strip('"') for l in r.out.splitlines() if "BROKEN " in l}) or ["?"]),
                    {"prime": j[0], "exponent": j[1], "genus": j[2], "count exponent": j[3], "tables": j[4], "package size": j[5], "lines": [str(l) for l in rows[order[bad]][j[4][0]][:40]]})
    c.traces(len(todo))
    c.cov["parts"][part + ": lines"] = sum(len(x["all"]) + len(x["odd"]) for x in rows)

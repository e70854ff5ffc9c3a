"""C13: histories of spec/Results.tla (partial runs, kills, faults, merging) replayed with the real programs; directories validated (ResultsTrace), resumed runs observed (PoolTrace)."""
import os, random, re, shutil
from vp import tlc
from vp.runs import Runner, Cfg, parallel, digest, pairs, blk
from vp.pool import Pool, schedule
from vp.textio import Malformed, record_text
from checks.c12 import results, ops, SWITCHES
LEVEL = "model_checking"

CFGS = [Cfg(3, 1, 1, False, None, 5, "r"), Cfg(3, 1, 1, True, 2, 2, "r"), Cfg(5, 1, 1, True, None, 6, "r"), Cfg(3, 1, 2, True, 1, 20, "r"), Cfg(3, 1, 2, False, None, 9, "r"), Cfg(5, 1, 1, False, 1, 60, "x/y"), Cfg(1009, 1, 1, True, 1, 300, "r")]
LONG = Cfg(3, 1, 5, True, 1, 8000, "r")         # long lines in the record

def histories(c, num):
    out = []
    for runs in (2, 3, 4):
        r = tlc.run("ResultsGen", "SPECIFICATION GSpec\nCONSTANTS\n Packages = {p1, p2, p3, p4}\n MaxRuns = %d\n MaxPairs = 12\n%s\nINVARIANT Done PairsOK Apart Complete\n" % (runs, "\n".join(" %s = FALSE" % s for s in SWITCHES)),
                    extra=["-simulate", "num=%d" % num, "-depth", "120", "-seed", str(c.rng.randrange(10 ** 6))], workers=1, timeout=600)
        c.tlc(r, "histories generated")
        hs = [re.findall(r'"([^"]*)"', m.group(1)) for m in re.finditer(r'<<\s*"SCRIPT",\s*<<(.*?)>>\s*>>', r.out, re.S)]
        seen = set(); hs = [h for h in hs if not (tuple(h) in seen or seen.add(tuple(h)))]
        c.rng.shuffle(hs); out += hs[:c.budget(150, 1000)]
    return out

def neighbours(R, rng, cfg, p):
    """things in the directory of results that are none of them: a subfolder with complete results of the same packages, folders and files with similar names"""
    kinds = rng.sample(["sub", "deep", "dir", "tmp", "note", "table"], rng.randint(1, 3))
    for k in kinds:
        if k in ("sub", "deep"):
            r = R.threaded([Cfg(cfg.p, cfg.n, cfg.g, cfg.mark, cfg.count, cfg.size, "sub" if k == "sub" else "a/b")], p, 2)
            if r.rc != 0: raise Malformed("a run ends with status %s: %s" % (r.rc, r.err[-300:]))
        elif k == "dir": os.makedirs(os.path.join(p, "old.hycu_record"))
        else:
            block = " ".join("0 1" for _ in range(2 * cfg.g + 2))
            open(os.path.join(p, {"tmp": "left.hycu_record.tmp", "note": "README", "table": "left.hycu_store"}[k]), "w").write("1,1;1:5\n" if k == "table" else block + " \n" * 3)
    return kinds

def late(vs, cfg):
    if cfg is LONG: vs.update(VS_MODE="sticky", VS_FP=0, VS_MAX=10 ** 8)
    return vs

def split(h):
    """script -> runs [(disturbances)] and merges"""
    out = []
    for s in h:
        w = s.split()
        if w[0] == "run": out.append(["run", []])
        elif w[0] == "merge": out.append(["merge"])
        elif w[0] in ("kill", "fail"): out[-1][1].append((w[0], int(w[1]), w[2]))
    return out

MANY = [Cfg(1009, 1, 1, True, 1, 2, "r"), Cfg(5, 1, 2, False, 1, 2, "r")]

def many(c, R, cfg):
    """more results than a process may have files open, one package each; all but a few are there already"""
    _, ids, lines, _ = R.packages([cfg])[0]; d = R.dir("many"); p = os.path.join(d, cfg.path); os.makedirs(p)
    info = {"configuration": cfg.short(), "results": len(ids)}
    missing = set(c.rng.sample(sorted(ids.values()), 20))
    for b, i in ids.items():
        if i in missing: continue
        name = os.path.join(p, str(c.rng.randrange(10 ** 17) * 10000 + i))
        open(name + ".hycu_store", "w").write("".join(l["t"] + "\n" for l in lines[i - 1])); open(name + ".hycu_record", "w").write(record_text([b]))
    before = digest(d); rows = []
    for step in ("the missing packages", "nothing left to do"):
        r = R.threaded([cfg], d, c.rng.choice([1, 3]), None, timeout=180)
        if r.rc != 0: c.violation("a run in a directory with many results ends with status %s: %s" % (r.rc, r.err[-300:]), info)
        m = R.merge(p)
        if m.rc != 0 or m.rec is None: c.violation("merging many results fails with status %s: %s" % (m.rc, m.err[-200:]), info)
        x = R.row(cfg, p, True, m); after = digest(d)
        x["before"] = sorted(map(list, before.items())); x["after"] = sorted(map(list, after.items())); before = after
        rows.append((x, dict(info, after=step, problem=None)))
    shutil.rmtree(d, ignore_errors=True); c.case(str(info))
    return rows

def run(c):
    R = Runner(c, "hycu-threaded-inst", "hycu-merger", "filedrv", "vsched.so", "pooldrv"); P = Pool(c, R)
    results(c, 3, 2, 3); results(c, 2, 2, 3, "Forgetful")
    if c.thorough: results(c, 3, 3, 4)
    hs = histories(c, c.budget(1500, 15000))
    c.log("%d histories" % len(hs)); R.packages(CFGS)
    R.packages([LONG])
    jobs = [(LONG if i % 40 == 7 else c.rng.choice(CFGS), split(h), c.rng.randrange(10 ** 9), h) for i, h in enumerate(hs)]
    def one(j):
        cfg, hist, seed, h = j; rng = random.Random(seed); d = R.dir("o"); p = os.path.join(d, cfg.path); rows = []; tr = []; info = {"configuration": cfg.short(), "history": h, "seed": seed}
        try:
            if cfg is not LONG and rng.random() < .3:
                os.makedirs(p); info["neighbours"] = neighbours(R, rng, cfg, p)
            for step in hist:
                before = digest(d)
                if step[0] == "merge":
                    if not os.path.isdir(p): continue
                    m = R.merge(p)
                    if m.rc != 0 or m.rec is None: raise Malformed("merging fails with status %s: %s" % (m.rc, m.err[-200:]))
                    rows.append((R.row(cfg, p, False, m), "merging"))
                    shutil.rmtree(p); os.makedirs(p)
                    for x in ("record", "store"): shutil.copy("%s.hycu_%s" % (m.base, x), os.path.join(p, "merged.hycu_" + x))
                    continue
                vs = schedule(rng); vs["VS_JUMP"] = rng.choice([50, 200, 500])
                late(vs, cfg)
                n = rng.choice([1, 2, 3, 5]); fault = {}
                if step[1]:
                    # where the operations of the n-th save are
                    d2 = R.dir("dry"); shutil.rmtree(d2); shutil.copytree(d, d2)
                    o = ops(R.threaded([cfg], d2, n, dict(vs, VS_DIR=d2), timeout=180).log); shutil.rmtree(d2)
                    kind, nth, stage = step[1][0]
                    starts = [k for k, what, path in o if what in ("open", "fopen") and path.endswith("_store")]
                    ends = starts[1:] + [len(o) + 1]
                    if nth == 0 or not starts: k = 1 if not starts else rng.randint(1, starts[0])
                    else:
                        i = min(nth, len(starts)) - 1; k = rng.randint(starts[i], max(starts[i], ends[i] - 1))
                    fault = {"VS_FAULT": "%s:%d" % (rng.choice(["crash", "after", "short"] if kind == "kill" else ["enospc", "full"]), k)}
                r = R.threaded([cfg], d, n, dict(vs, VS_DIR=d, **fault), timeout=180)
                if not fault and r.rc != 0: raise Malformed("a run ends with status %s: %s" % (r.rc, r.err[-300:]))
                if os.path.isdir(p):
                    x = R.row(cfg, p, not fault); x["before"] = sorted(map(list, before.items())); x["after"] = sorted(map(list, digest(d).items())); rows.append((x, "a run" + str(fault)))
                elif not fault: raise Malformed("no directory of results")
                if fault and os.path.isdir(p) and rng.random() < .5:
                    # what a resumed run computes, seen from inside (on a copy)
                    d3 = R.dir("in"); shutil.rmtree(d3); shutil.copytree(p, d3)
                    ids = R.packages([cfg])[0][1]; skip = sorted({ids.get(blk(b), 0) for f in pairs(d3) for b in f[0]})
                    cf = Cfg(cfg.p, cfg.n, cfg.g, cfg.mark, cfg.count, cfg.size, d3); w = rng.choice([1, 2, 3])
                    q = P.run("standalone", w, ["C " + cf.drv(), "A", "Q"], late(schedule(rng), cfg))
                    f = P.failed(q)
                    if f is None: tr.append(P.row("standalone", w, [cf], q, [skip]))
                    shutil.rmtree(d3)
            # one complete run, and a further one that must not compute anything
            n = rng.choice([1, 2, 4]); r = R.threaded([cfg], d, n, late(schedule(rng), cfg), timeout=180); mid = digest(d)
            if r.rc != 0: raise Malformed("a run ends with status %s: %s" % (r.rc, r.err[-300:]))
            m = R.merge(p); rows.append((R.row(cfg, p, True, m), "the complete run"))
            if m.rc != 0 or m.rec is None: raise Malformed("merging fails with status %s: %s" % (m.rc, m.err[-200:]))
            r = R.threaded([cfg], d, n, late(schedule(rng), cfg), timeout=180)
            x = R.row(cfg, p, True); x["before"] = sorted(map(list, mid.items())); x["after"] = sorted(map(list, digest(d).items())); rows.append((x, "a further run"))
            if rng.random() < .3:
                ids = R.packages([cfg])[0][1]; cf = Cfg(cfg.p, cfg.n, cfg.g, cfg.mark, cfg.count, cfg.size, p)
                q = P.run("standalone", 2, ["C " + cf.drv(), "A", "Q"], late(schedule(rng), cfg))
                if P.failed(q) is None: tr.append(P.row("standalone", 2, [cf], q, [sorted(ids.values())]))
        except (Malformed, OSError) as x: info["problem"] = str(x)
        shutil.rmtree(d, ignore_errors=True)
        return rows, tr, info
    rows = []; meta = []; traces = []; tmeta = []
    try:
        for cfg in MANY[:c.budget(1, 2)]:
            for r, info in many(c, R, cfg): rows.append(r); meta.append(info)
    except (Malformed, OSError) as x: c.violation("a directory with many results: %s" % x)
    for rs, tr, info in parallel(one, jobs, stop=lambda x: "problem" in x[2]):
        c.case(str(info))
        if "problem" in info: c.violation(info["problem"], info)
        for r, what in rs: rows.append(r); meta.append(dict(info, after=what))
        traces += tr; tmeta += [info] * len(tr)
    c.log("%d histories replayed, %d directories, %d resumed runs observed" % (len(jobs), len(rows), len(traces)))
    ok, bad, r = R.validate(rows)
    c.tlc(r, "result directories")
    if not ok: c.violation("after %s the directory is not what the specification allows" % meta[bad]["after"], dict(meta[bad], row={k: v for k, v in rows[bad].items() if k not in ("files", "merged")}, files=[{"name": f["name"], "rec": f["rec"], "lines": [l["t"] for l in f["lines"]][:60]} for f in rows[bad]["files"]][:40]))
    for b in P.validate(traces):
        at, before, ev = P.explain(traces[b])
        c.violation("a resumed run does something the specification has no behaviour for: event %d %s" % (at, ev), dict(tmeta[b], skip=traces[b]["skip"], events=before))
    c.traces(len(rows) + len(traces))
    c.cov["samples"] = [meta[0]]
    c.cov["rule"] = "histories of two to four runs generated by TLC from ResultsGen, faults placed at operations of the corresponding save, random workers and schedules; non-trivial: distinct histories with their choices"
    c.assumptions.append("the process dies; what it wrote before is kept by the system (no power loss)")

"""C14: runs of the merger (spec/Tally.tla, StoreTrace kind merge)."""
import os, subprocess, shutil
from concurrent.futures import ThreadPoolExecutor
from vp.limits import capped
from vp import tlc, build
from vp.mathlib import limbs
from vp.textio import parse_table, parse_record, record_text, line, Malformed
LEVEL = "model_checking"

def number(rng):
    k = rng.randrange(8)
    if k < 3: return rng.randint(1, 30)
    if k == 3: return rng.choice([2 ** 31, 2 ** 32, 2 ** 62, 2 ** 63, 2 ** 64]) + rng.randint(-2, 2)
    if k == 4: return rng.randint(1, 2 ** 62)
    if k == 5: return 10 ** rng.randint(3, 40) - 1
    return rng.randint(1, 10 ** rng.randint(1, 60))

def keys(rng, n):
    out = set()
    while len(out) < n:
        g = rng.randint(1, 4); ram = tuple(sorted(rng.choice([1, 1, 1, 2, 3, 4, 11, 12]) for _ in range(rng.randint(1, 2 * g + 2))))
        hw = tuple(rng.choice([0, -1, 1, rng.randint(-9, 9), rng.randint(-400, 400), -100000 * g]) for _ in range(rng.randint(1, g)))
        out.add((ram, hw))
    return sorted(out)

def blocks(rng, n, dim):
    return [[[a, a + rng.choice([1, 1, 2, 10])] for a in (rng.choice([0, 1, 2, 3, 9, 10, 99, 4000]) for _ in range(dim))] for _ in range(n)]

def table_file(rng, ks, ordered):
    use = [k for k in ks if rng.random() < .6]
    if not ordered: rng.shuffle(use)
    return [(k, number(rng)) for k in use]

NAMES = ["1234567", "77", "result", "a.b", "q5 g2", "00", "zz.hycu", "x_1-2", "9876543210123", "run.hycu_store"]

def case(rng):
    """one directory: [{name, rec, store, blocks, lines}] and distractors"""
    ks = keys(rng, rng.randint(1, 8)); dim = rng.randint(1, 6); files = []; names = rng.sample(NAMES, rng.randint(0, 8))
    for nm in names:
        x = rng.random()
        rec = x < .8; store = x < .77 or x > .8
        if rng.random() < .93 and rec: store = True
        bl = blocks(rng, rng.choice([0, 1, 2, 5]), dim)
        bl = [b for i, b in enumerate(bl) if b not in bl[:i]]
        files.append({"name": nm, "rec": rec, "store": store, "blocks": bl if rec else [], "lines": table_file(rng, ks, rng.random() < .7) if store else []})
    distract = []
    for i in range(rng.randint(0, 3)): distract.append(rng.choice(["notes.txt", "5.hycu_record.tmp", "8.hycu_records", "hycu_record", "3.hycu_storex", "README", "dir.hycu_record/"]))
    out = rng.choice(["out", "sub/out", "o.x", "same", "input"]); blocked = rng.random() < .12
    if out == "input" and (blocked or not files): out = "out"
    return {"files": files, "distract": sorted(set(distract)), "out": out, "blocked": rng.choice(["store", "record", "dir"]) if blocked else None, "old": rng.random() < .3}

def many(rng):
    """more results than a process may have files open"""
    ks = keys(rng, 6)
    files = [{"name": str(rng.randrange(10 ** 12) * 2000 + i), "rec": True, "store": True, "blocks": [[[i, i + 1], [0, 3]]], "lines": table_file(rng, ks, True)[:2]} for i in range(1100)]
    return {"files": files, "distract": [], "out": "out", "blocked": None, "old": False}

class Runner:
    def __init__(self, c, exe): self.c = c; self.exe = exe; self.n = 0
    def path(self):
        self.n += 1; p = os.path.join(self.c.tmp, "m%d" % self.n); os.makedirs(os.path.join(p, "sub")); os.makedirs(os.path.join(p, "in")); return p
    def write(self, d, files):
        for f in files:
            if f["rec"]: open(os.path.join(d, f["name"] + ".hycu_record"), "w").write(f["rectext"] if "rectext" in f else record_text(f["blocks"]))
            if f["store"]: open(os.path.join(d, f["name"] + ".hycu_store"), "w").write(f["text"] if "text" in f else "".join(line(k[0], k[1], v) + "\n" for k, v in f["lines"]))
    def merge(self, d, out):
        r = subprocess.run(capped([self.exe, d, out]), stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=120)
        return r.returncode
    def run(self, k, base):
        d = os.path.join(base, "in"); self.write(d, k["files"])
        for x in k["distract"]:
            if x.endswith("/"): os.makedirs(os.path.join(d, x))
            else: open(os.path.join(d, x), "w").write("1 2 3 4\n1,1;3:5\n")
        # the output may lie among the inputs, or replace one of them
        out = os.path.join(base, k["out"])
        if k["out"] == "same": out = os.path.join(d, "merged")
        if k["out"] == "input": return self.merge(d, os.path.join(d, k["files"][0]["name"])), os.path.join(d, k["files"][0]["name"])
        blocked = k["blocked"]
        if blocked == "dir": out = os.path.join(base, "missing", "out")
        elif blocked and k["files"]: os.symlink("/dev/full", out + ".hycu_" + blocked)
        elif k["old"]:
            open(out + ".hycu_store", "w").write("1;9999999:5\n" * 500)
            if k["out"] != "same": open(out + ".hycu_record", "w").write("1 2 3 4\n" * 500)
        status = self.merge(d, out)
        return status, out

def texts(out):
    rd = lambda e: open(out + e).read() if os.path.isfile(out + e) and not os.path.islink(out + e) else None
    return rd(".hycu_record"), rd(".hycu_store")

def row(c, k, status, out, what):
    files = [{"rec": f["rec"], "store": f["store"], "blocks": f["blocks"], "lines": [{"k": [list(a), list(b)], "v": limbs(v), "t": ""} for (a, b), v in f["lines"]]} for f in k["files"]]
    rec, tab = texts(out) if status == 0 and not k["blocked"] else (None, None)
    r = {"kind": "merge", "files": files, "status": status, "blocked": False, "outlines": [], "outblocks": []}
    inp = [f for f in k["files"] if f["rec"]]
    if k["blocked"]:
        # a full device is only noticed if there is something to write
        full = any(f["blocks"] for f in inp) if k["blocked"] == "record" else any(f["lines"] for f in inp)
        r["blocked"] = k["blocked"] == "dir" or (bool(k["files"]) and full)
        if not r["blocked"]: return None
    elif status == 0:
        if rec is None or tab is None: c.violation("the merger reports success but left no output", {"case": k, "what": what})
        try: r["outlines"] = parse_table(tab); r["outblocks"] = parse_record(rec)
        except Malformed as m: c.violation("merged output is not in the documented form: %s" % m, {"case": k})
    return r

def run(c):
    R = Runner(c, build.build("hycu-merger")["hycu-merger"])
    cases = [case(c.rng) for _ in range(c.budget(900, 8000))] + [many(c.rng) for _ in range(c.budget(1, 4))]
    bases = [R.path() for _ in cases]
    with ThreadPoolExecutor(8) as ex: res = list(ex.map(lambda kb: R.run(*kb), zip(cases, bases)))
    rows = []; info = []
    for k, (status, out) in zip(cases, res):
        if status < 0: c.violation("the merger crashes (signal %d)" % -status, {"case": k})
        r = row(c, k, status, out, "merge")
        if r: rows.append(r); info.append(k)
        c.case(str(k), nontrivial=len(k["files"]) > 1)
    # merging merged results: random groupings, in several rounds, against the original files
    def grouped(k):
        base = R.path(); rounds = 0
        R_rng = __import__("random").Random(str(k)); level = [dict(f, name="f%d" % i) for i, f in enumerate(k["files"])]
        while True:
            nxt = []; R_rng.shuffle(level); parts = []; i = 0
            while i < len(level): n = R_rng.randint(1, 3); parts.append(level[i:i + n]); i += n
            for j, p in enumerate(parts):
                d = os.path.join(base, "r%d-%d" % (rounds, j)); os.makedirs(d); R.write(d, p); out = os.path.join(base, "o%d-%d" % (rounds, j))
                if R.merge(d, out) != 0: return 1, out
                rec, tab = texts(out)
                if rec is None or tab is None: return 0, out
                nxt.append({"name": "g%d" % j, "rec": True, "store": True, "rectext": rec, "text": tab})
            level = nxt; rounds += 1
            if len(level) == 1 and rounds > 1: return 0, out
    gk = []
    for k in cases:
        fs = [f for f in k["files"] if f["rec"] and f["store"]]
        if 1 < len(fs) < 100 and len(gk) < c.budget(200, 2500): gk.append({"files": fs, "distract": [], "out": "grouped", "blocked": None, "old": False})
    with ThreadPoolExecutor(8) as ex: res = list(ex.map(grouped, gk))
    for k, (status, out) in zip(gk, res):
        rows.append(row(c, k, status, out, "grouped merges")); info.append(k); c.case("g" + str(k))
    fields = os.path.join(c.tmp, "nofields"); open(fields, "w").write("")
    ok, bad, r = tlc.records("StoreTrace", rows, extra_env={"FIELDS": fields}, timeout=850 if not c.thorough else 6000)
    c.tlc(r, "recorded merges")
    if not ok: c.violation("the outcome of merging is not the sum of the inputs", {"case": info[bad], "recorded": rows[bad]})
    c.traces(len(rows))
    c.cov["parts"]["refused or blocked"] = sum(x["status"] != 0 for x in rows); c.cov["parts"]["grouped"] = len(gk)
    c.cov["samples"] = [str(info[0])[:600], str(info[-1])[:600]]
    c.cov["rule"] = "random directories of up to 8 results with counts up to 60 digits, missing halves, unrelated files, unwritable outputs; random groupings of repeated merges; directories of 1100 results; non-trivial: more than one file"

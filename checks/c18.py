"""C18: configurations (spec/Config.tla, ConfigTrace), read by the reader itself and by whole runs."""
import os, json, subprocess, glob, shutil
from vp.limits import capped
from vp import tlc, build
from vp.drv import Driver
from vp.runs import parallel
from vp.mathlib import limbs
from vp.textio import parse_table, parse_record, escape, Malformed, value
LEVEL = "model_checking"
FIELDS = ["Prime", "PrimeExponent", "Genus", "WithMarkedPoint", "CountExponent", "ResultPath", "PackageSize"]

def yaml_modulus(w, rng, indent, first):
    ks = [k for k in FIELDS if w[k] not in (-1, "none")]; rng.shuffle(ks); out = []
    for k in ks:
        v = w[k]
        if k == "WithMarkedPoint": v = rng.choice(["true", "True", "yes", "on"]) if v else rng.choice(["false", "False", "no", "off"])
        elif k == "ResultPath" and rng.random() < .2: v = '"%s"' % v
        out.append("%s: %s" % (k, v))
    if not out: return first + "{}\n"
    return "".join((first if i == 0 else indent) + l + "\n" for i, l in enumerate(out))

def yaml_doc(d, rng, top):
    s = "" if d["store"] == "none" else "StoreType: %s\n" % d["store"]
    if top: return s + yaml_modulus(d["moduli"][0], rng, "", "")
    return s + "Moduli:\n" + "".join(yaml_modulus(w, rng, "    ", "  - ") for w in d["moduli"])

SMALL = [(3, 1, 1), (5, 1, 1), (7, 1, 1), (3, 1, 2), (3, 2, 1), (11, 1, 1)]

def random_modulus(rng, i, broken):
    p, n, g = rng.choice(SMALL); q = p ** n
    w = {"Prime": p, "PrimeExponent": n, "Genus": g, "WithMarkedPoint": rng.choice([-1, -1, 0, 1]), "CountExponent": rng.choice([-1, -1, 1, 2] + ([3] if q < 8 else [])),
         "ResultPath": "%s%d" % (rng.choice(["r", "a/b", "deep/er/x"]), i), "PackageSize": rng.choice([1 if q < 8 else 10, 7, 20, 100, 100000])}
    if broken:
        k = rng.choice(["miss", "zero"])
        if k == "miss": k = rng.choice(["Prime", "PrimeExponent", "Genus", "ResultPath", "PackageSize"]); w[k] = "none" if k == "ResultPath" else -1
        else: w[rng.choice(["Prime", "PrimeExponent", "Genus", "PackageSize", "CountExponent"])] = 0
    return w

def summary(c, path, merger, tmp):
    out = {"files": False, "total": [], "offsets": [], "degrees": [], "largest": 0}
    if not os.path.isdir(path): return out
    if not any(x.endswith((".hycu_record", ".hycu_store")) for x in os.listdir(path)): return out
    out["files"] = True
    base = os.path.join(tmp, "merged-" + os.path.basename(path) + str(len(os.listdir(tmp))))
    r = subprocess.run([merger, path, base], stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, timeout=100)
    if r.returncode: return out
    try: t = parse_table(open(base + ".hycu_store").read()); rec = parse_record(open(base + ".hycu_record").read())
    except Malformed: return out
    out["total"] = limbs(sum(value(l["v"]) for l in t)); out["offsets"] = sorted({len(l["k"][1]) for l in t}); out["degrees"] = sorted({sum(l["k"][0]) for l in t})
    for b in rec:
        s = 1
        for l, u in b: s *= max(0, u - l)
        out["largest"] = max(out["largest"], min(s, 2 ** 30))
    return out

def run(c):
    d = Driver(c, "confdrv"); exes = build.build("hycu-threaded", "hycu-merger")
    out = os.path.join(c.tmp, "docs.ndjson")
    tlc.run("ConfigDump", "INIT Init\nNEXT Next\n", env={"OUT": out})
    conv = lambda v: int(v) if v.lstrip("-").isdigit() else v.strip('"')
    docs = [{k: conv(v) for k, v in json.loads(l).items()} for l in open(out)]
    total = len(docs)
    if not c.thorough: docs = c.rng.sample(docs, 4000)
    # several moduli in one document
    lists = [[w] for w in docs]
    good = [w for w in docs if all(w[k] not in (-1, "none") for k in FIELDS if k not in ("WithMarkedPoint", "CountExponent"))]
    lists += [[dict(c.rng.choice(good if c.rng.random() < .8 else docs), ResultPath="p%d" % i) for i in range(c.rng.randint(2, 4))] for _ in range(c.budget(500, 5000))]
    # values of every size
    for _ in range(c.budget(500, 5000)):
        w = dict(c.rng.choice(good))
        for k in ("Prime", "PrimeExponent", "Genus", "CountExponent", "PackageSize"):
            if w[k] not in (0, -1) and c.rng.random() < .5: w[k] = c.rng.choice([127, 128, 255, 256, 32767, 32768, 65535, 65536, 65537, 2 ** 24 + 1, 2 ** 31 - 1, c.rng.randint(1, 2 ** c.rng.randint(1, 31) - 1)])
        lists.append([w])
    cmds = []
    for i, ws in enumerate(lists):
        text = yaml_doc({"store": c.rng.choice(["none", "EC"]), "moduli": ws}, c.rng, len(ws) == 1 and i % 2 == 0)
        cmds.append("conf %s %s" % (os.path.join(c.tmp, "dirs", str(i % 64)), escape(text)))
    recs = d.run(cmds)
    rows = [{"kind": "read", "w": ws, "readable": r["readable"], "nodes": r["nodes"]} for ws, r in zip(lists, recs)]; info = list(cmds)
    # whole runs
    runs = []
    for i in range(c.budget(120, 900)):
        n = c.rng.choice([1, 1, 2, 3]); x = c.rng.random()
        doc = {"store": c.rng.choice(["none", "EC", "EC"]) if x < .85 else c.rng.choice(["c", "ec", "CE", "Count", "EC2"]), "moduli": [random_modulus(c.rng, j, c.rng.random() < .2) for j in range(n)]}
        runs.append((i, doc, yaml_doc(doc, c.rng, n == 1 and i % 2 == 0)))
    def one(x):
        i, doc, text = x; base = os.path.join(c.tmp, "run%d" % i); os.makedirs(base)
        open(os.path.join(base, "c.yaml"), "w").write(text)
        for _ in range(2):
            shutil.rmtree(os.path.join(base, "out"), ignore_errors=True)
            try: r = subprocess.run(capped([exes["hycu-threaded"], "-n2", os.path.join(base, "c.yaml"), os.path.join(base, "out")]), stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=100)
            except subprocess.TimeoutExpired: r = None; continue
            break
        if r is None: return None
        return r.returncode, [summary(c, os.path.join(base, "out", w["ResultPath"]), exes["hycu-merger"], base) if w["ResultPath"] != "none" else summary(c, base + "/none", None, base) for w in doc["moduli"]]
    res = parallel(one, runs, 16, stop=lambda x: x is None)
    for (i, doc, text), r in zip(runs, res):
        if r is None: c.violation("a run of a small configuration does not end within 100 s", {"yaml": text})
        rows.append({"kind": "run", "d": doc, "status": r[0], "found": r[1]}); info.append(text)
    for x in info: c.case(x.split(" ", 2)[-1])
    ok, bad, r = tlc.records("ConfigTrace", rows, timeout=850 if not c.thorough else 6000)
    c.tlc(r, "recorded configurations")
    if not ok: c.violation("a configuration is not read as written, or wrongly accepted or refused", {"input": info[bad], "recorded": rows[bad]})
    c.traces(len(rows))
    c.cov["parts"]["runs of hycu-threaded"] = len(runs)
    c.cov["samples"] = [info[0], info[-1]]
    c.cov["rule"] = "%d of the %d single-modulus documents of Config.tla, random lists of moduli, random fields up to 2^31-1, and random small configurations run by hycu-threaded; non-trivial: distinct documents" % (len(docs), total)



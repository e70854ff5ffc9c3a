"""Runs the real programs on configurations, under the scheduler or freely, and reads what they leave behind."""
import os, json, subprocess, shutil, hashlib, itertools, tempfile, signal, threading
from concurrent.futures import ThreadPoolExecutor
from vp.limits import capped
from vp import build, tlc
from vp.textio import parse_table, parse_record, Malformed
from vp.drv import Driver

class Cfg:
    def __init__(self, p, n=1, g=1, mark=False, e=None, size=10, path="r"):
        self.p, self.n, self.g, self.mark, self.e, self.size, self.path = p, n, g, mark, g if e is None else e, size, path
        self.count = e
    def yaml(self, indent="  "):
        l = ["Prime: %d" % self.p, "PrimeExponent: %d" % self.n, "Genus: %d" % self.g, "WithMarkedPoint: %s" % ("true" if self.mark else "false"),
             "ResultPath: %s" % self.path, "PackageSize: %d" % self.size]
        if self.count is not None: l.append("CountExponent: %d" % self.count)
        return "\n".join(indent + x for x in l)
    def key(self): return (self.p, self.n, self.g, self.mark, self.size, self.e)
    def short(self): return "p=%d n=%d g=%d mark=%d size=%d e=%d" % self.key()
    def drv(self): return "%d %d %d %d %d %d %s" % (self.p, self.n, self.g, int(self.mark), self.e, self.size, self.path)

def config_text(cfgs): return "Moduli:\n" + "\n".join("  - " + c.yaml("    ").lstrip() for c in cfgs) + "\n"

class Run: pass

class Runner:
    def __init__(self, c, *targets):
        self.c = c; self.b = build.build(*targets)
        c.log("built", *targets)
        self._n = itertools.count(); self._pk = {}
        self.filedrv = Driver(c, "filedrv") if "filedrv" in targets else None

    def dir(self, name="d"):
        d = os.path.join(self.c.tmp, "%s%d" % (name, next(self._n))); os.makedirs(d); return d

    def exec(self, cmd, vs=None, timeout=60, env=None, cwd=None):
        """vs: scheduler settings (None: free running)"""
        r = Run(); e = {k: v for k, v in os.environ.items() if not k.startswith("VS_")}
        log = None
        if vs is not None:
            log = os.path.join(self.c.tmp, "log%d" % next(self._n))
            e.update({k: str(v) for k, v in vs.items()}); e["VS_LOG"] = log; cmd = ["/usr/bin/env", "LD_PRELOAD=" + self.b["vsched.so"]] + list(cmd)
        if env: e.update(env)
        p = subprocess.Popen(capped(cmd, 8), env=e, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace", start_new_session=True)
        try: r.out, r.err = p.communicate(timeout=timeout); r.rc = p.returncode
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, signal.SIGKILL); r.out, r.err = p.communicate(); r.rc = "timeout"
        r.log = ""
        if log and os.path.exists(log):
            r.log = open(log, errors="replace").read(); os.unlink(log)
        r.cmd = " ".join(cmd); r.vs = vs
        return r

    def threaded(self, cfgs, out, n, vs=None, timeout=90, extra_env=None):
        y = os.path.join(self.c.tmp, "c%d.yaml" % next(self._n)); open(y, "w").write(config_text(cfgs))
        exe = self.b["hycu-threaded-inst"] if vs is not None else self.b.get("hycu-threaded") or self.b["hycu-threaded-inst"]
        r = self.exec([exe, "-n%d" % n, y, out], vs, timeout, extra_env); os.unlink(y)
        return r

    def merge(self, d, base=None, timeout=60):
        """-> (rc, record blocks, table lines)"""
        base = base or os.path.join(self.dir("m"), "merged")
        r = self.exec([self.b["hycu-merger"], d, base], None, timeout); r.base = base
        try: r.rec, r.lines = read_pair(base)
        except (OSError, Malformed) as x: r.rec, r.lines, r.bad = None, None, str(x)
        return r

    def packages(self, cfgs):
        """contributions of the packages, computed one after another by the repository's own classes"""
        todo = [c for c in {c.key(): c for c in cfgs}.values() if c.key() not in self._pk]
        rows = self.filedrv.run(["pkgs %d %d %d %d %d %d" % (c.p, c.n, c.g, int(c.mark), c.size, c.e) for c in todo]) if todo else []
        for c, r in zip(todo, rows):
            for x in r["pkgs"]: x["lines"] = parse_table(x.pop("text"))
            ids = {blk(x["b"]): i + 1 for i, x in enumerate(r["pkgs"])}
            self._pk[c.key()] = (len(self._pk) + 1, ids, [x["lines"] for x in r["pkgs"]], [x["curves"] for x in r["pkgs"]])
        return [self._pk[c.key()] for c in cfgs]

    def pkgfile(self):
        f = os.path.join(self.c.tmp, "pkgs%d.ndjson" % next(self._n))
        with open(f, "w") as o:
            for i, ids, lines, cs in sorted(self._pk.values(), key=lambda x: x[0]): o.write(json.dumps({"pkgs": lines}) + "\n")
        return f

    def row(self, cfg, d, whole, merged=None, strict=True):
        """a row for ResultsTrace from result directory d (files without record are ignored)"""
        i, ids, _, _ = self.packages([cfg])[0]
        files = []
        for rec, lines, name in pairs(d): files.append({"rec": [ids.get(blk(b), 0) for b in rec], "lines": lines, "name": name})
        r = {"cf": i, "files": files, "whole": whole}
        if merged is not None: r["merged"] = {"rec": [ids.get(blk(b), 0) for b in merged.rec], "lines": merged.lines}
        return r

    def validate(self, rows, timeout=850):
        """-> (ok, index of a bad row, Result)"""
        return tlc.records("ResultsTrace", rows, extra_env={"PKGS": self.pkgfile()}, timeout=timeout)

def blk(b): return tuple(tuple(x) for x in b)

def read_pair(base):
    return parse_record(open(base + ".hycu_record").read()), parse_table(open(base + ".hycu_store").read())

def pairs(d):
    out = []
    for f in sorted(os.listdir(d)):
        if f.endswith(".hycu_record") and os.path.isfile(os.path.join(d, f)):
            b = os.path.join(d, f[:-len(".hycu_record")])
            if not os.path.exists(b + ".hycu_store"): raise Malformed("record %s has no table" % f)
            out.append(read_pair(b) + (f,))
    return out

def digest(d):
    """contents of all files below d"""
    r = {}
    for root, _, fs in os.walk(d):
        for f in fs:
            p = os.path.join(root, f); r[os.path.relpath(p, d)] = hashlib.sha256(open(p, "rb").read()).hexdigest()
    return r

def parallel(f, xs, n=8, stop=None):
    """results in order. After one that stop() holds of, no further job is started, and the results up to the first such are returned."""
    halt = threading.Event()
    def g(x):
        if halt.is_set(): return False, None
        try: r = f(x)
        except BaseException: halt.set(); raise
        if stop and stop(r): halt.set()
        return True, r
    with ThreadPoolExecutor(n) as ex: fs = [ex.submit(g, x) for x in xs]
    out = []
    for t in fs:
        done, r = t.result()
        if not done: break
        out.append(r)
        if stop and stop(r): break
    return out

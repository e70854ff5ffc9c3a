"""Drives the real pool (pooldrv) under the scheduler and checks what was observed against spec/PoolTrace.tla."""
import os, json, re
from vp import tlc
from vp.runs import Cfg, parallel, blk
from vp.textio import parse_table, parse_record, Malformed

def schedule(rng, jump=True):
    """random scheduler settings"""
    m = rng.choice(["rand", "sticky", "sticky", "pct"])
    return {"VS_SEED": rng.randrange(10 ** 9), "VS_MODE": m, "VS_P": rng.choice([5, 30, 150]), "VS_FP": rng.choice([0, 2, 20] if m == "rand" else [0, 5, 50]),
            "VS_DEPTH": rng.choice([1, 2, 3, 5]), "VS_PCTLEN": rng.choice([300, 1500, 6000]), "VS_SPUR": rng.choice([0, 0, 5]),
            "VS_RAND": rng.choice([0, 1, 1, 2]), "VS_JUMP": rng.choice([0, 5, 50, 300]) if jump else 0}

def scripts(c, workers, packages, num, seed, depth=400):
    """scripts generated by TLC from PoolGen"""
    ws = "{%s}" % ", ".join(str(i) for i in range(1, workers + 1))
    r = tlc.run("PoolGen", "SPECIFICATION GSpec\nCONSTANTS\n Workers = %s\n Packages = {%s}\n Nobody = 0\nINVARIANT Done Inv\n" % (ws, ", ".join(map(str, range(1, packages + 1)))),
                extra=["-simulate", "num=%d" % num, "-depth", str(depth), "-seed", str(seed)], workers=1, timeout=600)
    c.tlc(r, "behaviours generated from the abstract pool")
    out = []
    for m in re.finditer(r'<<\s*"SCRIPT",\s*<<(.*?)>>\s*>>', r.out, re.S):
        out.append(re.findall(r'"([^"]*)"', m.group(1)))
    return out

class Pool:
    def __init__(self, c, R):
        self.c = c; self.R = R

    def run(self, mode, n, script, vs, timeout=60):
        c = self.c; base = os.path.join(c.tmp, "pool%d" % next(self.R._n))
        open(base + ".s", "w").write("\n".join(script) + "\n")
        r = self.R.exec([self.R.b["pooldrv"], mode, str(n), base + ".s", base + ".e"], vs, timeout)
        r.events = []
        if os.path.exists(base + ".e"):
            for l in open(base + ".e"):
                try: r.events.append(json.loads(l))
                except ValueError: break
            os.unlink(base + ".e")
        os.unlink(base + ".s")
        return r

    def failed(self, r):
        """None, or what a run that should have ended did instead"""
        if r.rc == 0: return None
        if r.rc == 97: return "all threads wait for each other, or no thread makes progress"
        if r.rc == 98: return "no end after very many steps under a fair schedule"
        if r.rc == "timeout": return "no end"
        return "exit status %s: %s" % (r.rc, r.err[-300:])

    def row(self, mode, n, cfgs, r, skip=None):
        """events -> a run for PoolTrace; cfgs: configurations in the order of the C commands"""
        pk = self.R.packages(cfgs)
        reach = {}
        k = 0; seg = []
        for e in r.events:          # which worker each package reached
            seg.append(k)
            if e["e"] == "configured": k += 1
        workers = {}; out = []
        for e, s in zip(r.events, seg):
            if e["e"] in ("arrive", "publish"):
                workers.setdefault(e["t"], len(workers) + 1)
                if e["e"] == "arrive": reach.setdefault((s, e["b"]), workers[e["t"]])
        for e, s in zip(r.events, seg):
            o = dict(e); cf = s - 1
            if e["e"] in ("assign", "assigned", "arrive"): o["w"] = reach.get((s, e["b"]), 0)
            if e["e"] in ("arrive", "publish"): o["t"] = min(workers[e["t"]], n + 1)
            if e["e"] == "arrive":
                want = [[cfgs[cf].p, cfgs[cf].n, cfgs[cf].e]] if cf >= 0 else None
                o["ok"] = pk[cf][0] if e["cfg"] in ([], want) else 0
                o.pop("cfg")
            if e["e"] == "taken":
                ids = pk[cf][1] if cf >= 0 else {}
                o["rec"] = [ids.get(blk(b), 0) for b in parse_record(o.pop("record"))]
                o["lines"] = parse_table(o.pop("text"))
                if 0 in o["rec"]: o["rec"] = [-5]
            out.append({x: o[x] for x in o if x not in ("curves",)})
        return {"n": n, "cf": [p[0] for p in pk], "np": [len(p[1]) for p in pk], "skip": skip or [[] for _ in pk], "open": mode == "pool", "ev": out}

    def validate(self, rows, timeout=800):
        """-> list of indices that the specification does not explain"""
        groups = {}
        for i, r in enumerate(rows): groups.setdefault(r["n"], []).append(i)
        bad = []
        pk = self.R.pkgfile()
        def one(n):
            ix = groups[n]; path = os.path.join(self.c.tmp, "traces%d-%d.ndjson" % (n, next(self.R._n)))
            with open(path, "w") as f:
                for i in ix: f.write(json.dumps(rows[i]) + "\n")
            try: r = self._tlc(n, path, pk, "0", timeout)
            except tlc.TLCError as x:
                if not getattr(x, "evaluation", False): raise
                self.c.violation("recorded events of the pool have values the specification cannot evaluate: %s" % str(x)[-1500:], {"workers": n})
            acc = set(int(x) for x in re.findall(r'<<"ACCEPTED", (\d+)>>', r.out))
            os.unlink(path)
            return r, [ix[j] for j in range(len(ix)) if j + 1 not in acc]
        for r, b in parallel(one, sorted(groups), 4):
            self.c.tlc(r, "recorded runs of the pool"); bad += b
        return sorted(bad)

    def _tlc(self, n, path, pk, at, timeout):
        r = tlc.run("PoolTrace", "SPECIFICATION Spec\nCONSTANT NW = %d\nINVARIANT Accepted AbsInv\n" % n,
                    env={"TRACES": path, "PKGS": pk, "TRACE_AT": at}, workers=3, timeout=timeout)
        if not r.ok: raise tlc.TLCError("PoolTrace ended with %s\n%s" % (r.kind, r.out[-3000:]))
        return r

    def explain(self, row):
        """first event that cannot be explained"""
        path = os.path.join(self.c.tmp, "one%d.ndjson" % next(self.R._n)); open(path, "w").write(json.dumps(row) + "\n")
        r = self._tlc(row["n"], path, self.R.pkgfile(), "1", 300)
        at = max([int(x) for x in re.findall(r'<<"AT", (\d+)>>', r.out)] or [1])
        ev = row["ev"]
        return at, ev[max(0, at - 12):at - 1], ev[at - 1] if at <= len(ev) else "end"

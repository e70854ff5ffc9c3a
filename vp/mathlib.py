"""Common parts of the checks on fields and curves: recorded tables and rows for CurveTrace."""
import json, os, tempfile
from vp import tlc
from vp.polys import PyField

def order(p, n): return p ** n

class Fields:
    """element tables recorded from the implementation; ks: extension degrees used by the rows"""
    def __init__(self, check, driver, spec):
        # spec: list of (p, n, [ks])
        self.spec = list(spec)
        rows = driver.run(["table %d %d" % (p, n) for p, n, _ in self.spec])
        self.index = {}; self.py = {}
        self.path = os.path.join(check.tmp, "fields-%d.ndjson" % id(self))
        with open(self.path, "w") as f:
            for i, ((p, n, ks), r) in enumerate(zip(self.spec, rows)):
                f.write(json.dumps({"p": p, "n": n, "el": r["el"], "ks": ks}) + "\n")
                self.index[(p, n)] = i + 1
                try: self.py[(p, n)] = PyField(r)
                except Exception: self.py[(p, n)] = None
                if sorted(r["el"]) != list(range(p ** n)) or r["el"][-1] != 0:
                    check.violation("the element table of F_%d^%d does not list every element once (zero last)" % (p, n), {"command": "table %d %d" % (p, n), "recorded": r})
    def env(self): return {"FIELDS": self.path}

def curve_cmd(p, n, exps, ops):
    return "curve %d %d %d %s %s" % (p, n, len(exps), " ".join(map(str, exps)), " ".join(ops))

def prime_of(q, n):
    p = round(q ** (1.0 / n)); assert p ** n == q
    return p

def limbs(n):
    """a natural number as the specification's BigNat"""
    r = []
    while n: r.append(n % 10000); n //= 10000
    return r

"""C04: the single-curve program with all its counting methods (spec/SingleTrace.tla)."""
import re, os, subprocess
from vp.limits import capped
from vp import tlc, build
from vp.mathlib import limbs
from vp.runs import parallel
from vp.polys import PyField, random_poly
LEVEL = "model_checking"
METHODS = [[], ["--naivenmod"], ["--naivezech"]]

# p, genera and number of curves each
QUICK = [(3, [1, 2, 3, 4, 5, 6], 20), (5, [1, 2, 3, 4, 5], 16), (7, [1, 2, 3, 4], 14), (11, [1, 2, 3], 12), (13, [1, 2, 3], 10), (17, [1, 2], 12), (19, [1, 2], 10), (23, [1, 2], 10), (31, [1, 2], 10), (37, [1, 2], 6), (101, [1], 10), (211, [1], 10), (1009, [1], 6)]
LARGE_QUICK = [(4001, 2), (10007, 2), (40009, 2), (65521, 1), (65537, 2), (65539, 1), (109987, 1), (110017, 2), (110063, 1)]
# genus one, counts checked by the order of the group (spec/EllipticOrder.tla)
GROUP_QUICK = [(131101, 1), (262147, 1), (524309, 1), (1048583, 1)]
GROUP_MORE = [(131101, 8), (262147, 8), (524309, 8), (1048583, 6), (1299709, 4), (2097169, 3), (4194319, 2)]
LARGE_MORE = [(4001, 20), (10007, 10), (30011, 8), (46337, 6), (46349, 6), (65521, 6), (65537, 6), (65539, 6), (92681, 6), (109987, 4), (110017, 8), (110063, 6), (120011, 6), (131063, 4), (131071, 6)]

def prime(n): return n > 2 and all(n % d for d in range(2, int(n ** .5) + 1))

class Unreadable(Exception): pass

def section(text, name):
    m = re.search(r"^\s*%s[^:\n]*:(.*)$" % name, text, re.M | re.I)
    if not m: raise Unreadable("no line %r" % name)
    return m.group(1)

def parse(text):
    """reads the numbers of the labelled lines; the layout between them does not matter"""
    poly = {}
    first = text.split("\n")[0]
    for c, e in re.findall(r"\(?\s*(\d+)\s*\)?\s*\*?\s*X\s*\^\s*(\d+)", first): poly[int(e)] = int(c)
    if not poly: raise Unreadable("no polynomial in %r" % first)
    f = [poly.get(i, 0) for i in range(max(poly) + 1)]
    while f and f[-1] == 0: f.pop()
    num = lambda s: [int(x) for x in re.findall(r"-?\d+", s)]
    v = num(section(text, "number of points"))
    if len(v) % 2: raise Unreadable("odd number of point counts")
    return {"poly": f, "pts": [v[i:i + 2] for i in range(0, len(v), 2)], "hw": num(section(text, "hasse-weil offsets")), "ram": num(section(text, "ramification type"))}

class IntField(PyField):
    """elements are the integers modulo p themselves"""
    def __init__(self, p): self.p = self.q = p; self.n = 1; self.zero = 0
    def add(self, a, b): return (a + b) % self.p
    def neg(self, a): return -a % self.p
    def mul(self, a, b): return a * b % self.p
    def inv(self, a): return pow(a, self.p - 2, self.p)
    def of_int(self, m): return m % self.p
    def random(self, rng, deg, lead=None): return [rng.randrange(self.p) for _ in range(deg)] + [rng.randrange(1, self.p)]

def curve(rng, F, deg, t):
    while True:
        if t % 4 == 1:                                   # product of random factors
            f = [rng.randrange(1, F.p)]
            while len(f) <= deg: f = F.pmul(f, F.random(rng, rng.randint(1, deg + 1 - len(f))))
        elif t % 4 == 2: f = [rng.randrange(F.p) if rng.random() < .5 else 0 for _ in range(deg)] + [rng.randrange(1, F.p)]
        else: f = F.random(rng, deg)
        if F.squarefree(f): return f
        t += 1

def disguise(rng, f, p, t):
    """coefficients of the same polynomial modulo p, possibly not reduced, possibly with zero leading ones"""
    top = 2 ** 32 - 1
    if t % 3 == 0: g = list(f)
    elif t % 3 == 1: g = [x + p * rng.randint(0, 3) for x in f]
    else: g = [x + p * rng.randrange((top - x) // p + 1) for x in f]
    if t % 5 == 4: g += [p * rng.randint(0, 2) for _ in range(rng.randint(1, 2))]
    return g

def run(c):
    exe = build.build("hycu-single")["hycu-single"]
    r = tlc.run("DiscSelf", "INIT SInit\nNEXT SNext\nINVARIANT SelfOK\nCONSTANT SelfTest = TRUE\n", env={"ROWS": os.devnull}) if c.thorough else None
    if r: c.tlc(r, "self-validation"); assert r.ok
    cases = []
    for p, gs, m in QUICK:
        F = IntField(p)
        for g in gs:
            for t in range(m * c.budget(1, 8)):
                f = curve(c.rng, F, c.rng.choice([2 * g + 1, 2 * g + 2]), t)
                cases.append((p, disguise(c.rng, f, p, t), g, False))
    others = [p for p in range(40, 12000) if prime(p)]
    for t in range(c.budget(12, 150)):
        p = c.rng.choice(others); F = IntField(p)
        cases.append((p, disguise(c.rng, curve(c.rng, F, c.rng.choice([3, 4]), t), p, t), 1, True))
    for p, m in (LARGE_MORE if c.thorough else LARGE_QUICK):
        F = IntField(p)
        for t in range(m): cases.append((p, disguise(c.rng, curve(c.rng, F, c.rng.choice([3, 4]), t), p, t), 1, True))
    for p, m in (GROUP_MORE if c.thorough else GROUP_QUICK):
        F = IntField(p)
        for t in range(m): cases.append((p, disguise(c.rng, curve(c.rng, F, 3, t), p, t), 1, None))
    cases.sort(key=lambda x: -x[0])

    def one(case):
        p, f, g, large = case; outs = []
        for m in METHODS:
            cmd = [exe, str(p)] + [str(x) for x in f] + m
            try: r = subprocess.run(capped(cmd), stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=c.budget(100, 900))
            except subprocess.TimeoutExpired: outs.append((cmd, None, "no answer within %d s" % c.budget(100, 900), None)); break
            outs.append((cmd, r.returncode, r.stderr[-300:], r.stdout))
            if r.returncode != 0: break
        return outs
    res = parallel(one, cases, stop=lambda outs: outs[-1][1] != 0)
    c.log(len(cases), "curves run with", len(METHODS), "methods")
    rows = []; cmds = []; grows = []; gcmds = []
    for (p, f, g, large), outs in zip(cases, res):
        o = []
        for cmd, rc, err, out in outs:
            text = " ".join(["hycu-single"] + cmd[1:])
            if rc != 0:
                c.violation("hycu-single fails on an admissible curve (%s): %s" % (rc, err), {"command": text})
            try: o.append(parse(out))
            except Unreadable as u: c.violation("output without the documented values: %s" % u, {"command": text, "output": out})
        if large is None:
            f = [x % p for x in f][:4]; gcmds.append(" ".join(["hycu-single"] + outs[0][0][1:])); c.case(gcmds[-1])
            if any(x["poly"] != f or len(x["pts"]) != 1 or len(x["hw"]) != 1 for x in o): c.violation("hycu-single prints another polynomial or another number of counts", {"command": gcmds[-1], "printed by method": o})
            if any(x != o[0] for x in o): c.violation("the counting methods disagree", {"command": gcmds[-1], "printed by method": o})
            grows.append({"p": p, "f": f, "pts": o[0]["pts"][0], "hw": o[0]["hw"][0], "ram": o[0]["ram"], "xs": [c.rng.randrange(p) for _ in range(8)]}); continue
        rows.append({"p": p, "coeffs": [limbs(x) for x in f], "g": g, "large": large, "outs": o}); cmds.append(" ".join(["hycu-single"] + outs[0][0][1:]))
        c.case(cmds[-1])
    ok, bad, r = tlc.records("SingleTrace", rows, timeout=850 if not c.thorough else 8000, heap="12g")
    c.tlc(r, "recorded outputs")
    gok, gbad, r = tlc.records("EllipticOrder", grows, timeout=850 if not c.thorough else 8000)
    c.tlc(r, "genus one over large prime fields")
    if not gok: c.violation("hycu-single prints a number of points that does not annihilate the points of the curve", {"command": gcmds[gbad], "printed": grows[gbad]})
    if not ok: c.violation("hycu-single prints wrong values", {"command": cmds[bad], "printed by method": rows[bad]["outs"]})
    c.traces(sum(len(x["outs"]) for x in rows) + len(METHODS) * len(grows))
    c.cov["samples"] = [cmds[0], cmds[len(cmds) // 2], cmds[-1]]
    c.cov["rule"] = "random square-free polynomials, coefficients reduced or not, with leading zeros, genus up to 6, primes up to 1048583, each with all counting methods; non-trivial: distinct command lines"

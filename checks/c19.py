"""C19: element tables are discrete logarithm tables (spec/TableTrace.tla)."""
from vp import tlc
from vp.drv import Driver
LEVEL = "model_checking"

def prime(n): return n > 2 and all(n % d for d in range(2, int(n ** .5) + 1))

def run(c):
    d = Driver(c, "mathdrv")
    bound = c.budget(1400, 12000); ext = c.budget(7000, 60000)
    fields = [(p, 1) for p in range(3, bound) if prime(p)]
    if not c.thorough:
        fields = [f for f in fields if f[0] < 300] + c.rng.sample([f for f in fields if f[0] >= 300], 60)
    large = [p for p in (4001, 8191, 10007, 32749, 46337, 46349, 65537, 65539, 109987, 110017, 110063, 131071, 131101)]
    if not c.thorough: large = c.rng.sample(large[:5], 2) + c.rng.sample(large[5:9], 1) + [c.rng.choice(large[9:])]
    # primes without Conway polynomial: the first candidate need not generate the units
    large += [p for p in range(65536, 67300 if c.thorough else 65800) if prime(p)]
    fields += [(p, 1) for p in sorted(set(large))]
    e = [(p, n) for p in range(3, 250) if prime(p) for n in range(2, 11) if p ** n <= ext]
    fields += e
    cmds = []
    for p, n in fields:
        q = p ** n
        ms = list(range(1, q + 3)) if q < 40 else sorted(set([1, 2, 3, 4, 5, 6, q - 1, q, 2 * (q - 1)] + [c.rng.randint(1, q) for _ in range(10)] + [2 * k for k in range(3, 14)]))
        if q > 5000: ms = [m for m in ms if m < 100]
        cmds.append("table %d %d %s" % (p, n, " ".join(map(str, ms))))
    order = sorted(range(len(cmds)), key=lambda i: -fields[i][0] ** fields[i][1])     # expensive first
    fields = [fields[i] for i in order]; cmds = [cmds[i] for i in order]
    rows = d.run(cmds)
    ok, bad, r = tlc.records("TableTrace", rows, timeout=850 if not c.thorough else 6000, heap="12g")
    c.tlc(r, "recorded tables")
    if not ok:
        x = dict(rows[bad]); x["el"] = x["el"][:300]
        c.violation("the element table of F_%d^%d is no discrete logarithm table" % fields[bad], {"command": cmds[bad], "recorded": x})
    c.traces(len(rows))
    for f, x in zip(fields, cmds): c.case("%d %d" % f)
    c.cov["parts"]["elements"] = sum(p ** n for p, n in fields)
    c.cov["samples"] = [cmds[0][:200], cmds[-1][:200]]
    c.cov["rule"] = "odd prime powers: all primes below 300 and all proper powers up to %d, sampled larger primes up to 131101; every table checked element by element; non-trivial: distinct fields" % ext

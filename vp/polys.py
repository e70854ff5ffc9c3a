"""Polynomials over a field given by its recorded element table (exponents; zero = q-1). Used only to choose inputs:
the verdict on every input is the specification's."""

class PyField:
    def __init__(self, row):
        self.p, self.n = row["p"], row["n"]; self.el = row["el"]; self.q = len(self.el)
        self.log = {c: i for i, c in enumerate(self.el)}
        self.zero = self.q - 1
    def _addc(self, a, b):
        if self.n == 1: return (a + b) % self.p
        r = 0; m = 1
        for _ in range(self.n):
            r += ((a % self.p + b % self.p) % self.p) * m; m *= self.p; a //= self.p; b //= self.p
        return r
    def add(self, a, b): return self.log[self._addc(self.el[a], self.el[b])]
    def neg(self, a): return a if a == self.zero else (a + (self.q - 1) // 2) % (self.q - 1)
    def mul(self, a, b): return self.zero if self.zero in (a, b) else (a + b) % (self.q - 1)
    def inv(self, a): return (self.q - 1 - a) % (self.q - 1)
    def of_int(self, m): return self.log[m % self.p]
    def trim(self, f):
        f = list(f)
        while f and f[-1] == self.zero: f.pop()
        return f
    def mod(self, f, g):
        f = self.trim(f); gi = self.inv(g[-1])
        while len(f) >= len(g):
            c = self.neg(self.mul(f[-1], gi)); s = len(f) - len(g)
            for i, x in enumerate(g): f[s + i] = self.add(f[s + i], self.mul(c, x))
            f = self.trim(f)
        return f
    def pmul(self, f, g):
        if not f or not g: return []
        r = [self.zero] * (len(f) + len(g) - 1)
        for i, x in enumerate(f):
            for j, y in enumerate(g): r[i + j] = self.add(r[i + j], self.mul(x, y))
        return r
    def gcd(self, f, g):
        f, g = self.trim(f), self.trim(g)
        while g: f, g = g, self.mod(f, g)
        return f
    def deriv(self, f): return self.trim([self.mul(self.of_int(i), x) for i, x in enumerate(f)][1:])
    def squarefree(self, f):
        f = self.trim(f)
        return len(f) > 0 and len(self.gcd(f, self.deriv(f))) == 1
    def random(self, rng, deg, lead=None):
        return [rng.randrange(self.q) for _ in range(deg)] + [rng.randrange(self.q - 1) if lead is None else lead]

def random_poly(rng, F, deg, t):
    """polynomials of several shapes, of the given degree"""
    q = F.q; z = F.zero; shape = t % 8
    if shape in (0, 1): return F.random(rng, deg)
    if shape == 2: return [rng.randrange(q) if rng.random() < .4 else z for _ in range(deg)] + [rng.randrange(q - 1)]
    if shape == 3: return [z] + F.random(rng, deg - 1)                        # root at zero
    if shape == 4:                                                           # many factors
        f = [rng.randrange(q - 1)]
        while len(f) <= deg:
            d = rng.randint(1, min(3, deg + 1 - len(f))); f = F.pmul(f, F.random(rng, d))
        return f
    if shape == 5: return [rng.choice([z, F.of_int(rng.randrange(F.p))]) for _ in range(deg)] + [F.of_int(rng.randrange(1, F.p))]  # prime field
    if shape == 6: return F.random(rng, deg, lead=rng.choice([1, 3, 5, 7]) % (q - 1) if q > 3 else 1)    # non-square leading coefficient
    return [rng.randrange(q)] + [z] * (deg - 2) + [rng.randrange(q), rng.randrange(q - 1)] if deg > 1 else F.random(rng, deg)

def squarefree_poly(rng, F, deg, t):
    for i in range(200):
        f = random_poly(rng, F, deg, t if i < 20 else 0)
        if len(f) == deg + 1 and F.squarefree(f): return f
    raise RuntimeError("no square-free polynomial found")

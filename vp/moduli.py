"""Lists of moduli for one configuration."""
from vp.runs import Cfg

# moduli that differ in one aspect only, and others
BASE = [Cfg(3, 1, 1, False, None, 12), Cfg(3, 1, 1, True, None, 12), Cfg(3, 1, 1, False, 2, 12), Cfg(3, 1, 1, False, None, 5), Cfg(5, 1, 1, False, None, 30), Cfg(5, 1, 1, True, None, 30),
        Cfg(3, 1, 2, True, 1, 20), Cfg(3, 1, 2, False, 1, 40), Cfg(3, 2, 1, True, 1, 40), Cfg(7, 1, 1, True, 1, 20), Cfg(3, 1, 2, True, 2, 20)]

def moduli(rng, kmax=4):
    k = rng.randint(2, kmax); xs = [rng.choice(BASE) for _ in range(k)]
    if rng.random() < .2: xs[-1] = xs[0]
    paths = []
    for i in range(k):
        ps = ["r%d" % i, "r.%d" % i, "a/b/r%d" % i] + ([paths[-1] + "/s", paths[-1] + ".hycu_record", paths[-1] + "x", paths[0] + "/t%d" % i] if paths else [])
        paths.append(rng.choice([x for x in ps if x not in paths]))
    if rng.random() < .3: paths.reverse()
    return [Cfg(x.p, x.n, x.g, x.mark, x.count, x.size, y) for x, y in zip(xs, paths)]

"""Model checking of spec/MpiPool.tla."""
from vp import tlc
INVS = "AbsInv NotStuck EndState Credit OneProcess PathsOK"
def model(c, procs, threads, n, saves, split=99, switch=None, invs=INVS, props="AbsSpec Ends", timeout=800, expect=True, part=None):
    sw = "\n".join(" %s = %s" % (s, "TRUE" if s == switch else "FALSE") for s in ("NoWait", "Greedy", "OwnOnly", "Overtake", "NoConfig"))
    r = tlc.run("MpiPool", "SPECIFICATION Spec\nCONSTANTS\n NProcs = %d\n NThreads = %d\n NPackages = %d\n Split = %d\n Saves = %d\n Nobody = Nobody\n%s\n%s\n%s\nCHECK_DEADLOCK FALSE\n" % (
        procs, threads, n, split, saves, sw, "INVARIANT " + invs if invs else "", "PROPERTY " + props if props else ""), timeout=timeout)
    c.tlc(r, part or "MpiPool master and %d processes, %d threads each, %d packages, %d saves, moduli split at %d" % (procs, threads, n, saves, split))
    if r.ok != expect:
        raise RuntimeError("MpiPool %s: %s\n%s" % ("does not hold" if expect else "holds although %s" % switch, r.kind, r.out[-3000:]))
    return r

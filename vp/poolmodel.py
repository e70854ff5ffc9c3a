"""Model checking of spec/PoolImpl.tla."""
from vp import tlc
def model(c, w, n, saves, split=99, oldwait=False, oldflush=False, nowait=False, invs="AbsInv OneQueued NotStuck EndState PairsOK PathsOK", props="AbsSpec Ends", timeout=800, expect=True, part=None):
    B = lambda x: "TRUE" if x else "FALSE"
    r = tlc.run("PoolImpl", "SPECIFICATION Spec\nCONSTANTS\n Workers = {%s}\n NPackages = %d\n Nobody = Nobody\n OldWait = %s\n OldFlush = %s\n NoWait = %s\n Split = %d\n Saves = %d\n%s\n%s\n" % (
        ", ".join("w%d" % i for i in range(1, w + 1)), n, B(oldwait), B(oldflush), B(nowait), split, saves,
        "INVARIANT " + invs if invs else "", "PROPERTY " + props if props else ""), timeout=timeout)
    c.tlc(r, part or "PoolImpl %d workers, %d packages, %d saves, moduli split at %d" % (w, n, saves, split))
    if r.ok != expect:
        raise RuntimeError("PoolImpl %s: %s\n%s" % ("does not hold" if expect else "holds although the fault is switched on", r.kind, r.out[-3000:]))
    return r

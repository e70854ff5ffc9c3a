"""Distributed runs: all ranks in one process under the scheduler (harness/mpihost.cc), or real ones with mpirun."""
import os, shutil, itertools
from vp import build, tlc
from vp.runs import config_text, blk
from vp.textio import parse_table, parse_record, Malformed

class Mpi:
    def __init__(self, c, R, ranks=6):
        self.c = c; self.R = R; self.so = None
        try: b = build.build("rank.so", "mpihost")
        except build.BuildError as x: c.log("the ranks do not build against harness/mpistub:", str(x)[-1500:]); return
        self.so = os.path.join(c.tmp, "rank"); self.host = b["mpihost"]
        for i in range(ranks): shutil.copy(b["rank.so"], self.so + str(i))

    def args(self, y, out, n): return (["-n%d" % n] if n else []) + [y, out]

    def sched(self, cfgs, out, procs, n, vs, timeout=180, text=None, args=None):
        """procs ranks, one after another under the scheduler"""
        R = self.R; k = next(R._n); y = os.path.join(self.c.tmp, "c%d.yaml" % k); l = os.path.join(self.c.tmp, "m%d" % k)
        open(y, "w").write(config_text(cfgs) if text is None else text)
        r = R.exec([self.host, self.so, str(procs)] + (self.args(y, out, n) if args is None else args), vs, timeout, {"VMPI_LOG": l, "VMPI_SYNC": str(vs.get("VMPI_SYNC", 0))})
        r.msgs = open(l).read().splitlines() if os.path.exists(l) else []
        for f in (y, l):
            if os.path.exists(f): os.unlink(f)
        return r

    def real(self, cfgs, out, procs, n, timeout=120, text=None, args=None):
        R = self.R; y = os.path.join(self.c.tmp, "c%d.yaml" % next(R._n)); open(y, "w").write(config_text(cfgs) if text is None else text)
        e = {"OMPI_ALLOW_RUN_AS_ROOT": "1", "OMPI_ALLOW_RUN_AS_ROOT_CONFIRM": "1", "OMPI_MCA_btl_vader_single_copy_mechanism": "none", "OMPI_MCA_rmaps_base_oversubscribe": "1", "OMPI_MCA_hwloc_base_binding_policy": "none",
             "OMPI_MCA_btl": "self,vader,tcp", "OMPI_MCA_orte_tmpdir_base": self.c.tmp, "OMPI_MCA_plm_rsh_agent": "/bin/false"}
        r = R.exec(["mpirun", "-n", str(procs), R.b["hycu-mpi"]] + (self.args(y, out, n) if args is None else args), None, timeout, e); os.unlink(y)
        return r

    def row(self, cfgs, procs, n, r, skip=None, whole=True, kind="all"):
        """row for MpiTrace from the messages of a run"""
        pk = self.R.packages(cfgs); ids = [p[1] for p in pk]; conf = [0] * procs
        known = {"config", "block", "blocks", "ready", "results"}; msgs = []
        def unhex(s): return "" if s == "-" else bytes.fromhex(s).decode()
        def block(s): return tuple() if s == "-" else tuple(tuple(int(x) for x in t.split(",")) for t in s.split(";"))
        def no(p, b): return ids[conf[p] - 1].get(b, 0) if 0 < conf[p] <= len(ids) else 0
        for l in r.msgs:
            w = l.split()
            if w == ["SLEEP", "0"]: msgs.append({"k": "sleep"}); continue
            if w[0] != "SEND" or w[3] not in known: continue
            f, t, k = int(w[1]), int(w[2]), w[3]
            if k in ("config", "block"):
                if f != 0: continue
                if k == "config": conf[t] += 1; msgs.append({"k": k, "to": t})
                else: msgs.append({"k": k, "to": t, "b": no(t, block(w[4]))})
            elif t == 0:
                if k == "blocks": msgs.append({"k": k, "from": f, "bs": [no(f, block(x)) for x in w[4:]]})
                elif k == "ready": msgs.append({"k": k, "from": f, "n": int(w[4]) + int(w[5])})
                else: msgs.append({"k": k, "from": f, "rec": [no(f, blk(b)) for b in parse_record(unhex(w[4]))], "lines": parse_table(unhex(w[5]))})
        seen = sorted({m["k"] for m in msgs})
        if "config" not in seen: msgs = []; whole = False      # another way of telling the processes what to do
        return {"kind": kind, "procs": procs - 1, "threads": n, "cf": [p[0] for p in pk], "skip": skip or [[] for _ in cfgs], "seen": seen, "msgs": msgs, "whole": whole}

    def validate(self, rows, timeout=850):
        return tlc.records("MpiTrace", rows, extra_env={"PKGS": self.R.pkgfile()}, timeout=timeout)

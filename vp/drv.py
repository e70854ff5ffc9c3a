"""Runs a command driver (one command per line, one JSON line per command) in parallel shards."""
import json, os, subprocess, tempfile
from concurrent.futures import ThreadPoolExecutor
from vp import build
from vp.limits import capped

class Driver:
    def __init__(self, check, name):
        self.c = check; self.name = name
        self.path = build.build(name)[name]
        check.log("built", name)

    def _shard(self, cmds, timeout):
        mb = 2000 if self.c.thorough else 400
        with tempfile.TemporaryFile(dir=self.c.tmp) as f:
            err = None
            try:
                p = subprocess.run(capped([self.path], 4, mb), input=("\n".join(cmds) + "\n").encode(), stdout=f, stderr=subprocess.PIPE, timeout=timeout)
                if p.returncode != 0: err = "exit status %d: %s" % (p.returncode, p.stderr[-500:].decode(errors="replace"))
            except subprocess.TimeoutExpired: err = "no answer within %d s" % timeout
            f.seek(0)
            # whatever else is printed is none of the answers
            return [l for l in f.read().decode(errors="replace").split("\n")[:-1] if l.startswith("{") and l.endswith("}")], err

    def run(self, cmds, timeout=None, shards=8, allow_fail=False):
        """rows in order of cmds. A command that crashes or hangs the real code is a violation (if it repeats)."""
        timeout = timeout or (3000 if self.c.thorough else 200)
        k = min(shards, max(1, len(cmds)))
        parts = [list(range(i, len(cmds), k)) for i in range(k)]
        rows = [None] * len(cmds)
        with ThreadPoolExecutor(k) as ex:
            res = list(ex.map(lambda ix: self._shard([cmds[i] for i in ix], timeout), parts))
        for ix, (out, err) in zip(parts, res):
            for i, line in zip(ix, out): rows[i] = json.loads(line)
            if err is None and len(out) < len(ix): err = "no answer"
            if err is not None:
                bad = ix[min(len(out), len(ix) - 1)]
                o2, e2 = self._shard([cmds[bad]], timeout // 2)
                if e2 is None and not o2: e2 = "no answer"
                if e2 is None:                      # perhaps something an earlier command has left behind
                    before = [cmds[i] for i in ix[:ix.index(bad) + 1]]
                    o2, e2 = self._shard(before, timeout)
                    if e2 is None and len(o2) < len(before): e2 = "no answer"
                    if e2 is None: raise RuntimeError("driver failure not repeated: %s on %s" % (err, cmds[bad][:300]))
                if allow_fail: continue
                self.c.violation("the implementation fails (%s) on: %s" % (e2, cmds[bad][:500]), {"command": cmds[bad]})
        return rows

"""C15: texts of records and tables (spec/Tally.tla, StoreTrace kinds rec, tab, hist)."""
import os
from vp import tlc
from vp.drv import Driver
from vp.mathlib import limbs
from vp.textio import parse_table, parse_record, record_text, line, Malformed, block_args, escape
from checks.c14 import keys, number
LEVEL = "model_checking"

def bound(rng): return rng.choice([0, 1, 2, 9, 10, 11, 99, 100, 65535, 65536, 2 ** 31 - 2, 2 ** 31 - 1, 2 ** 31, 2 ** 32 - 2, rng.randint(0, 300), rng.randint(0, 2 ** 31 - 2), rng.randint(0, 2 ** 32 - 2)])

def record(rng):
    dim = rng.randint(1, 10); n = rng.choice([0, 1, 1, 2, 3, 10, 30]); out = []
    for _ in range(n):
        b = []
        for _ in range(dim if rng.random() < .95 else rng.randint(1, 3)):
            l = bound(rng); b.append([l, min(2 ** 32 - 1, l + rng.choice([1, 1, 2, 7, 100]))])
        if b not in out: out.append(b)
    return out

# TLC's integers end at 2^31 - 1: as texts
def texts(x): return [texts(y) for y in x] if isinstance(x, list) else str(x)

def run(c):
    d = Driver(c, "filedrv"); cmds = []; rows = []; back = []
    n = c.budget(1200, 12000)
    recs = [record(c.rng) for _ in range(n)]
    cmds += ["recw %d %s" % (len(b), " ".join(block_args(x) for x in b)) for b in recs]
    singles = [b for r in recs for b in r][:n]
    cmds += ["blk " + block_args(b) for b in singles]
    tabs = []
    for t in range(n):
        ks = keys(c.rng, c.rng.choice([0, 1, 2, 5, 12, 40]))
        ls = [(k, number(c.rng)) for k in ks] + [(k, number(c.rng)) for k in ks if c.rng.random() < .2]
        if t % 2: c.rng.shuffle(ls)
        tabs.append(ls); cmds.append("tab " + escape("".join(line(k[0], k[1], v) + "\n" for k, v in ls)))
    out = d.run(cmds)
    try:
        for b, r in zip(recs, out[:n]):
            rows.append({"kind": "rec", "blocks": texts(b), "back": texts(r["back"])}); back.append(b)
        for b, r in zip(singles, out[n:n + len(singles)]):
            rows.append({"kind": "rec", "blocks": texts([b]), "back": texts([r["back"]])}); back.append([b])
        for ls, cmd, r in zip(tabs, cmds[n + len(singles):], out[n + len(singles):]):
            rows.append({"kind": "tab", "lines": [{"k": [list(k[0]), list(k[1])], "v": limbs(v), "t": ""} for k, v in ls], "out": parse_table(r["text"]), "again": parse_table(r["again"])}); back.append(cmd)
    except Malformed as m: c.violation("a table is not in the documented form: %s" % m, {"command": cmd})
    fields = os.path.join(c.tmp, "nofields"); open(fields, "w").write("")
    ok, bad, r = tlc.records("StoreTrace", rows, extra_env={"FIELDS": fields}, timeout=850 if not c.thorough else 6000)
    c.tlc(r, "recorded round trips")
    if not ok: c.violation("a record or table does not survive writing and reading", {"written": back[bad], "recorded": rows[bad], "command": cmds[bad]})
    c.traces(len(rows))
    for x in back: c.case(str(x))
    c.cov["samples"] = [str(back[0])[:500], str(back[-1])[:500]]
    c.cov["rule"] = "random records (bounds up to 2^32-1, up to 30 packages) and tables (up to 40 keys, repeated and unordered lines, counts up to 60 digits); non-trivial: distinct"

"""Reading and writing the texts of records and tables (format as documented; the specification checks the rendering again)."""
import re
from vp.mathlib import limbs

LINE = re.compile(r"^(\d+(?:,\d+)*)?;(-?\d+(?:,-?\d+)*)?:(\d+)$")

class Malformed(Exception): pass

def parse_table(text):
    out = []
    if text and not text.endswith("\n"): raise Malformed("last line not ended: %r" % text[-100:])
    for l in text.split("\n")[:-1]:
        m = LINE.match(l)
        if not m: raise Malformed("table line %r" % l[:200])
        out.append({"k": [[int(x) for x in (m.group(1) or "").split(",") if x], [int(x) for x in (m.group(2) or "").split(",") if x]], "v": limbs(int(m.group(3))), "t": l})
    return out

def parse_record(text):
    out = []
    for l in text.split("\n")[:-1] if text.endswith("\n") else text.split("\n") if text else []:
        v = l.split()
        if len(v) % 2 or not all(x.isdigit() for x in v): raise Malformed("record line %r" % l[:200])
        out.append([[int(v[i]), int(v[i + 1])] for i in range(0, len(v), 2)])
    return out

def line(ram, hw, count): return "%s;%s:%d" % (",".join(map(str, ram)), ",".join(map(str, hw)), count)
def record_text(blocks): return "".join("".join("%d %d " % tuple(x) for x in b) + "\n" for b in blocks)

def escape(text): return (text.replace("\\", "\\\\").replace("\n", "\\n").replace(" ", "\\s")) or "\\e"

def block_args(b): return "%d %s" % (len(b), " ".join("%d %d" % tuple(x) for x in b))
def value(l):
    n = 0
    for x in reversed(l): n = n * 10000 + x
    return n

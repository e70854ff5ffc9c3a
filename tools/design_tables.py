"""Fills the generated parts of DESIGN.md: findings (from known_findings.txt) and planted bugs (from seeded/*/meta.json and tools/caught.txt)."""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
def block(s, name, text):
    a, b = "<!-- %s -->\n" % name, "<!-- end %s -->" % name
    i, j = s.index(a) + len(a), s.index(b); return s[:i] + text + s[j:]
p = os.path.join(V, "DESIGN.md"); s = open(p).read()
fix = ["* %s (%s): %s" % (m[1], m[2], m[3]) for m in re.finditer(r"^fixed: property=(\S+) (\S+) (.*)$", open(os.path.join(V, "known_findings.txt")).read(), re.M)]
s = block(s, "findings", "\n".join(fix) + "\n")
caught = dict(l.strip().split(" ", 1) for l in open(os.path.join(V, "tools/caught.txt")) if l.strip())
rows = ["| bug | property | what it needs | caught by |", "|---|---|---|---|"]
for d in sorted(os.listdir(os.path.join(V, "seeded"))):
    m = json.load(open(os.path.join(V, "seeded", d, "meta.json")))
    rows.append("| %s | %s | %s | %s |" % (d, m["property"], m["needs"].replace("|", "\\|"), caught.get(d, "not yet run")))
s = block(s, "planted", "\n".join(rows) + "\n")
open(p, "w").write(s)

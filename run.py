#!/usr/bin/env python3
"""run.py <property id>  - decides one property;  run.py setup - checks tools and builds everything once."""
import sys, os, importlib
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
from vp import build, check
def main():
    pid = sys.argv[1]
    if len(sys.argv) > 2: os.environ["VERIF_TIER"] = sys.argv[2]
    if pid == "setup":
        for t in build.RECIPES:
            try: build.build(t)
            except build.BuildError as e: print("not built:", t, str(e)[:200])
        print("setup done"); return 0
    m = importlib.import_module("checks." + pid.lower())
    return check.main(pid, m.LEVEL, m.run)
sys.exit(main())

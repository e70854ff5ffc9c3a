"""Runs TLC on a module of /verif/spec in a scratch directory."""
import os, re, subprocess, tempfile, shutil, json, threading
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(VERIF, "spec")
CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"

class TLCError(Exception):
    pass

class Result:
    pass

def run(module, cfg, env=None, workers=8, timeout=800, deadlock=False, heap="6g", extra=(), jvm=(), keep=None, copies=()):
    """cfg: text of the configuration. Returns Result(ok, kind, states, distinct, out, trace)."""
    d = tempfile.mkdtemp(prefix="tlc-", dir=os.environ.get("VERIF_TMP", "/tmp"))
    try:
        for f in os.listdir(SPEC):
            if f.endswith(".tla"): shutil.copy(os.path.join(SPEC, f), d)
        for f in copies: shutil.copy(f, d)
        with open(os.path.join(d, "run.cfg"), "w") as f: f.write(cfg)
        e = dict(os.environ)
        e.pop("JAVA_TOOL_OPTIONS", None)
        if env: e.update(env)
        cmd = ["java", "-XX:+UseParallelGC", "-Xmx" + heap, "-Xss256m", "-Djava.io.tmpdir=" + d] + list(jvm) + \
              ["-cp", CP, "tlc2.TLC", "-workers", str(workers), "-config", "run.cfg", "-noGenerateSpecTE",
               "-metadir", os.path.join(d, "states")] + ([] if deadlock else ["-deadlock"]) + list(extra) + [module + ".tla"]
        try:
            p = subprocess.run(cmd, cwd=d, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
        except subprocess.TimeoutExpired as x:
            raise TLCError("TLC timed out on %s\n%s" % (module, (x.stdout or b"")[-3000:]))
        p.stdout = "".join(l for l in p.stdout.splitlines(True) if not l.startswith(("Parsing file", "Semantic processing")))
        r = Result()
        r.out = p.stdout; r.rc = p.returncode
        m = re.findall(r"([\d,]+) states generated(?: \([^)]*\))?, ([\d,]+) distinct states found", p.stdout)
        if not m: m = re.findall(r"The number of states generated: ([\d,]+)", p.stdout); m = [(x, "0") for x in m]
        r.states = int(m[-1][0].replace(",", "")) if m else 0
        r.distinct = int(m[-1][1].replace(",", "")) if m else 0
        r.ok = p.returncode == 0 and ("Model checking completed. No error has been found" in p.stdout or "-simulate" in extra)
        r.kind = None
        if not r.ok:
            if re.search(r"Error: Invariant (\S+) is violated", p.stdout): r.kind = "invariant"
            elif re.search(r"Error: Action property (\S+)", p.stdout): r.kind = "action"
            elif "Temporal propert" in p.stdout and "violated" in p.stdout: r.kind = "liveness"
            elif "Deadlock reached" in p.stdout: r.kind = "deadlock"
            elif "Error: Assumption" in p.stdout or "is false" in p.stdout and "ssumption" in p.stdout: r.kind = "assumption"
            elif "POSTCONDITION" in p.stdout.upper() and "false" in p.stdout: r.kind = "postcondition"
            else:
                x = TLCError("TLC failed on %s (rc %d)\n%s" % (module, p.returncode, p.stdout[-6000:]))
                x.result = r
                # a value the specification cannot make sense of (a sequence index out of its domain, a number beyond 32 bit)
                x.evaluation = not re.search(r"java\.lang\.(OutOfMemory|StackOverflow|NoSuch)|of module PrimPolys|parsing|Semantic error|not enough memory", p.stdout) and \
                    bool(re.search(r"Evaluating invariant \S+ failed|error occurred when TLC was evaluating|Attempted to|Overflow when computing", p.stdout))
                raise x
            mm = re.search(r"Error: (?:Invariant|Action property) (\S+) is violated", p.stdout)
            r.name = mm.group(1) if mm else r.kind
        if keep:
            for f in keep:
                s = os.path.join(d, f)
                if os.path.exists(s): setattr(r, "f_" + re.sub(r"\W", "_", f), open(s).read())
        return r
    finally:
        shutil.rmtree(d, ignore_errors=True)

def last_state(out, var):
    """value text of var in the last printed state"""
    ms = re.findall(r"^(?:/\\ )?%s = (.*)$" % re.escape(var), out, re.M)
    return ms[-1].strip() if ms else None

def records(module, rows, consts="", spec="RowSpec", invariant="RecordOK", workers=8, timeout=800, heap="6g", extra_env=None, chunk=None):
    """Evaluates the invariant of a record-checking module (one state per row of a JSON-lines file).
    Returns (ok, index of a failing row or None, Result)."""
    fd, path = tempfile.mkstemp(prefix="rows-", suffix=".ndjson")
    with os.fdopen(fd, "w") as f:
        for r in rows: f.write(json.dumps(r) + "\n")
    try:
        env = {"ROWS": path}
        if extra_env: env.update(extra_env)
        cfg = "SPECIFICATION " + spec + "\nINVARIANT %s\nPOSTCONDITION AllRowsSeen\n%s" % (invariant, consts)
        try: r = run(module, cfg, env=env, workers=workers, timeout=timeout, heap=heap)
        except TLCError as x:
            if not getattr(x, "evaluation", False): raise
            i = last_state(x.result.out, "row")       # the specification has no value for what was recorded
            x.result.out += "\nthe specification cannot evaluate the recorded values\n"
            return False, int(i) - 1 if i else 0, x.result
        if r.ok: return True, None, r
        if r.kind != "invariant": raise TLCError("unexpected end of %s: %s\n%s" % (module, r.kind, r.out[-4000:]))
        i = last_state(r.out, "row")
        return False, int(i) - 1, r
    finally:
        os.unlink(path)

"""Builds the repository's sources (from /repo/src, every run) and the harness drivers against them."""
import os, subprocess, hashlib, glob, shutil, sys, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SRC = os.path.join(REPO, "src")
BUILD = os.path.join(VERIF, "build")
HARNESS = os.path.join(VERIF, "harness")

INC = ["string", "flint/ulong_extras.h", "flint/fmpz.h", "flint/nmod_poly.h", "flint/nmod_poly_factor.h",
       "flint/fq_nmod_poly.h", "flint/fq_nmod_poly_factor.h", "boost/serialization/vector.hpp"]
LIBS = "-lboost_program_options -lboost_filesystem -lboost_system -lyaml-cpp -lflint -lgmp -pthread".split()
MPI_LIBS = "-lboost_mpi -lboost_serialization -L/usr/lib/x86_64-linux-gnu/openmpi/lib -lmpi_cxx -lmpi".split()
MPI_INC = ["-I/usr/lib/x86_64-linux-gnu/openmpi/include", "-I/usr/lib/x86_64-linux-gnu/openmpi/include/openmpi"]

class BuildError(Exception):
    pass

def tree_hash(paths):
    h = hashlib.sha256()
    for p in sorted(paths):
        h.update(p.encode()); h.update(open(p, "rb").read())
    return h.hexdigest()[:16]

def have_stub(): return os.path.exists(os.path.join(HARNESS, "mpistub", "boost", "mpi.hpp"))

def sources():
    """library sources (relative to src), without executables and OpenCL"""
    out = []
    for d, _, fs in os.walk(SRC):
        for f in fs:
            if f.endswith(".cc"):
                r = os.path.relpath(os.path.join(d, f), SRC)
                if not r.startswith(("executables" + os.sep, "opencl" + os.sep)):
                    out.append(r)
    return sorted(out)

def _run(cmd):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        raise BuildError(" ".join(cmd) + "\n" + r.stdout[-4000:])

def _compile_all(jobs):
    with ThreadPoolExecutor(max_workers=max(2, os.cpu_count() or 2)) as ex:
        list(ex.map(_run, jobs))

def _base():
    fl = []
    for i in INC: fl += ["-include", i]
    return fl

# concurrency-relevant code is compiled with a yield point at every function entry
INSTRUMENT = ("threaded", "worker_pool", "store", "executables")

_done = {}

def _all_inputs():
    ps = []
    for d, _, fs in os.walk(SRC):
        ps += [os.path.join(d, f) for f in fs if f.endswith((".cc", ".hh", ".h", ".cpp", ".hpp"))]
    for d, _, fs in os.walk(HARNESS):
        ps += [os.path.join(d, f) for f in fs]
    ps.append(os.path.abspath(__file__))
    return ps

def build(*targets):
    """targets: names from RECIPES. Returns dict name -> path. Content-addressed under build/."""
    key = tree_hash(_all_inputs())
    root = os.path.join(BUILD, key)
    os.makedirs(root, exist_ok=True)
    os.utime(root)
    # drop stale trees
    for d in glob.glob(os.path.join(BUILD, "*")):
        if os.path.isdir(d) and d != root and os.path.getmtime(d) < time.time() - 3600:
            shutil.rmtree(d, ignore_errors=True)
    todo = []
    objs_needed = {}
    for t in targets:
        r = RECIPES[t]
        out = os.path.join(root, t)
        if os.path.exists(out): continue
        todo.append(t)
        for variant, srcs in r["objs"]().items():
            for s in srcs:
                objs_needed[(variant, s)] = None
    jobs = []
    for (variant, s) in objs_needed:
        o = _obj(root, variant, s)
        if os.path.exists(o): continue
        os.makedirs(os.path.dirname(o), exist_ok=True)
        path = s if os.path.isabs(s) else os.path.join(SRC, s)
        fl = list(VARIANTS[variant]["flags"])
        if not os.path.isabs(s) and s.split(os.sep)[0] in INSTRUMENT:
            fl += VARIANTS[variant].get("inst", [])
        lang = [] if path.endswith((".cc", ".cpp")) else []
        comp = ["gcc"] if path.endswith(".c") else ["g++"]
        inc = [] if path.endswith(".c") or VARIANTS[variant].get("bare") else _base() + ["-I" + SRC]
        jobs.append(comp + lang + fl + inc + ["-w", "-c", path, "-o", o + ".tmp%d.o" % os.getpid()])
    if jobs:
        _compile_all(jobs)
        for j in jobs:
            os.rename(j[-1], j[-1].rsplit(".tmp", 1)[0])
    links = []
    for t in todo:
        r = RECIPES[t]
        os_ = [_obj(root, v, s) for v, ss in r["objs"]().items() for s in ss]
        out = os.path.join(root, t)
        links.append(["g++"] + r.get("ldflags", []) + os_ + ["-o", out + ".tmp%d" % os.getpid()] + r.get("libs", LIBS))
    if links:
        _compile_all(links)
        for l in links:
            o = l[l.index("-o") + 1]
            os.rename(o, o.rsplit(".tmp", 1)[0])
    return {t: os.path.join(root, t) for t in targets}

def _obj(root, variant, s):
    n = os.path.relpath(s, HARNESS) if os.path.isabs(s) else s
    return os.path.join(root, "obj-" + variant, n.replace("/", "__") + ".o")

STUB = os.path.join(HARNESS, "mpistub")
VARIANTS = {
    "plain": {"flags": ["-O2", "-g"]},
    # -O1 keeps function boundaries; every function entry becomes a scheduling point under vsched
    "inst": {"flags": ["-O1", "-g"], "inst": ["-finstrument-functions",
             "-finstrument-functions-exclude-file-list=/usr/include/boost,/usr/include/yaml-cpp,/usr/include/flint"]},
    "mpi": {"flags": ["-O2", "-g"] + MPI_INC},
    "rank": {"flags": ["-O1", "-g", "-fPIC", "-fno-gnu-unique", "-I" + STUB, "-Dmain=hycu_rank_main"],
             "inst": ["-finstrument-functions",
             "-finstrument-functions-exclude-file-list=/usr/include/boost,/usr/include/yaml-cpp,/usr/include/flint"]},
    "so": {"flags": ["-O2", "-g", "-fPIC"], "bare": True},
    "host": {"flags": ["-O1", "-g"], "bare": True},
}

def H(f): return os.path.join(HARNESS, f)
def lib(nompi=True):
    return [s for s in sources() if not (nompi and os.path.basename(s).startswith("mpi"))]
def exe(n): return os.path.join("executables", n + ".cc")

RECIPES = {
    "mathdrv": {"objs": lambda: {"plain": lib() + [H("mathdrv.cc")]}},
    "filedrv": {"objs": lambda: {"plain": lib() + [H("filedrv.cc")]}},
    "confdrv": {"objs": lambda: {"plain": lib() + [H("confdrv.cc")]}, "libs": LIBS + ["-lboost_serialization"]},
    "pooldrv": {"objs": lambda: {"inst": lib() + [H("pooldrv.cc")]}},
    "hycu-single": {"objs": lambda: {"plain": lib() + [exe("single")]}},
    "hycu-merger": {"objs": lambda: {"plain": lib() + [exe("merger")]}},
    "hycu-threaded": {"objs": lambda: {"plain": lib() + [exe("threaded")]}},
    "hycu-threaded-inst": {"objs": lambda: {"inst": lib() + [exe("threaded")]}},
    "hycu-mpi": {"objs": lambda: {"mpi": lib(False) + [exe("mpi")]}, "libs": MPI_LIBS + LIBS},
    "rank.so": {"objs": lambda: {"rank": [s for s in sources() if s != "worker_pool/standalone.cc"] + [exe("mpi")]},
                "ldflags": ["-shared", "-Wl,-Bsymbolic"], "libs": ["-lboost_serialization"] + LIBS},
    "mpihost": {"objs": lambda: {"host": [H("mpihost.cc")]}, "ldflags": ["-rdynamic"], "libs": ["-ldl", "-pthread"]},
    "vsched.so": {"objs": lambda: {"so": [H("vsched.cc")]}, "ldflags": ["-shared"], "libs": ["-ldl", "-pthread"]},
}

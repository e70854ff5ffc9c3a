#!/usr/bin/env python3
"""Writes MANIFEST.json from the table below (only checks whose module exists are claimed)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = {
 "C01": ("model_checking", "TLA+ spec of the block enumeration (TLC) + replay of TLC-generated configurations and trace validation of the real iterator",
   "Exhaustive over the small configurations TLC enumerates, sampled beyond; trusts TLC and the JSON driver."),
 "C02": ("model_checking", "TLA+ spec of the affine/unit orbits (TLC) + validation of the real enumeration's multiplicities against it",
   "Orbit by orbit for small fields; total weights and canonical orbit data for larger ones; arithmetic of the spec is self-checked by MathSelf."),
 "C03": ("model_checking", "TLA+ definition of point counts over explicit field extensions (TLC) + validation of recorded counts",
   "Definition-level counting in TLA+ for fields up to the listed size; sampled square-free polynomials."),
 "C04": ("model_checking", "TLA+ definition of the printed answer (TLC) + validation of recorded runs of hycu-single in every mode",
   "Definition-level oracle for small p; agreement of all methods and Hasse-Weil bounds for larger p."),
 "C05": ("model_checking", "TLA+ definition of the factorisation pattern (TLC) + validation of recorded answers",
   "Definition-level factorisation in TLA+; sampled polynomials over several fields, every order of queries."),
 "C06": ("model_checking", "TLA+ definition of square-freeness (TLC) + validation of recorded answers",
   "All polynomials of small fields, sampled polynomials with planted repeated factors otherwise."),
 "C07": ("model_checking", "TLA+ state machine of the tally (TLC) + validation of recorded histories of the real stores",
   "Random histories validated step by step against the specification."),
 "C08": ("model_checking", "TLA+ census over all square-free polynomials (TLC) compared with complete program runs",
   "Exhaustive census by TLC for the listed fields and genera; runs of the real executables for varying options."),
 "C09": ("model_checking", "TLA+ pool model with mutexes refining an abstract pool (TLC) + trace validation of the real pool under a controlled scheduler",
   "Exhaustive for the bounds of the model; sampled schedules of the real code."),
 "C10": ("model_checking", "TLA+ liveness of the pool model (TLC) + deadlock/progress detection of the real pool under a controlled scheduler",
   "Exhaustive for the bounds of the model; sampled schedules of the real code under a fair scheduler."),
 "C11": ("model_checking", "TLA+ abstract pool (TLC), behaviours generated by TLC replayed in the real pool, recorded runs validated against it",
   "Exhaustive model; generated and recorded behaviours of the real pool."),
 "C12": ("fault_enumeration", "TLA+ model of saving with faults (TLC) + every file operation of the real program failed or crashed in turn, resulting directories validated by TLC",
   "Every file operation of the listed runs with every fault kind; process crashes, not power loss."),
 "C13": ("model_checking", "TLA+ model of partial runs, saves and restarts (TLC) + generated histories replayed with the real program, directories validated by TLC",
   "Histories generated by TLC from the model, replayed with real executables."),
 "C14": ("model_checking", "TLA+ definition of merging (TLC) + validation of recorded merger runs",
   "Random directories, counts of any magnitude, regrouping, failing outputs."),
 "C15": ("model_checking", "TLA+ record/table round trip (TLC) + validation of recorded writes and reads",
   "Random records and tables, exact text forms."),
 "C16": ("model_checking", "TLA+ pool model with several moduli (TLC) + validation of result directories of scheduled real runs",
   "Exhaustive for the bounds of the model; sampled schedules of the real program with several moduli."),
 "C17": ("model_checking", "TLA+ model of the distributed pool (TLC) + validation of real processes under mpirun and of ranks under a controlled scheduler",
   "Exhaustive for the bounds of the model; sampled message timings for the real code."),
 "C18": ("model_checking", "TLA+ state machine of configurations (TLC) + validation of recorded readings and runs",
   "Configurations generated from the specification and random mutations; exit status of the real program."),
 "C19": ("model_checking", "TLA+ definition of discrete logarithm tables (TLC) + validation of recorded tables",
   "Complete tables for many prime powers."),
}
NA_REASON = "Not claimed yet: the specification is written, the conformance check is still being built."
checks, na = [], []
for pid, (level, tech, note) in T.items():
    if os.path.exists(os.path.join(V, "checks", pid.lower() + ".py")):
        checks.append({"property": pid, "quick_cmd": "python3 run.py %s quick" % pid, "thorough_cmd": "python3 run.py %s thorough" % pid,
                       "evidence_file": "evidence/%s.json" % pid, "technique": tech, "level": level, "level_note": note})
    else: na.append({"property": pid, "reason": NA_REASON})
m = {"version": 1, "setup_cmd": "python3 run.py setup", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo: schedules and faults are controlled from outside (LD_PRELOAD). Language: TLA+ checked with TLC."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not claimed")

"""Writes MANIFEST.json from the registry and the texts below."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vsim.registry import TABLE

PURE = "a pure function of the input (molecule, basis, options): no schedule, clock, fault, I/O or multi-party behaviour enters, so there is nothing for a simulator to decide; see DESIGN.md"
NA = {
    "N01": PURE, "N02": PURE, "N03": PURE, "N04": PURE, "N05": PURE, "N06": PURE,
}
NOTE = {
    "C01": "seeded search over programs x world sizes x schedules x buffering; sampled, not exhaustive; real package code on every simulated process",
    "C02": "seeded search over density-matrix/amplitude programs x world sizes x targets x schedules; sampled",
    "C03": "seeded search for dead-locks, collective mismatches and unreceived messages; termination is bounded by a step budget; sampled",
    "C04": "seeded search over operation histories of the remote-memory dictionary against a reference model; sampled",
    "C05": "seeded search over histories of helper calls against a serial observer; sampled",
    "C06": "seeded search over mean fields, per-process representations and schedules; sampled",
    "C07": "seeded search over sequences of solver failures x world sizes x schedules; the failing solver is injected at PySCF's interface; sampled",
    "C08": "seeded search over exceptions at calls from package code, and repeats on the same objects; sampled",
    "C09": "seeded search over histories of public calls, options and updates against a newly created object; sampled",
    "C10": "seeded search over solver failures during chemical-potential searches; success is verified from outside; sampled",
    "C11": "seeded search over repeated, limited and failing self-consistency loops; convergence is recomputed from the recorded iterations; sampled",
    "C12": "seeded search over dumps on a simulated disk with errors, torn writes and process death; entries compared with PySCF integrals; sampled",
    "C13": "seeded search over log levels, clocks, and failures of log files and streams; compared with an undisturbed run; sampled",
    "C14": "seeded search over memory readings, limits and block partitions; compared with the run in one block; sampled",
    "C15": "seeded search over random states, heap layouts, other objects and hash seeds (other processes); sampled",
    "C16": "seeded search over file writes with faults at every operation of a simulated disk; files are recomputed independently; sampled",
}
TECH = "deterministic simulation with fault injection (seeded search over schedules and faults)"
props = [json.loads(l) for l in open("/verif/properties.jsonl")]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in TABLE:
        checks.append(dict(property=i, quick_cmd="python3 check.py %s --tier quick" % i, thorough_cmd="python3 check.py %s --tier thorough" % i,
                           technique=TECH, level="exploration", level_note=NOTE.get(i, "seeded search over histories, schedules and faults; sampled, not exhaustive")))
    else:
        na.append(dict(property=i, reason=NA.get(i, "no check built yet")))
m = dict(version=1, setup_cmd="python3 setup_check.py",
         hooks=dict(guard="none", enable="no hooks: the seams (mpi4py, clock, log handlers, file and PySCF calls) are replaced from outside", source_commits=[]),
         checks=checks, not_applicable=na)
json.dump(m, open("/verif/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks", len(na), "not applicable")

"""Writes known_findings.json: 'known' entries (not repaired) and 'fixed' entries (repaired by a fix: commit in /repo)."""
import json, subprocess
FIXED = [  # property, subject prefix of the fix commit, what failed
]
KNOWN = [
    dict(
        id="tccsd-active-space-of-first-run",
        status="known",
        properties=["C09"],
        classes=["history"],
        where=dict(solver="TCCSD", cls="EWF", other_mf_before=True),
        what="TCCSD without c_cas options: the DMET orbitals of the first run are stored as options of the fragment "
        "(ewf/fragment.py: get_solver_options), so that a later run after update_mf uses the active space of the earlier mean field",
    ),
]
log = subprocess.check_output(["git", "-C", "/repo", "log", "--format=%h %s", "0d85ca8..HEAD"]).decode().splitlines()
PROP = json.load(open("/verif/fixprops.json"))
out = []
for l in reversed(log):
    h, s = l.split(" ", 1)
    p = PROP.get(s)
    if p is None:
        print("no property for", l)
        continue
    out.append(dict(id="fixed-" + h, status="fixed", properties=[p], line="fixed: property=%s %s %s" % (p, h, s[len("fix: "):])))
json.dump(dict(findings=KNOWN + out), open("/verif/known_findings.json", "w"), indent=1)

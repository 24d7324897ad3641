"""Authoring aid: (re)generates /verif/seeded/<id>/ against /repo's HEAD from the definitions in seeds_def.py.
usage: seeds.py [ID ...]"""
import json, os, shutil, subprocess, sys, tempfile
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from seeds_def import SEEDS

HEAD = '''import os, sys
sys.argv = ["demo", "--quiet"]
import numpy as np
'''
SERIAL_SH = '''#!/bin/bash
D=$(cd "$(dirname "$0")" && pwd)
R=$PWD
W=$(mktemp -d)
trap 'rm -rf "$W"' EXIT
cd "$W" || exit 2
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 PYTHONDONTWRITEBYTECODE=1 PYTHONPATH=$R
PY=/opt/venv/bin/python; [ -x $PY ] || PY=python3
timeout 250 $PY -W ignore "$D/demo.py"
'''
MPI_SH = '''#!/bin/bash
D=$(cd "$(dirname "$0")" && pwd)
PY=/opt/venv/bin/python; [ -x $PY ] || PY=python3
%stimeout 250 $PY "$D/runmpi.py" %d "$D/demo.py"
'''
tmp = tempfile.mkdtemp(prefix="mkseed")
try:
    subprocess.check_call("git -C /repo archive HEAD vayesta | tar x -C %s && cd %s && git init -q && git add -A && git -c user.name=a -c user.email=a@a commit -qm a" % (tmp, tmp), shell=True)
    for sid, s in SEEDS.items():
        if sys.argv[1:] and sid not in sys.argv[1:]:
            continue
        d = "/verif/seeded/" + sid
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        for f, old, new in s["edits"]:
            p = os.path.join(tmp, f)
            t = open(p).read()
            assert t.count(old) == 1, (sid, f, old, t.count(old))
            open(p, "w").write(t.replace(old, new))
        diff = subprocess.check_output(["git", "-C", tmp, "diff"])
        subprocess.check_call(["git", "-C", tmp, "checkout", "-q", "--", "."])
        assert diff
        open(d + "/patch.diff", "wb").write(diff)
        open(d + "/demo.py", "w").write(HEAD + s["demo"])
        n = s.get("mpi", 1)
        with open(d + "/demo.sh", "w") as f:
            f.write(MPI_SH % ("DEMO_SYNC=1 " if s.get("sync") else "", n) if n > 1 else SERIAL_SH)
        os.chmod(d + "/demo.sh", 0o755)
        if n > 1:
            shutil.copy("/verif/tools/demo_mpi/runmpi.py", d)
            shutil.copytree("/verif/tools/demo_mpi/mpi4py", d + "/mpi4py", ignore=shutil.ignore_patterns("__pycache__"))
        json.dump(dict(property=s["property"], needs=s["needs"], what_it_breaks=s["breaks"]), open(d + "/meta.json", "w"), indent=1)
        print("wrote", sid)
finally:
    shutil.rmtree(tmp)

"""Nothing to install: verifies that the interpreter and the repository are usable (build happens in each check)."""
import os, subprocess, sys
py = "/opt/venv/bin/python" if os.path.exists("/opt/venv/bin/python") else sys.executable
here = os.path.dirname(os.path.abspath(__file__))
os.makedirs(os.path.join(here, "evidence"), exist_ok=True)
r = subprocess.run([py, "-c", "import sys; sys.path.insert(0, %r); from vsim import engine; engine.build_lib(); import numpy, scipy, h5py, pyscf" % here])
sys.exit(r.returncode)

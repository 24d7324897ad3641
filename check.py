#!/opt/venv/bin/python
"""check.py PROPERTY [--tier quick|thorough] [--replay FILE] ...: decides one property by deterministic simulation."""
import os
import sys

ENV = dict(
    OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", MKL_NUM_THREADS="1", PYTHONHASHSEED=os.environ.get("VSIM_HASHSEED", "0"),
    PYSCF_CONFIG_FILE="/nonexistent", HDF5_USE_FILE_LOCKING="FALSE",
)
PY = "/opt/venv/bin/python"
if os.environ.get("VSIM_CHILD") != "1":
    env = dict(os.environ, VSIM_CHILD="1", **ENV)
    py = PY if os.path.exists(PY) else sys.executable
    os.execve(py, [py, "-W", "ignore"] + [os.path.abspath(__file__)] + sys.argv[1:], env)

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))


def main():
    from vsim import registry

    pid = sys.argv[1]
    chk = registry.get(pid)
    from vsim import engine

    return engine.main(chk, sys.argv[2:])


if __name__ == "__main__":
    sys.exit(main())

"""One import universe of the package under test per simulated rank.

`vayesta.mpi.mpi` is a module global and many decorators specialise on it at import time, so every rank needs
its own copy of every vayesta module, as every rank of a real MPI job has.  A universe owns the sys.modules
entries of `vayesta*` and `mpi4py*`, the logging tree and NumPy's global random state, and installs them while
its rank is the running one.
"""

import importlib
import logging
import os
import sys
import warnings

import numpy as np

from . import world as W

REPO = os.environ.get("VSIM_REPO", "/repo")  # other values are for development only

PREFIXES = ("vayesta", "mpi4py")

MODULES = ["vayesta", "vayesta.ewf", "vayesta.mpi", "vayesta.core.scmf", "vayesta.solver", "vayesta.rpa"]


def _owned(name):
    for p in PREFIXES:
        if name == p or name.startswith(p + "."):
            return True
    return False


class _Block:
    """Meta path finder which makes mpi4py not importable (serial universe)."""

    @staticmethod
    def find_spec(name, path=None, target=None):
        if name == "mpi4py" or name.startswith("mpi4py."):
            raise ModuleNotFoundError("No module named 'mpi4py'", name="mpi4py")
        return None


sys.meta_path.insert(0, _Block)


def sim_clock():
    w = W.ACTIVE
    if w is not None:
        return w.clock()
    return SERIAL_CLOCK()


class _SerialClock:
    def __init__(self):
        self.now = 0.0
        self.step = 1e-6
        self.hook = None

    def __call__(self):
        self.now += self.step
        if self.hook is not None:
            self.hook(self)
        return self.now


SERIAL_CLOCK = _SerialClock()


class Universe:
    def __init__(self, size, rank, modules=None, argv=(), outdir=None):
        self.size, self.rank = size, rank
        self.modules = {}
        self.logging = None
        self.rng = np.random.RandomState(1000 + rank).get_state()
        self.outdir = outdir
        self._saved = None
        self._depth = 0
        self._import(modules or MODULES, argv)

    # ---- installing / removing
    def enter(self):
        saved_mods = {k: sys.modules.pop(k) for k in list(sys.modules) if _owned(k)}
        self._saved = (saved_mods, logging.root, logging.Logger.manager, np.random.get_state())
        sys.modules.update(self.modules)
        if self.logging is not None:
            logging.root, logging.Logger.manager = self.logging
            logging.Logger.root = logging.root
        np.random.set_state(self.rng)

    def leave(self):
        self.modules = {k: sys.modules.pop(k) for k in list(sys.modules) if _owned(k)}
        self.rng = np.random.get_state()
        saved_mods, root, manager, rng = self._saved
        sys.modules.update(saved_mods)
        logging.root, logging.Logger.manager = root, manager
        logging.Logger.root = root
        np.random.set_state(rng)

    leave_final = leave

    def __enter__(self):
        self.enter()
        return self

    def __exit__(self, *exc):
        self.leave()

    # ---- import
    def _import(self, modules, argv):
        self.import_as(modules, ["sim", "-q", "-o", self.outdir or "."] + list(argv))

    def import_as(self, modules, argv):
        root = logging.RootLogger(logging.WARNING)
        manager = logging.Manager(root)
        self.logging = (root, manager)
        if self.size > 1:
            pkg, mod = W.make_mpi4py(self.rank, self.size)
            self.modules = {"mpi4py": pkg, "mpi4py.MPI": mod}
        old_argv = sys.argv
        if REPO not in sys.path:
            sys.path.insert(0, REPO)
        self.enter()
        try:
            sys.argv = list(argv)
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                for m in modules:
                    importlib.import_module(m)
            v = sys.modules["vayesta"]
            assert os.path.realpath(v.__file__).startswith(os.path.realpath(REPO)), v.__file__
            assert v.mpi.size == self.size and v.mpi.rank == self.rank, (v.mpi.size, v.mpi.rank, self.size, self.rank)
        finally:
            sys.argv = old_argv
            self.leave()

    def vayesta_logger(self):
        return self.logging[1].getLogger("vayesta")

    def redirect_logs(self, outdir, level=None):
        """Point the file handlers of this universe into `outdir` (before a run)."""
        lg = self.vayesta_logger()
        for h in list(lg.handlers):
            if isinstance(h, logging.FileHandler):
                h.close()
                h.stream = None
                h.baseFilename = os.path.join(outdir, os.path.basename(h.baseFilename))
        if level is not None:
            lg.setLevel(level)
            for l in self.logging[1].loggerDict.values():
                if isinstance(l, logging.Logger):
                    l._cache.clear()
        lg._cache.clear()


def prepare(sizes, modules=None, outdir=None, argv=()):
    """Import universes for every world size in `sizes`. Returns {size: [Universe]}."""
    import timeit

    timeit.default_timer = sim_clock
    out = {}
    for n in sizes:
        out[n] = [Universe(n, r, modules, argv, outdir) for r in range(n)]
    return out

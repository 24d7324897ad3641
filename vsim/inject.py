"""Fault seams around the numerical libraries: the iterative solvers which the package calls.

The wrappers sit on the PySCF / ebcc side of the call, so they see every call whatever the package's own code looks
like.  A wrapped solver runs normally unless the plan of the run names this call."""

import os
import sys

import numpy as np

from . import world as W

EXC = {
    "LinAlgError": lambda: np.linalg.LinAlgError("simulated: singular matrix"),
    "MemoryError": lambda: MemoryError("simulated: out of memory"),
    "KeyboardInterrupt": lambda: KeyboardInterrupt("simulated: interrupt"),
    "OSError": lambda: OSError(28, "simulated: No space left on device"),
    "RuntimeError": lambda: RuntimeError("simulated: solver failure"),
    "FloatingPointError": lambda: FloatingPointError("simulated: floating point failure"),
}


def rank():
    return W.ACTIVE.cur if W.ACTIVE is not None else 0


class SolverFaults:
    """plan: list of dict(rank, n, mode, kinds?, last?): the n-th .. last-th solver call (counted per rank since the last
    begin()) on `rank` does not converge (mode 'cycle', 'flag') or raises (mode 'raise:<exception>')."""

    def __init__(self):
        self.plan = []
        self.count = {}
        self.depth = {}
        self.fired = []
        self.total = {}
        self.calls = []  # (rank, kind, converged)
        self._installed = []

    def begin(self, plan):
        """Start of an operation (on the calling rank)."""
        r = rank()
        self.plan = [p for p in self.plan if p["rank"] != r] + [p for p in plan if p["rank"] == r]
        self.count[r] = 0
        self.fired = [f for f in self.fired if f[0] != r]

    def fired_on(self, r):
        return [f for f in self.fired if f[0] == r]

    def _lookup(self, r, n, kind):
        for p in self.plan:
            if p["rank"] == r and p["n"] <= n <= p.get("last", p["n"]):
                return p["mode"]
        return None

    def wrap(self, cls, name, kind, flag):
        orig = cls.__dict__[name]
        self._installed.append((cls, name, orig))
        me = self

        def solver(self, *args, **kwargs):
            r = rank()
            if me.depth.get(r):
                return orig(self, *args, **kwargs)
            me.depth[r] = 1
            try:
                n = me.count.get(r, 0)
                me.count[r] = n + 1
                mode = me._lookup(r, n, kind)
                if mode is None:
                    res = orig(self, *args, **kwargs)
                    me.calls.append((r, kind, bool(np.all(getattr(self, flag, True)))))
                    return res
                me.fired.append((r, kind, n, mode))
                me.total[kind + ":" + mode] = me.total.get(kind + ":" + mode, 0) + 1
                if mode.startswith("raise:"):
                    raise EXC[mode[6:]]()
                if mode == "cycle":
                    keep = getattr(self, "max_cycle", None)
                    try:
                        self.max_cycle = 1
                        res = orig(self, *args, **kwargs)
                    finally:
                        self.max_cycle = keep
                else:
                    res = orig(self, *args, **kwargs)
                setattr(self, flag, False)
                me.calls.append((r, kind, False))
                return res
            finally:
                me.depth[r] = 0

        solver.__name__ = getattr(orig, "__name__", name)
        solver.__doc__ = getattr(orig, "__doc__", None)
        setattr(cls, name, solver)

    def install(self, kinds=("cc", "lambda", "fci", "ci")):
        import pyscf.cc
        import pyscf.cc.ccsd
        import pyscf.cc.dfccsd
        import pyscf.cc.uccsd
        import pyscf.ci
        import pyscf.ci.cisd
        import pyscf.ci.ucisd
        import pyscf.fci
        import pyscf.fci.direct_spin0
        import pyscf.fci.direct_spin1
        import pyscf.fci.direct_uhf

        seen = set()

        def tree(cls):
            out = [cls]
            for s in cls.__subclasses__():
                if s.__module__.startswith("pyscf."):
                    out += tree(s)
            return out

        cc = tree(pyscf.cc.ccsd.CCSDBase)
        ci = tree(pyscf.ci.cisd.CISD)
        fc = tree(pyscf.fci.direct_spin1.FCIBase)
        for classes, name, kind, flag in (
            (cc, "kernel", "cc", "converged"),
            (cc, "solve_lambda", "lambda", "converged_lambda"),
            (ci, "kernel", "ci", "converged"),
            (fc, "kernel", "fci", "converged"),
        ):
            if kind not in kinds:
                continue
            for c in classes:
                if name in c.__dict__ and (c, name) not in seen and callable(c.__dict__[name]):
                    seen.add((c, name))
                    self.wrap(c, name, kind, flag)
        if "ebcc" in kinds:
            try:
                import ebcc.cc.base as eb
            except Exception:
                return self
            for c in tree_any(eb.BaseEBCC):
                for name, kind, flag in (("kernel", "ebcc", "converged"), ("solve_lambda", "ebcc-lambda", "converged_lambda")):
                    if name in c.__dict__ and (c, name) not in seen:
                        seen.add((c, name))
                        self.wrap(c, name, kind, flag)
        return self

    def remove(self):
        for cls, name, orig in reversed(self._installed):
            setattr(cls, name, orig)
        self._installed = []


def tree_any(cls):
    out = [cls]
    for s in cls.__subclasses__():
        out += tree_any(s)
    return out


# ------------------------------------------------------------------------------------------------ faults at calls


LIBS = ("pyscf", "numpy", "scipy", "h5py", "cvxpy", "ebcc")
SKIP_FILES = ("core/vlog.py", "core/cmdargs.py")
SKIP_NAMES = {"__del__", "__exit__", "__enter__", "__repr__", "__str__", "__hash__", "__eq__", "__format__", "<genexpr>", "<lambda>", "<module>"}


class CallFault:
    """Sees every call which code of the package makes (into libraries, into array methods, or into itself), and raises at one
    of them."""

    def __init__(self, root=os.environ.get("VSIM_REPO", "/repo") + "/vayesta/"):
        self.root = root
        self.files = {}
        self.counts = {}
        self.target = None
        self.exc = None
        self.fired = None
        self.on = False
        self.stack = None

    def _rel(self, filename):
        r = self.files.get(filename)
        if r is None:
            if filename.startswith(self.root):
                rel = filename[len(self.root) :]
                r = "" if rel in SKIP_FILES else rel
            else:
                r = ""
                i = filename.find("site-packages/")
                if i >= 0:
                    top = filename[i + 14 :].split("/")[0]
                    if top in LIBS:
                        r = "lib:" + top
            self.files[filename] = r
        return r

    def _profile(self, frame, event, arg):
        if not self.on:
            return
        if event == "call":
            caller = frame.f_back
            if caller is None:
                return
            src = self._rel(caller.f_code.co_filename)
            if not src or src[0:4] == "lib:":
                return
            dst = self._rel(frame.f_code.co_filename)
            name = frame.f_code.co_name
            if not dst or name in SKIP_NAMES or caller.f_code.co_name in ("__del__", "__exit__"):
                return
            key = (src, caller.f_code.co_name, dst, name)
        elif event == "c_call":
            src = self._rel(frame.f_code.co_filename)
            if not src or src[0:4] == "lib:" or frame.f_code.co_name in ("__del__", "__exit__"):
                return
            if isinstance(getattr(arg, "__self__", None), np.ndarray) or str(getattr(arg, "__module__", "") or "").split(".")[0] in LIBS:
                key = (src, frame.f_code.co_name, "array", arg.__name__)
            else:
                return
        else:
            return
        n = self.counts.get(key, 0)
        self.counts[key] = n + 1
        if self.target is not None and key == self.target[0] and n == self.target[1]:
            self.on = False
            self.fired = key
            raise self.exc()

    def run(self, fn, target=None, exc=None):
        self.counts, self.target, self.exc, self.fired = {}, target, exc, None
        self.on = True
        sys.setprofile(self._profile)
        try:
            return fn()
        finally:
            self.on = False
            sys.setprofile(None)

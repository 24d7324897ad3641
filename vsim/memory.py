"""The memory which a run has, behind seams: readings of the used memory, the limits of the mean field and of PySCF, the
limits written into the package, and the blocks in which the density-fitting integrals arrive."""

import contextlib
import sys
import types

import numpy as np

# modules whose functions choose block sizes by a limit in bytes
LIMITS = (1e9, 10**9, 3e8, 3 * 10**8)
MODULES = (
    "vayesta.solver.mp2",
    "vayesta.core.bath.bno",
    "vayesta.core.eris",
    "vayesta.core.bosonic_bath.projected_interactions",
    "vayesta.core.ao2mo.postscf_ao2mo",
    "vayesta.core.ao2mo.kao2gmo",
    "vayesta.core.util",
    "vayesta.rpa.rirpa.RIRPA",
    "vayesta.rpa.rirpa.RIURPA",
)


def _functions(mod):
    seen = set()
    for x in list(vars(mod).values()):
        if isinstance(x, types.FunctionType) and x.__module__ == mod.__name__:
            yield x
        elif isinstance(x, type) and x.__module__ == mod.__name__ and x not in seen:
            seen.add(x)
            for y in vars(x).values():
                if isinstance(y, (staticmethod, classmethod)):
                    y = y.__func__
                if isinstance(y, property):
                    y = y.fget
                if isinstance(y, types.FunctionType):
                    yield y


def _inner(f):
    while f is not None:
        yield f
        f = getattr(f, "__wrapped__", None)


def is_limit(c):
    return isinstance(c, (int, float)) and not isinstance(c, bool) and c in LIMITS


def with_limit(code, limit):
    """code with the limits in bytes replaced, or None if there are none."""
    hit, consts = False, []
    for c in code.co_consts:
        if is_limit(c):
            c, hit = type(c)(limit), True
        elif isinstance(c, types.CodeType):
            d = with_limit(c, limit)
            if d is not None:
                c, hit = d, True
        consts.append(c)
    return code.replace(co_consts=tuple(consts)) if hit else None


class Memory:
    """plan: dict(limit=bytes or None, used=[MB, ...] readings, blksize=default of block size
    arguments, config=MB or None, blocks=seed or None, blkmin)"""

    def __init__(self):
        self.stats = {}
        self.undo = []

    def count(self, k):
        self.stats[k] = self.stats.get(k, 0) + 1

    @contextlib.contextmanager
    def on(self, plan):
        try:
            self.apply(plan)
            yield self
        finally:
            for f in reversed(self.undo):
                f()
            self.undo = []

    def setattr(self, obj, name, value):
        own = name in vars(obj)
        old = vars(obj).get(name)
        setattr(obj, name, value)
        self.undo.append((lambda: setattr(obj, name, old)) if own else (lambda: delattr(obj, name)))

    def apply(self, plan):
        import pyscf.cc.ccsd
        import pyscf.df
        import pyscf.lib
        import pyscf.pbc.df

        if plan.get("limit") is not None:
            for name in MODULES:
                mod = sys.modules.get(name)
                if mod is None:
                    continue
                for fn in _functions(mod):
                    for f in _inner(fn):
                        code = with_limit(f.__code__, plan["limit"])
                        if code is not None:
                            self.setcode(f, code)
                        if f.__defaults__ and any(is_limit(x) for x in f.__defaults__):
                            self.setdefaults(f, tuple(type(x)(plan["limit"]) if is_limit(x) else x for x in f.__defaults__))
        if plan.get("blksize") is not None:
            for name in MODULES:
                for fn in _functions(sys.modules[name]) if name in sys.modules else ():
                    for f in _inner(fn):
                        n = f.__code__.co_argcount
                        names = f.__code__.co_varnames[:n][n - len(f.__defaults__ or ()) :]
                        if f.__defaults__ and any(a in ("blksize", "blocksize") and x is None for a, x in zip(names, f.__defaults__)):
                            new = [plan["blksize"] if a in ("blksize", "blocksize") and x is None else x for a, x in zip(names, f.__defaults__)]
                            self.setdefaults(f, tuple(new))
                            self.count("block-size-argument")
        if plan.get("used"):
            seq, n = plan["used"], [0]

            def current_memory():
                self.count("memory-reading")
                n[0] += 1
                x = seq[(n[0] - 1) % len(seq)]
                return [x, x]

            self.setattr(pyscf.lib, "current_memory", current_memory)
            self.setattr(pyscf.lib.misc, "current_memory", current_memory)
        if plan.get("blkmin") is not None:
            self.setattr(pyscf.cc.ccsd, "BLKMIN", plan["blkmin"])
        if plan.get("config") is not None:
            import pyscf

            self.setattr(pyscf.__config__, "MAX_MEMORY", plan["config"])
        if plan.get("blocks") is not None:
            rng = np.random.RandomState(plan["blocks"])
            me = self

            def pieces(n):
                i = 0
                while i < n:
                    k = min(n - i, int(rng.choice([1, 1, 2, 3, 5, 8, 1000])))
                    yield i, i + k
                    i += k

            for cls in (pyscf.df.DF, pyscf.pbc.df.GDF):
                for name in ("loop", "sr_loop"):
                    orig = cls.__dict__.get(name)
                    if orig is None:
                        continue

                    def blocks(self, *args, _orig=orig, **kwargs):
                        if not me.from_package():
                            yield from _orig(self, *args, **kwargs)
                            return
                        for x in _orig(self, *args, **kwargs):
                            if isinstance(x, tuple):
                                for i, j in pieces(len(x[0])):
                                    me.count("block")
                                    yield (x[0][i:j], x[1][i:j]) + tuple(x[2:])
                            else:
                                for i, j in pieces(len(x)):
                                    me.count("block")
                                    yield x[i:j]

                    self.setattr(cls, name, blocks)

    @staticmethod
    def from_package():
        f = sys._getframe(2)
        return "vayesta" in f.f_globals.get("__name__", "")

    def setcode(self, f, code):
        old = f.__code__
        f.__code__ = code
        self.count("limit-in-function")
        self.undo.append(lambda: setattr(f, "__code__", old))

    def setdefaults(self, f, new):
        old = f.__defaults__
        f.__defaults__ = new
        self.undo.append(lambda: setattr(f, "__defaults__", old))

"""Small, fast systems which still have several fragments, and the SPMD programs run on them."""

import copy

import numpy as np


# ------------------------------------------------------------------------------------------------ mean fields


def _chain(n, d=1.0, alt=0.1, sym="H"):
    z, out = 0.0, []
    for i in range(n):
        out.append([sym, (0.05 * (i % 3), 0.0, z)])
        z += d + (alt if i % 2 else 0.0)
    return out


def _ring(n, r=1.3):
    return [["H", (r * np.cos(2 * np.pi * i / n), r * np.sin(2 * np.pi * i / n), 0.0)] for i in range(n)]


MF_SPECS = {
    # name: (kind, atom, basis, opts)
    "h2": ("rhf", [["H", (0, 0, 0)], ["H", (0.1, 0, 0.9)]], "6-31g", {}),
    "h4": ("rhf", _chain(4), "sto-3g", {}),
    "h4b": ("rhf", _chain(4, 1.1, 0.2), "6-31g", {}),
    "h5u": ("uhf", _chain(5, 1.1, 0.15), "sto-3g", dict(spin=1)),
    "h4t": ("uhf", _chain(4, 1.2, 0.1), "sto-3g", dict(spin=2)),
    "h3u": ("uhf", _chain(3, 1.0, 0.2), "6-31g", dict(spin=1)),
    "h4us": ("uhf", _chain(4), "sto-3g", dict(spin=0)),
    "h6": ("rhf", _chain(6, 1.0, 0.2), "sto-3g", {}),
    "h6ring": ("rhf", _ring(6), "sto-3g", {}),
    "h4df": ("rhf", _chain(4, 1.0, 0.25), "6-31g", dict(df=True)),
    "h3udf": ("uhf", _chain(3, 1.1, 0.2), "6-31g", dict(spin=1, df=True)),
    "lih": ("rhf", [["Li", (0, 0, 0)], ["H", (0, 0.1, 1.6)]], "sto-3g", {}),
    "beh2": ("rhf", [["Be", (0, 0, 0)], ["H", (0, 0, 1.33)], ["H", (0.1, 0, -1.33)]], "sto-3g", {}),
    "pbc": ("krhf", "H 0 0 0; H 0 0 0.9", "sto-3g", dict(a=3.0, kmesh=[2, 1, 1])),
    "pbcu": ("kuhf", "H 0 0 0; H 0 0 0.9", "sto-3g", dict(a=3.0, kmesh=[2, 1, 1])),
    "pbc2d": ("krhf", "H 0 0 0; H 0.4 0.8 0.7", "sto-3g", dict(a=3.0, kmesh=[2, 1, 1], dim=2)),
    # lattice models are built inside the universe (their classes belong to the package)
    "hub": ("latt", None, None, dict(nsite=6, nelec=6, u=2.0)),
}


def build_mf(name):
    import pyscf
    import pyscf.gto
    import pyscf.scf

    kind, atom, basis, o = MF_SPECS[name]
    if kind in ("rhf", "uhf"):
        mol = pyscf.gto.M(atom=atom, basis=basis, spin=o.get("spin", 0), verbose=0)
        mf = pyscf.scf.RHF(mol) if kind == "rhf" else pyscf.scf.UHF(mol)
        if o.get("df"):
            mf = mf.density_fit(auxbasis="weigend")
        mf.conv_tol = 1e-12
        mf.conv_tol_grad = 1e-8
        mf.max_cycle = 200
        mf.kernel()
        if not mf.converged:
            raise RuntimeError("mean field %s not converged" % name)
        return mf
    if kind in ("krhf", "kuhf"):
        import pyscf.pbc.df
        import pyscf.pbc.gto
        import pyscf.pbc.scf

        c = pyscf.pbc.gto.Cell()
        c.a = np.eye(3) * o["a"]
        if o.get("dim"):
            c.dimension = o["dim"]
            c.a[2, 2] = 20.0
        c.atom, c.basis, c.verbose, c.precision = atom, basis, 0, 1e-6
        c.build()
        k = c.make_kpts(o["kmesh"])
        cls = pyscf.pbc.scf.KRHF if kind == "krhf" else pyscf.pbc.scf.KUHF
        mf = cls(c, k, exxdiv="ewald").density_fit(auxbasis="weigend")
        mf.conv_tol = 1e-11
        mf.kernel()
        return mf
    raise KeyError(kind)


class MeanFields:
    """Cache of converged mean fields, filled in the parent before forking."""

    def __init__(self, names):
        self.mf = {n: build_mf(n) for n in names if MF_SPECS[n][0] != "latt"}

    def get(self, name):
        """A private mean-field object for one rank."""
        kind, _, _, o = MF_SPECS[name]
        if kind == "latt":
            import vayesta.lattmod as lm

            mol = lm.Hubbard1D(o["nsite"], nelectron=o["nelec"], hubbard_u=o["u"])
            mf = lm.LatticeMF(mol)
            mf.kernel()
            return mf
        mf = self.mf[name].copy()
        mf.mo_coeff = copy.deepcopy(mf.mo_coeff)
        mf.mo_energy = copy.deepcopy(mf.mo_energy)
        mf.mo_occ = copy.deepcopy(mf.mo_occ)
        return mf


# ------------------------------------------------------------------------------------------------ embeddings


def add_fragments(emb, frag):
    """frag: JSON description of the fragmentation."""
    kind = frag.get("kind", "iao")
    fn = getattr(emb, kind + "_fragmentation")
    if "ext" in frag:
        return add_corrected(emb, fn, frag["ext"])
    with fn() as f:

        def body():
            kw = dict(frag.get("kw", {}))
            if "atoms" in frag:
                per = frag.get("per_atom", {})
                for i, a in enumerate(frag["atoms"]):
                    f.add_atomic_fragment(a, **kw, **per.get(str(i), {}))
            elif "orbitals" in frag:
                for o in frag["orbitals"]:
                    f.add_orbital_fragment(o, **kw)
            elif frag.get("full"):
                f.add_full_system(**kw)
            else:
                f.add_all_atomic_fragments(**kw)

        if "rot" in frag:
            with f.rotational_symmetry(**frag["rot"]):
                body()
        elif "mirror" in frag:
            with f.mirror_symmetry(**frag["mirror"]):
                body()
        elif "inv" in frag:
            with f.inversion_symmetry(**frag["inv"]):
                body()
        elif "sec" in frag:
            with f.secondary_fragments(**frag["sec"]):
                body()
        else:
            body()


def add_corrected(emb, fn, e):
    """CCSD fragments which are corrected by the wave functions of auxiliary FCI fragments."""
    with fn() as f:
        main = [f.add_atomic_fragment(a) for a in e["atoms"]]
        kw = dict(solver="FCI", bath_options=dict(bathtype="dmet"), auxiliary=True)
        if e["type"] == "external":
            kw["store_wf_type"] = "CCSDTQ"
        aux = [f.add_atomic_fragment(a, **kw) for a in e["atoms"]]
    for i, x in enumerate(main):
        x.add_external_corrections([aux[i]] if e["proj"] == 0 else aux, e["type"], projectors=e["proj"])


def make_emb(mfs, d):
    """d: {mf, cls, solver, bath, opts, frag}"""
    mf = d["_mf"] if d.get("_mf") is not None else mfs.get(d["mf"])
    cls = d.get("cls", "EWF")
    kw = copy.deepcopy(d.get("opts", {}))
    if "bath" in d:
        kw["bath_options"] = dict(d["bath"])
    if "sopts" in d:
        kw["solver_options"] = dict(d["sopts"])
    if d.get("solver", "CCSD") == "CCSD" and cls == "EWF":
        # converged beyond the tolerances of the checks, whatever the rounding errors
        kw["solver_options"] = dict(dict(conv_tol=1e-10, conv_tol_normt=1e-8), **kw.get("solver_options", {}))
    if cls == "EWF":
        import vayesta.ewf

        emb = vayesta.ewf.EWF(mf, solver=d.get("solver", "CCSD"), **kw)
    elif cls == "DMET":
        import vayesta.dmet

        emb = vayesta.dmet.DMET(mf, solver=d.get("solver", "FCI"), **kw)
    elif cls == "EDMET":
        import vayesta.edmet

        emb = vayesta.edmet.EDMET(mf, solver=d.get("solver", "EBFCI"), **kw)
    else:
        raise KeyError(cls)
    if d.get("frag") is not None:
        add_fragments(emb, d["frag"])
    return emb


class OpError:
    """An exception raised by an operation, as data."""

    def __init__(self, exc):
        from . import world as W

        self.type = type(exc).__name__
        self.site = W._tb_site(exc)
        self.text = str(exc)[:300]

    def __repr__(self):
        return "%s(%s) at %s" % (self.type, self.text[:160], self.site)


def plain(x):
    """Result -> nested tuples / arrays / scalars, comparable and picklable."""
    if x is None or isinstance(x, (bool, int, float, complex, str, OpError)):
        return x
    if isinstance(x, np.ndarray):
        return np.array(x)
    if isinstance(x, np.generic):
        return x.item()
    if isinstance(x, (tuple, list)):
        return tuple(plain(y) for y in x)
    if isinstance(x, dict):
        return tuple((k, plain(x[k])) for k in sorted(x))
    return repr(type(x))


def diff(a, b, tol):
    """None if equal within tol, else a description."""
    if isinstance(a, OpError) or isinstance(b, OpError):
        if isinstance(a, OpError) and isinstance(b, OpError):
            return None if a.type == b.type else "%r versus %r" % (a, b)
        return "%r versus %r" % (short(a), short(b))
    if isinstance(a, (tuple, list)) and isinstance(b, (tuple, list)):
        if len(a) != len(b):
            return "%d values versus %d" % (len(a), len(b))
        for i, (x, y) in enumerate(zip(a, b)):
            d = diff(x, y, tol)
            if d:
                return "[%d] %s" % (i, d)
        return None
    num = (int, float, complex, np.ndarray, bool)
    if isinstance(a, num) and isinstance(b, num):
        a, b = np.asarray(a), np.asarray(b)
        if a.shape != b.shape:
            return "shape %r versus %r" % (a.shape, b.shape)
        if a.size == 0:
            return None
        if a.dtype == bool or b.dtype == bool:
            return None if np.array_equal(a, b) else "%r versus %r" % (short(a), short(b))
        fa, fb = np.isfinite(a), np.isfinite(b)
        if not np.array_equal(fa, fb):
            return "non-finite values: %s versus %s" % (short(a), short(b))
        if not fa.any():
            return None
        e = np.abs(np.where(fa, a, 0) - np.where(fb, b, 0))
        scale = max(1.0, float(np.abs(np.where(fb, b, 0)).max()))
        m = float(e.max())
        if m > tol * scale:
            return "max deviation %.3e (%s versus %s)" % (m, short(a.flat[int(e.argmax())]), short(b.flat[int(e.argmax())]))
        return None
    if a is None and b is None:
        return None
    if type(a) is type(b) and a == b:
        return None
    return "%s versus %s" % (short(a), short(b))


def short(x):
    if isinstance(x, np.ndarray):
        if x.size <= 1:
            return repr(x.item() if x.size else x)
        return "array%r" % (x.shape,)
    r = repr(x)
    return r if len(r) < 200 else r[:200] + "..."


class Session:
    """Executes the operations of a program on one rank (or serially)."""

    def __init__(self, mfs, rank=0, serial=False, mf_hook=None):
        self.mfs = mfs
        self.rank = rank
        self.serial = serial
        self.emb = None
        self.mf_hook = mf_hook

    def do(self, op):
        kind = op[0]
        if kind == "new":
            d = dict(op[1])
            if self.mf_hook is not None:
                d["_mf"] = self.mf_hook(self, d)
            self.emb = make_emb(self.mfs, d)
            return len(self.emb.fragments)
        if kind == "kernel":
            e = self.emb.kernel()
            return (e, self.emb.e_tot, getattr(self.emb, "e_corr", None), self.emb.converged)
        if kind == "call":
            kw = dict(op[2]) if len(op) > 2 else {}
            if self.serial:
                kw.pop("mpi_target", None)
            return getattr(self.emb, op[1])(**kw)
        if kind == "attr":
            return getattr(self.emb, op[1])
        if kind == "reset":
            self.emb.reset(**(op[1] if len(op) > 1 else {}))
            return None
        raise KeyError(kind)


def run_program(session, ops, out, stop_on_error=True):
    """Appends plain results to `out`."""
    from . import world as W

    for op in ops:
        try:
            r = plain(session.do(op))
        except W.SimError:
            raise
        except Exception as e:
            r = OpError(e)
            out.append(r)
            if stop_on_error:
                raise
            continue
        out.append(r)
    return out

"""C06: all processes embed the same mean field."""

import copy
import json

import numpy as np

from .. import engine, spmd, workloads as WL, world as W
from . import parallel as P


def _mo_attrs(mf):
    return [WL.plain(getattr(mf, a)) for a in ("mo_coeff", "mo_energy", "mo_occ", "e_tot", "converged")]


def perturb(mf, kind, seed):
    """Another, equally valid representation of the same mean field on a process other than the first."""
    rng = np.random.RandomState(seed)
    uhf = np.ndim(mf.mo_occ) == 2 or isinstance(mf.mo_occ, tuple)
    kpts = hasattr(mf, "kpts")
    if kpts:
        # signs only
        def signs(c):
            return c * rng.choice([-1.0, 1.0], size=c.shape[-1])

        if uhf and len(mf.mo_coeff) == 2 and np.ndim(mf.mo_coeff[0][0]) == 2:
            mf.mo_coeff = [[signs(c) for c in cs] for cs in mf.mo_coeff]
        else:
            mf.mo_coeff = [signs(c) for c in mf.mo_coeff]
        return mf
    cs = [np.array(c) for c in mf.mo_coeff] if uhf else [np.array(mf.mo_coeff)]
    es = [np.array(e) for e in mf.mo_energy] if uhf else [np.array(mf.mo_energy)]
    os_ = [np.array(o) for o in mf.mo_occ] if uhf else [np.array(mf.mo_occ)]
    for c, e, o in zip(cs, es, os_):
        if kind in ("sign", "all"):
            c *= rng.choice([-1.0, 1.0], size=c.shape[-1])
        if kind in ("rotate", "all"):
            # any rotation which does not mix occupied with virtual orbitals gives the same solution
            for sel in (np.flatnonzero(o > 0), np.flatnonzero(o == 0)):
                if len(sel) > 1:
                    q = np.linalg.qr(rng.normal(size=(len(sel), len(sel))))[0]
                    c[:, sel] = c[:, sel] @ q
        if kind in ("noise", "all"):
            c += 1e-8 * rng.normal(size=c.shape)
            e += 1e-8 * rng.normal(size=e.shape)
        if kind in ("order", "all"):
            p = rng.permutation(len(e))
            c[:], e[:], o[:] = c[:, p], e[p], o[p]
    mf.mo_coeff, mf.mo_energy, mf.mo_occ = (np.array(cs), np.array(es), np.array(os_)) if uhf else (cs[0], es[0], os_[0])
    return mf


class C06(P.Parallel):
    id = "C06"
    tol = 2e-7  # every process may bring its own (rotated, noisy) representation of the mean field
    quick_runs = 220
    quick_wall = 75
    rule = (
        "a run = one mean field shared through the package, or brought by every process in its own representation (orbital "
        "signs, rotations, order, noise) + embedding + public calls x world size x scheduling policy x seeded schedule; "
        "non-trivial = at least one context switch; distinct = distinct global order of communication events (hash)"
    )

    def config(self, rng):
        return P.random_config(rng, allow=("rhf", "uhf", "ring", "pbc"), solvers=["CCSD", "MP2"])

    def gen_ops(self, rng, d, size):
        ops = [["call", "get_wf_corr_energy", {}], ["attr", "e_mf"], ["call", "make_rdm1_demo", dict(ao_basis=True)], ["call", "get_dmet_energy", {}]]
        return rng.sample(ops, rng.randint(1, 3))

    def spec(self, rng, i, tier):
        s = super().spec(rng, i, tier)
        prng = engine.stable_rng("mode", self.id, i // self.per_program, self.seed)
        d = s["ops"][0][1]
        kind = WL.MF_SPECS[d["mf"]][0]
        mode = prng.choice(["own", "own", "shared", "shared", "gdf"])
        if kind in ("krhf", "kuhf"):
            mode = "own" if mode != "gdf" else "gdf"
        if mode == "gdf" and not (kind in ("krhf", "kuhf") or WL.MF_SPECS[d["mf"]][3].get("df")):
            mode = "own"
        s["mode"] = mode
        s["pert"] = rng.choice(["sign", "rotate", "noise", "order", "all"])
        if mode == "shared":
            s["scf"] = dict(
                root=rng.choice([0, 0, 0, rng.randrange(s["size"])]),
                calls=rng.choice([1, 1, 2]),
                max_cycle=prng.choice([100, 100, 2]),
                via=rng.choice(["kernel", "run"]),
            )
            if s["scf"]["max_cycle"] != 100:
                s["ops"] = []
        if mode == "gdf":
            s["ops"] = []
            s["mf"] = d["mf"]
        s["mf"] = d["mf"]
        return s

    def refs(self, spec):
        out = []
        if spec["ops"]:
            out.append(dict(ops=self.ref_ops(spec["ops"])))
        if spec["mode"] == "shared":
            out.append(dict(scf=spec["mf"], max_cycle=spec["scf"]["max_cycle"], calls=spec["scf"]["calls"]))
        if spec["mode"] == "gdf":
            out.append(dict(gdf=spec["mf"]))
        return out

    def fresh_mf(self, ctx, name, max_cycle):
        mf = ctx.mfs.get(name)
        mf.mo_coeff = mf.mo_energy = mf.mo_occ = None
        mf.e_tot, mf.converged = 0, False
        if getattr(mf, "with_df", None) is not None:
            mf.with_df = copy.copy(mf.with_df)
            mf.with_df._cderi = None
        mf._eri = None
        mf.max_cycle = max_cycle
        mf.chkfile = None
        return mf

    @staticmethod
    def df_of(ctx, name, path):
        df = copy.copy(ctx.mfs.get(name).with_df)
        df._cderi = None
        df._cderi_to_save = path
        if getattr(df, "auxmol", None) is not None:
            df.auxmol = None
        return df

    @staticmethod
    def df_ints(df):
        """All three-center integrals the object provides, contracted so that the order of blocks does not matter."""
        if hasattr(df, "kpts"):
            acc = []
            for ki in range(len(df.kpts)):
                tot = 0
                for lr, li, sign in df.sr_loop((df.kpts[ki], df.kpts[ki]), compact=False):
                    l = lr + 1j * li
                    tot = tot + sign * np.dot(l.T, l.conj())
                acc.append(np.asarray(tot))
            return tuple(acc)
        tot = 0
        for eri in df.loop():
            tot = tot + np.dot(eri.T, eri)
        return np.asarray(tot)

    def compute_ref(self, ref, ctx):
        if "ops" in ref:
            return spmd.serial_reference(ctx, ref["ops"])
        if "scf" in ref:
            mf = self.fresh_mf(ctx, ref["scf"], ref["max_cycle"])
            out = []
            for _ in range(ref["calls"]):
                out.append(WL.plain(mf.kernel()))
            return out, _mo_attrs(mf)
        df = self.df_of(ctx, ref["gdf"], ctx.scratch + "/ref.h5")
        df.build()
        return self.df_ints(df)

    def run(self, spec, decisions, refs, ctx):
        get = lambda r: refs[engine.key_of(r)]
        rl = self.refs(spec)
        for r in rl:
            v = get(r)
            if isinstance(v, tuple) and v and isinstance(v[0], str) and v[0] == "ref-failed":
                return dict(violations=[], decisions=[], stats={"skipped:reference": 1}, digest="", nontrivial=False, key="", simtime=0)
        ops, ref = [], []
        if spec["ops"]:
            full = get(rl[0])
            ops = [op for op, r in zip(spec["ops"], full) if not isinstance(r, WL.OpError)]
            ref = [r for r in full if not isinstance(r, WL.OpError)]
        n = spec["size"]
        outs = [[] for _ in range(n)]
        scf_calls = [0] * n
        scf_out = [None] * n
        before = [None] * n
        after = [None] * n
        builds = [0] * n

        def prog(rank):
            if spec["mode"] == "gdf":
                from vayesta.mpi import mpi

                # every process brings its own object; the first one decides where the integrals are stored
                df = self.df_of(ctx, spec["mf"], "%s/cderi-%d.h5" % (ctx.scratch, rank))
                orig = df.build
                def build(*a, **kw):
                    if kw.get("with_j3c", True):
                        builds[rank] += 1
                    return orig(*a, **kw)
                df.build = build
                df = mpi.gdf(df)
                df.build()
                outs[rank].append(self.df_ints(df))
                return

            def hook(session, d):
                if spec["mode"] == "own":
                    mf = ctx.mfs.get(d["mf"])
                    if rank:
                        mf = perturb(mf, spec["pert"], spec["seed"] % 10**6 + rank)
                    before[rank] = copy.deepcopy(_mo_attrs(mf))
                    session.own = mf
                    return mf
                return session.own

            s = WL.Session(ctx.mfs, rank, mf_hook=hook)
            if spec["mode"] == "shared":
                from vayesta.mpi import mpi

                o = spec["scf"]
                mf = self.fresh_mf(ctx, spec["mf"], o["max_cycle"])
                orig = mf.kernel

                def kernel(*a, **kw):
                    scf_calls[rank] += 1
                    return orig(*a, **kw)

                mf.kernel = kernel
                mf = mpi.scf(mf, mpi_rank=o["root"]) if o["root"] else mpi.scf(mf)
                res = []
                for _ in range(o["calls"]):
                    if o["via"] == "kernel":
                        res.append(WL.plain(mf.kernel()))
                    else:
                        mf.run()
                        res.append(WL.plain(mf.e_tot))
                scf_out[rank] = (res, copy.deepcopy(_mo_attrs(mf)))
                s.own = mf
            WL.run_program(s, ops, outs[rank])
            if spec["mode"] == "own":
                after[rank] = _mo_attrs(s.own)

        w = spmd.run_world(ctx, spec, decisions, prog)
        wh = dict(mode=spec["mode"], mf=spec["mf"])
        viol = []
        if spec["ops"]:
            viol = self.judge(spec, ops, w, outs, ref)
        elif w.violation is not None or any(e is not None for e in w.errors):
            viol = spmd.world_violations(w, wh)

        def bad(cls, text):
            viol.append(dict(cls=cls, text=text + " [%s]" % json.dumps(wh), where=wh))

        if not viol and spec["mode"] == "shared":
            o = spec["scf"]
            want = [o["calls"] if r == o["root"] else 0 for r in range(n)]
            if scf_calls != want:
                bad("scf-count", "the SCF calculation ran %s times on the processes, expected %s" % (scf_calls, want))
            rres, rattr = get(rl[-1])
            for r in range(n):
                if repr(scf_out[r][0]) != repr(scf_out[o["root"]][0]):
                    bad("scf-result", "the SCF call returned %s on rank %d and %s on rank %d" % (scf_out[r][0], r, scf_out[o["root"]][0], o["root"]))
                for k, name in enumerate(("mo_coeff", "mo_energy", "mo_occ", "e_tot", "converged")):
                    a, b = scf_out[r][1][k], scf_out[o["root"]][1][k]
                    d = WL.diff(a, b, 0.0)
                    if d:
                        bad("scf-" + name, "%s on rank %d differs from the process which ran the SCF: %s" % (name, r, d))
                d = WL.diff(scf_out[r][1][3], rattr[3], 1e-7) or WL.diff(bool(scf_out[r][1][4]), bool(rattr[4]), 0)
                if d:
                    bad("scf-serial", "shared SCF on rank %d differs from the serial one: %s" % (r, d))
        if not viol and spec["mode"] == "own":
            for r in range(n):
                d = WL.diff(after[r], before[r], 0.0)
                if d:
                    bad("mf-changed", "the mean field of the caller on rank %d was modified: %s" % (r, d))
        if not viol and spec["mode"] == "gdf":
            want = get(rl[-1])
            if sum(builds[1:]) or builds[0] != 1:
                bad("gdf-count", "the integrals were computed %s times on the processes" % (builds,))
            for r in range(n):
                d = WL.diff(outs[r][0], want, 1e-8)
                if d:
                    bad("gdf-value", "density-fitting integrals on rank %d differ from the serial ones: %s" % (r, d))
        extra = {"mode:" + spec["mode"]: 1}
        if spec["mode"] == "own":
            extra["fault:mean-field-" + spec["pert"]] = n - 1
        sample = dict(size=n, mode=spec["mode"], pert=spec["pert"], mf=spec["mf"], events=len(w.events))
        return spmd.outcome(w, outs, viol, extra, sample)

    def simplify(self, spec):
        for s in super().simplify(spec):
            if s.get("scf") and s["scf"]["root"] >= s["size"]:
                s["scf"] = dict(s["scf"], root=0)
            yield s
        if spec["pert"] == "all":
            for k in ("sign", "rotate", "noise", "order"):
                yield dict(spec, pert=k)

"""C07: convergence flags under solver faults; shared machinery of C10 and C11."""

import json

from .. import engine, inject, solo, spmd, workloads as WL, world as W
from .parallel import is_uhf, random_config


def fault_stats(sf):
    return {"fault:%s" % k: v for k, v in sf.total.items()}


class C07(engine.Check):
    """Programs with several kernel runs; in some of them one or more solver calls on some rank do not converge."""

    id = "C07"
    sizes = [1, 2, 3]
    quick_runs = 260
    quick_wall = 55
    thorough_runs = 20000
    thorough_wall = 1500
    tol = 1e-8
    rule = (
        "a run = embedding set-up x world size x 2..4 kernel runs, some with one or several solver calls (T, Lambda, CI or FCI "
        "equations) on a chosen rank made non-convergent x seeded schedule; non-trivial = a fault fired; distinct = distinct "
        "(set-up, fault positions, event order)"
    )
    real = ["all of vayesta", "pyscf solvers (stopped after one cycle, or flagged as not converged)"]
    stub = ["mpi4py (simulated)", "clock (simulated)"]
    assumptions = [
        "a solver which reports converged=False is not converged, whatever its amplitudes",
        "the CI initial guess of the FCI solver need not be converged",
    ]

    def prepare(self, ctx):
        ctx.mfs = WL.MeanFields(["h2", "h4", "h4b", "h5u", "h3u", "h6ring", "h4df", "lih", "beh2", "h6", "h4us", "h3udf"])

    def config(self, rng):
        kind = rng.choice(["ewf"] * 8 + ["dmet"])
        if kind == "dmet":
            d = dict(cls="DMET", mf=rng.choice(["h4", "h4", "h6ring"]), solver=rng.choice(["FCI", "CCSD"]), kind="dmet")
            d["bath"] = dict(bathtype="dmet")
            d["frag"] = dict(kind="sao")
            if d["mf"] == "h6ring":
                d["frag"] = dict(kind="sao", atoms=[[0, 1]], rot=dict(order=3, axis="z"))
            d["opts"] = dict(maxiter=6, conv_tol=rng.choice([1e-1, 1e-2]))
            return d
        d = random_config(rng, allow=("rhf", "uhf", "ring"), solvers=["CCSD", "CCSD", "CISD", "FCI", "TCCSD", "CALLBACK", "MP2"])
        while d["mf"] not in ("h2", "h4", "h4b", "h5u", "h3u", "h6ring", "h4df", "lih", "beh2", "h6", "h4us", "h3udf"):
            d["mf"] = "h4"
            d["frag"] = dict(kind="iao")
        d.pop("opts", None)
        if d["solver"] == "TCCSD" and is_uhf(d):
            d["solver"] = "CCSD"
        if d["solver"] == "CALLBACK":
            d["sopts"] = dict(callback=rng.choice(["fci", "ccsd", "none"]))
            if is_uhf(d):
                d["solver"] = "CISD"
                d.pop("sopts")
        elif d["solver"] == "CCSD" and rng.random() < 0.4:
            d["sopts"] = dict(solve_lambda=rng.random() < 0.5)
        return d

    def spec(self, rng, i, tier):
        prng = engine.stable_rng("prog", self.id, i // 3, self.seed)
        d = self.config(prng)
        size = 1 if d["cls"] == "DMET" else rng.choice([1, 2, 2, 3, 3])
        runs = []
        for k in range(rng.choice([2, 2, 3, 4])):
            plan = []
            if rng.random() < 0.65:
                for _ in range(rng.choice([1, 1, 1, 2, 3])):
                    p = dict(rank=rng.randrange(size), n=rng.choice([0, 0, 1, 2, 3, 4, 5]), mode=rng.choice(["cycle", "flag"]))
                    if d["cls"] == "DMET":
                        p["mode"] = "flag"
                    if d["cls"] == "DMET" or rng.random() < 0.15:
                        p["last"] = 10**6
                    plan.append(p)
            between = rng.choice([None, None, ["call", "make_rdm1", {}], ["reset"], ["call", "get_wf_corr_energy", {}], ["call", "make_rdm1_demo", {}]])
            if d["cls"] == "DMET":
                between = None
            runs.append(dict(plan=plan, between=between))
        return dict(d=d, size=size, runs=runs, seed=rng.getrandbits(48), policy=spmd.random_policy(rng, size))

    def refs(self, spec):
        return [dict(d=spec["d"])]

    # ------------------------------------------------------------------ execution
    @staticmethod
    def callback(kind, sf):
        """User-supplied solver."""
        import pyscf.cc
        import pyscf.fci

        def cb(mf):
            r = inject.rank()
            n = sf.count.get(r, 0)
            sf.count[r] = n + 1
            mode = sf._lookup(r, n, "callback")
            conv = mode is None
            if mode is not None:
                sf.fired.append((r, "callback", n, mode))
                sf.total["callback:" + mode] = sf.total.get("callback:" + mode, 0) + 1
            if kind == "fci":
                ci = pyscf.fci.FCI(mf)
                ci.kernel()
                return dict(civec=ci.ci, converged=conv)
            cc = pyscf.cc.CCSD(mf)
            cc.kernel()
            out = dict(t1=cc.t1, t2=cc.t2, l1=cc.t1, l2=cc.t2)
            if conv or kind == "ccsd":
                out["converged"] = conv
            return out

        return cb

    def session(self, ctx, d, rank, sf):
        d = json.loads(json.dumps(d))
        if d["solver"] == "CALLBACK":
            d["sopts"] = dict(callback=self.callback(d["sopts"]["callback"], sf))
        s = WL.Session(ctx.mfs, rank)
        s.do(["new", d])
        return s

    def faults(self, d):
        kinds = dict(CISD=("ci",), CALLBACK=()).get(d["solver"], ("cc", "lambda", "fci"))
        return inject.SolverFaults().install(kinds)

    def compute_ref(self, ref, ctx):
        d = ref["d"]
        u = ctx.universes[1][0]
        sf = self.faults(d)
        with u:
            u.redirect_logs(ctx.scratch, 60)
            try:
                s = self.session(ctx, d, 0, sf)
                sf.begin([])
                s.emb.kernel()
                out = dict(e=WL.plain(s.emb.e_tot), conv=bool(s.emb.converged), calls=sf.count.get(0, 0), ops=[])
                for op in ("make_rdm1", "get_wf_corr_energy", "make_rdm1_demo"):
                    try:
                        s.do(["call", op, {}])
                        out["ops"].append(op)
                    except Exception:
                        pass
                return out
            except Exception as e:
                return dict(error=repr(WL.OpError(e)))

    def run(self, spec, decisions, refs, ctx):
        d, size = spec["d"], spec["size"]
        ref = refs[engine.key_of(self.refs(spec)[0])]
        if not isinstance(ref, dict) or "error" in ref:
            return solo.outcome([], [], {"skipped:reference": 1, "skipped:%s" % (ref["error"] if isinstance(ref, dict) else ref,): 1}, "skip", nontrivial=False)
        sf = self.faults(d)
        outs = [[] for _ in range(size)]

        def prog(rank):
            s = self.session(ctx, d, rank, sf)
            for run in spec["runs"]:
                sf.begin(run["plan"])
                s.emb.kernel()
                own = [f.results.converged for f in s.emb.fragments if f._results is not None]
                outs[rank].append((s.emb.converged, len(sf.fired_on(rank)), s.emb.e_tot, own, sf.count.get(rank, 0)))
                op = run["between"]
                if op is not None and (op[0] == "reset" or op[1] in ref["ops"]):
                    sf.begin([])
                    s.do(op)

        if size == 1:
            u = ctx.universes[1][0]
            err = None
            with u:
                u.redirect_logs(ctx.scratch, 60)
                try:
                    prog(0)
                except Exception as e:
                    err = e
            viol = []
            # DMET fits its potential to whatever the solvers returned; a failing fit is a reported failure
            if err is not None and not (d["cls"] == "DMET" and sf.total):
                viol.append(dict(cls="error", text="%r after %d runs" % (WL.OpError(err), len(outs[0])), where=dict(d=d["solver"])))
            w = None
        else:
            w = spmd.run_world(ctx, spec, decisions, prog)
            viol = spmd.world_violations(w, dict(solver=d["solver"]))
        viol += self.judge(spec, outs, ref)
        fired = sum(o[1] for out in outs for o in out)
        stats = dict(fault_stats(sf))
        stats["kernel-runs"] = sum(len(o) for o in outs)
        stats["cls:" + d["cls"] + ":" + d["solver"]] = 1
        key = (json.dumps(spec["d"], sort_keys=True), json.dumps(spec["runs"]), size)
        sample = dict(d=d, size=size, runs=spec["runs"], outs=[[(bool(o[0]), o[1]) for o in out] for out in outs])
        if w is None:
            return solo.outcome(viol, outs, stats, key, nontrivial=fired > 0, sample=sample)
        return spmd.outcome(w, outs, viol, stats, sample, key=str(hash_key(key, w)), nontrivial=fired > 0)

    def judge(self, spec, outs, ref):
        viol = []
        d, size = spec["d"], spec["size"]
        n = min(len(o) for o in outs)
        tol = 3e-5 if d["solver"] in ("FCI", "TCCSD", "CALLBACK") else self.tol
        for k in range(n):
            fired = sum(outs[r][k][1] for r in range(size))
            wh = dict(solver=d["solver"], cls=d["cls"])
            for r in range(size):
                conv, _, e, own, calls = outs[r][k]
                if d["cls"] == "DMET":
                    if fired and conv and "last" in spec["runs"][k]["plan"][0]:
                        viol.append(dict(cls="false-converged", text="run %d: all solver calls from some point on failed, but DMET reports converged=%r" % (k, conv), where=wh))
                    if k == 0 and not fired and bool(conv) != ref["conv"]:
                        viol.append(dict(cls="flag", text="run %d without faults: converged=%r, undisturbed run: %r" % (k, conv, ref["conv"]), where=wh))
                    continue
                if fired and conv:
                    viol.append(
                        dict(
                            cls="false-converged",
                            text="run %d: %d solver calls did not converge (plan %s), but rank %d of %d reports converged=%r" % (k, fired, json.dumps(spec["runs"][k]["plan"]), r, size, conv),
                            where=wh,
                        )
                    )
                if outs[r][k][1] and own and all(own):
                    viol.append(dict(cls="fragment-flag", text="run %d: a solver call on rank %d did not converge, but all its fragments report convergence" % (k, r), where=wh))
                if not fired and bool(conv) != ref["conv"]:
                    viol.append(
                        dict(cls="flag", text="run %d without faults: rank %d of %d reports converged=%r, undisturbed run: %r" % (k, r, size, conv, ref["conv"]), where=wh)
                    )
                if not fired:
                    dd = WL.diff(WL.plain(e), ref["e"], tol)
                    if dd:
                        viol.append(dict(cls="value", text="run %d without faults: total energy on rank %d of %d: %s" % (k, r, size, dd), where=wh))
        return viol

    def simplify(self, spec):
        for k in range(len(spec["runs"])):
            if len(spec["runs"]) > 1:
                yield dict(spec, runs=spec["runs"][:k] + spec["runs"][k + 1 :])
        for k, run in enumerate(spec["runs"]):
            if run["between"] is not None:
                runs = json.loads(json.dumps(spec["runs"]))
                runs[k]["between"] = None
                yield dict(spec, runs=runs)
            for j in range(len(run["plan"])):
                runs = json.loads(json.dumps(spec["runs"]))
                del runs[k]["plan"][j]
                yield dict(spec, runs=runs)
        if spec["size"] > 2:
            runs = json.loads(json.dumps(spec["runs"]))
            for run in runs:
                for p in run["plan"]:
                    p["rank"] = min(p["rank"], spec["size"] - 2)
            yield dict(spec, size=spec["size"] - 1, runs=runs, policy=dict(spec["policy"], sched="uniform"))


def hash_key(key, w):
    import hashlib

    return hashlib.sha1((repr(key) + spmd.interleaving_key(w)).encode()).hexdigest()[:16]


# ------------------------------------------------------------------------------------------------ C10


import math
import random

import numpy as np


class Aborted(Exception):
    pass


MODES = ["flag", "cycle", "raise:LinAlgError", "raise:RuntimeError", "raise:MemoryError", "raise:KeyboardInterrupt"]


def random_plan(rng, nmax, modes=MODES):
    plan = []
    for _ in range(rng.choice([1, 1, 2, 3])):
        p = dict(rank=0, n=rng.randrange(nmax), mode=rng.choice(modes))
        if rng.random() < 0.2:
            p["last"] = p["n"] + rng.choice([1, 3, 10**6])
        plan.append(p)
    return plan


class LogTap:
    """Records of level ERROR and above written by the package during a block."""

    def __init__(self, universe):
        import logging

        self.records = []
        tap = self

        class H(logging.Handler):
            def emit(self, record):
                tap.records.append(record.getMessage())

        self.h = H(level=logging.ERROR)
        self.lg = universe.vayesta_logger()

    def __enter__(self):
        self.level = self.lg.level
        self.lg.setLevel(40)
        self._clear()
        self.lg.addHandler(self.h)
        return self

    def __exit__(self, *exc):
        self.lg.removeHandler(self.h)
        self.lg.setLevel(self.level)
        self._clear()

    def _clear(self):
        self.lg._cache.clear()
        for l in self.lg.manager.loggerDict.values():
            if hasattr(l, "_cache"):
                l._cache.clear()


def frag_electrons(emb, x):
    """Electrons in the fragment space, from the stored wave function of the fragment."""
    dm = x.results.wf.make_rdm1()
    s = emb.get_ovlp()
    if isinstance(dm, tuple):
        tot = 0.0
        for c, f, d in zip(x.cluster.c_active, x.c_frag, dm):
            r = f.T @ s @ c
            tot += np.trace(r @ d @ r.T)
        return tot
    r = x.c_frag.T @ s @ x.cluster.c_active
    return float(np.trace(r @ dm @ r.T))


class C10(engine.Check):
    """Chemical-potential searches whose evaluations fail."""

    id = "C10"
    sizes = [1]
    quick_runs = 500
    quick_wall = 45
    thorough_runs = 50000
    thorough_wall = 1500
    max_evals = 700
    rule = (
        "a run = one search set-up (fragment target search, global search, or bisection of a generated function) x 1..3 searches on "
        "the same object x a plan of solver calls which do not converge or raise; non-trivial = at least two evaluations; "
        "distinct = distinct (set-up, plan, evaluation sequence)"
    )
    real = ["all of vayesta", "pyscf solvers", "scipy root search"]
    stub = ["electron-number function of the stand-alone bisection (generated)", "clock (simulated)"]
    assumptions = ["the electron number of a fragment is the trace of its stored one-body density matrix in the fragment space"]

    def prepare(self, ctx):
        ctx.mfs = WL.MeanFields(["h2", "h4", "h4b", "lih", "beh2", "h3u", "h5u"])

    def spec(self, rng, i, tier):
        kind = rng.choice(["frag", "frag", "frag", "glob", "glob", "bisect", "bisect", "bisect"])
        if kind == "bisect":
            return dict(kind=kind, fn=self.random_fn(rng), tol=rng.choice([1e-8, 1e-6, 1e-3, 1e-12]), robust=rng.random() < 0.4,
                        init=rng.choice([0.0, 0.1, -0.3, 2.0]), runs=[dict(shift=rng.choice([0.0, 0.0, 0.05, -0.4]), plan=self.fn_plan(rng)) for _ in range(rng.choice([1, 2, 3]))],
                        seed=rng.getrandbits(40))
        prng = engine.stable_rng("prog", self.id, i // 14, self.seed)
        d = dict(cls="EWF", mf=prng.choice(["h4", "h4b", "lih", "beh2", "h2", "h3u", "h5u"]), solver=prng.choice(["CCSD", "CCSD", "FCI"]))
        d["bath"] = prng.choice([dict(bathtype="dmet"), dict(bathtype="dmet"), dict(threshold=1e-3)])
        if d["mf"] in ("h3u", "h5u"):
            d["solver"] = "CCSD"
        n = len(WL.MF_SPECS[d["mf"]][1])
        if kind == "frag":
            at = list(range(n))
            sel = prng.sample(at, prng.randint(1, min(2, n)))
            per = {}
            for a in sel:
                per[str(a)] = dict(delta=prng.choice([0.02, -0.02, 0.1, -0.1, 0.25, -0.25, 0.0, 1e-5, 7.0]), atol=prng.choice([1e-6, 1e-4, 1e-7]), rtol=prng.choice([0.0, 1e-6]))
            d["frag"] = dict(kind="iao", atoms=at)
            return dict(kind=kind, d=d, per=per, runs=[random_plan(rng, 14) if rng.random() < 0.8 else [] for _ in range(rng.choice([1, 1, 2]))], seed=0)
        d["frag"] = dict(kind="iao")
        return dict(kind=kind, d=d, init=prng.choice([0.0, 0.0, 0.01, -0.02]), robust=prng.random() < 0.3,
                    runs=[random_plan(rng, 8 * n) if rng.random() < 0.7 else [] for _ in range(rng.choice([1, 1, 2]))], seed=0)

    # ---- generated functions
    @staticmethod
    def random_fn(rng):
        k = rng.choice(["linear", "tanh", "atan", "step", "plateau", "cubic", "noisy", "wave"])
        return dict(k=k, a=rng.choice([0.05, 0.5, 3.0]) * rng.choice([1, -1]), x0=rng.uniform(-0.5, 0.5), noise=rng.choice([1e-9, 1e-6, 1e-3]))

    @staticmethod
    def fn_plan(rng):
        if rng.random() < 0.5:
            return []
        return [dict(n=rng.choice([0, 1, 2, 3, 5, 8, 12]), mode=rng.choice(["nan", "inf", "zero", "raise:RuntimeError", "raise:LinAlgError", "raise:KeyboardInterrupt", "jump"]))]

    @staticmethod
    def fn_value(fn, x, noise):
        a, y = fn["a"], x - fn["x0"]
        k = fn["k"]
        if k == "linear":
            return a * y
        if k == "tanh":
            return math.tanh(a * y)
        if k == "atan":
            return math.atan(2 * a * y)
        if k == "step":
            return a * (math.floor(8 * y) + 0.5)
        if k == "plateau":
            return math.copysign(1, a) * (max(abs(y) - 0.2, 0.0) * math.copysign(1, y) + 1e-4)
        if k == "cubic":
            return a * (y**3 + 1e-3 * y)
        if k == "wave":
            return a * (y + 0.4 * math.sin(9 * y))
        return a * y + noise.uniform(-1, 1) * fn["noise"]

    def refs(self, spec):
        if spec["kind"] == "bisect":
            return []
        return [dict(kind=spec["kind"], d=spec["d"], per=spec.get("per"), init=spec.get("init"), robust=spec.get("robust"))]

    def build(self, ctx, spec, targets=None):
        d = json.loads(json.dumps(spec["d"]))
        if targets:
            d["frag"]["per_atom"] = {
                a: dict(nelectron_target=targets[a], nelectron_target_atol=spec["per"][a]["atol"], nelectron_target_rtol=spec["per"][a]["rtol"])
                for a in targets
            }
        s = WL.Session(ctx.mfs, 0)
        s.do(["new", d])
        if spec["kind"] == "glob":
            s.emb.optimize_chempot(cpt_init=spec["init"], robust=spec["robust"])
        return s.emb

    def compute_ref(self, ref, ctx):
        u = ctx.universes[1][0]
        sf = inject.SolverFaults().install(("cc", "fci"))
        out = {}
        with u:
            u.redirect_logs(ctx.scratch, 60)
            targets = None
            if ref["kind"] == "frag":
                emb = self.build(ctx, dict(ref, kind="frag", d=dict(ref["d"])))
                emb.kernel()
                targets = {}
                for a in ref["per"]:
                    targets[a] = round(frag_electrons(emb, emb.fragments[int(a)]) + ref["per"][a]["delta"], 10)
            out["targets"] = targets
            try:
                emb = self.build(ctx, ref, targets)
                sf.begin([])
                out["e"] = WL.plain(emb.kernel())
                out["e"] = WL.plain(emb.e_tot)
                out["conv"] = bool(emb.converged)
            except Exception as e:
                out["error"] = type(e).__name__
            out["evals"] = sf.count.get(0, 0)
        return out

    def run(self, spec, decisions, refs, ctx):
        u = ctx.universes[1][0]
        with u:
            u.redirect_logs(ctx.scratch, 60)
            if spec["kind"] == "bisect":
                return self.run_bisect(spec, u)
            ref = refs[engine.key_of(self.refs(spec)[0])]
            if not isinstance(ref, dict):
                return solo.outcome([], [], {"skipped:reference": 1, "skipped:%s" % (str(ref)[-300:],): 1}, "skip", nontrivial=False)
            return self.run_emb(spec, ref, u, ctx)

    def run_emb(self, spec, ref, u, ctx):
        kind = spec["kind"]
        sf = inject.SolverFaults().install(("cc", "fci"))
        emb = self.build(ctx, spec, ref["targets"])
        viol, outs, stats = [], [], {}
        for k, plan in enumerate(spec["runs"]):
            sf.begin(plan)
            sf.calls.clear()
            exc = None
            with LogTap(u) as tap:
                try:
                    res = emb.kernel()
                except (Exception, KeyboardInterrupt) as e:
                    exc = e
            fired = len(sf.fired_on(0))
            evals = sf.count.get(0, 0)
            sf.begin([])
            wh = dict(kind=kind, solver=spec["d"]["solver"])
            name = type(exc).__name__ if exc is not None else None
            if name == "AttributeError":
                stats["attr:%r" % WL.OpError(exc)] = 1
            outs.append((name, None if exc is not None else WL.plain(emb.e_tot), evals))
            stats["outcome:" + (name or "ok")] = stats.get("outcome:" + (name or "ok"), 0) + 1
            if evals > self.max_evals:
                viol.append(dict(cls="evaluations", text="search %d needed %d solver evaluations" % (k, evals), where=wh))
            if exc is not None:
                if not fired and "error" not in ref and (k == 0 or kind == "frag"):
                    viol.append(dict(cls="error", text="search %d without faults raised %r" % (k, WL.OpError(exc)), where=wh))
                continue
            if not emb.converged or tap.records:
                # failure is signalled
                if not fired and k == 0 and "error" not in ref and ref["conv"] and spec["d"]["solver"] != "FCI":
                    viol.append(dict(cls="error", text="search %d without faults is reported as failed: converged=%r, %s" % (k, emb.converged, tap.records[:2]), where=wh))
                stats["outcome:signalled"] = stats.get("outcome:signalled", 0) + 1
                continue
            # success is reported: verify
            if kind == "frag":
                for a, t in ref["targets"].items():
                    x = emb.fragments[int(a)]
                    ne = frag_electrons(emb, x)
                    tol = spec["per"][a]["atol"] + spec["per"][a]["rtol"] * t
                    if not abs(ne - t) <= tol * (1 + 1e-3) + 1e-9:
                        viol.append(
                            dict(
                                cls="unverified",
                                text="search %d reports success, but fragment %s holds %.9f electrons instead of %.9f (tolerance %.1e); plan %s" % (k, a, ne, t, tol, json.dumps(plan)),
                                where=wh,
                            )
                        )
            else:
                dm = emb.make_rdm1_demo()
                ne = np.trace(dm) if not isinstance(dm, tuple) else np.trace(dm[0]) + np.trace(dm[1])
                if not abs(ne - emb.mol.nelectron) <= 1.01e-8:
                    viol.append(
                        dict(cls="unverified", text="search %d reports success at potential %r, but the electron number is wrong by %.3e; plan %s" % (k, emb.opts.global_frag_chempot, ne - emb.mol.nelectron, json.dumps(plan)), where=wh)
                    )
                if WL.diff(WL.plain(res), WL.plain(emb.e_tot), 1e-12):
                    viol.append(dict(cls="unverified", text="search %d returns %r, but the energy of the embedding is %r" % (k, res, emb.e_tot), where=wh))
                if spec["d"]["solver"] == "CCSD" and fired:
                    d = json.loads(json.dumps(spec["d"]))
                    d["opts"] = dict(global_frag_chempot=emb.opts.global_frag_chempot)
                    s = WL.Session(ctx.mfs, 0)
                    s.do(["new", d])
                    s.emb.kernel()
                    dd = WL.diff(WL.plain(emb.e_tot), WL.plain(s.emb.e_tot), 1e-7)
                    if dd:
                        viol.append(dict(cls="inconsistent", text="search %d: the results are not those of the reported potential %r: energy %s; plan %s" % (k, emb.opts.global_frag_chempot, dd, json.dumps(plan)), where=wh))
            if "e" in ref and ref["conv"]:
                dd = WL.diff(WL.plain(emb.e_tot), ref["e"], 2e-4)
                if dd:
                    viol.append(dict(cls="inconsistent", text="search %d: energy differs from that of the undisturbed search: %s; plan %s" % (k, dd, json.dumps(plan)), where=wh))
        stats.update(fault_stats(sf))
        stats["kind:" + kind] = 1
        stats["evaluations"] = sum(o[2] for o in outs)
        key = json.dumps([spec["kind"], spec["d"], spec["runs"], [o[2] for o in outs]], sort_keys=True)
        sample = dict(spec={k: v for k, v in spec.items() if k != "seed"}, outs=[(o[0], o[2]) for o in outs])
        return solo.outcome(viol, outs, stats, key, nontrivial=sum(o[2] for o in outs) > 1, sample=sample)

    def run_bisect(self, spec, u):
        from vayesta.misc.cptbisect import ChempotBisection

        noise = random.Random(spec["seed"])
        state = dict(shift=0.0, n=0, plan=[], evals=[])
        fired = {}

        def func(cpt):
            n = state["n"]
            state["n"] = n + 1
            if n > self.max_evals:
                raise Aborted("too many evaluations")
            for p in state["plan"]:
                if p["n"] == n:
                    fired[p["mode"]] = fired.get(p["mode"], 0) + 1
                    if p["mode"].startswith("raise:"):
                        raise inject.EXC[p["mode"][6:]]()
                    v = dict(nan=float("nan"), inf=float("inf"), zero=0.0, jump=1e3)[p["mode"]]
                    state["evals"].append((cpt, v))
                    return v
            v = self.fn_value(spec["fn"], cpt - state["shift"], noise)
            state["evals"].append((cpt, v))
            return v

        b = ChempotBisection(func, cpt_init=spec["init"], tol=spec["tol"], robust=spec["robust"])
        viol, outs, stats, seqs = [], [], {}, []
        wh = dict(kind="bisect", fn=spec["fn"]["k"])
        clean = True
        for k, run in enumerate(spec["runs"]):
            state.update(shift=run["shift"], n=0, plan=run["plan"], evals=[])
            nf = sum(fired.values())
            exc = ret = None
            import warnings

            try:
                with warnings.catch_warnings():
                    warnings.simplefilter("ignore")
                    ret = b.kernel()
            except (Exception, KeyboardInterrupt) as e:
                exc = e
            hit = sum(fired.values()) > nf
            clean = clean and not hit
            name = type(exc).__name__ if exc is not None else ("found" if b.converged else "signalled")
            stats["outcome:" + name] = stats.get("outcome:" + name, 0) + 1
            outs.append((name, ret, state["n"]))
            seqs.append([c for c, v in state["evals"]])
            if state["n"] > 150:
                viol.append(dict(cls="evaluations", text="search %d needed %d evaluations" % (k, state["n"]), where=wh))
            if b.converged:
                if exc is not None:
                    viol.append(dict(cls="unverified", text="search %d raised %r, but converged is True" % (k, exc), where=wh))
                elif not state["evals"]:
                    viol.append(dict(cls="unverified", text="search %d reports success without an evaluation" % k, where=wh))
                else:
                    c, v = state["evals"][-1]
                    if not (abs(v) <= spec["tol"]) or c != ret or b.cpt != ret:
                        viol.append(
                            dict(cls="unverified", text="search %d reports potential %r (object: %r), but the last evaluation was at %r with error %.3e (tolerance %.1e)" % (k, ret, b.cpt, c, v, spec["tol"]), where=wh)
                        )
            elif clean and spec["fn"]["k"] == "linear":
                viol.append(dict(cls="not-found", text="search %d of a linear function without faults failed: %s" % (k, name), where=wh))
        stats.update({"fault:eval-" + k: v for k, v in fired.items()})
        stats["kind:bisect"] = 1
        stats["evaluations"] = sum(o[2] for o in outs)
        return solo.outcome(viol, outs, stats, repr(seqs), nontrivial=sum(o[2] for o in outs) > 1, sample=dict(fn=spec["fn"], runs=spec["runs"], outs=outs))

    def simplify(self, spec):
        for k in range(len(spec["runs"])):
            if len(spec["runs"]) > 1:
                yield dict(spec, runs=spec["runs"][:k] + spec["runs"][k + 1 :])
        if spec["kind"] != "bisect":
            for k, plan in enumerate(spec["runs"]):
                for j in range(len(plan)):
                    yield dict(spec, runs=spec["runs"][:k] + [plan[:j] + plan[j + 1 :]] + spec["runs"][k + 1 :])


# ------------------------------------------------------------------------------------------------ C11


class C11(engine.Check):
    """Self-consistency loops: truthful flags, bounded iterations."""

    id = "C11"
    sizes = [1]
    quick_runs = 300
    quick_wall = 50
    thorough_runs = 20000
    thorough_wall = 1500
    rule = (
        "a run = one self-consistent embedding (p-DMET, Brueckner or DMET potential fitting) x 1..3 kernel runs on the same object with "
        "changing iteration limits and thresholds x a plan of failing solver calls; non-trivial = at least two iterations; distinct = "
        "distinct (set-up, limits, plan, iteration energies)"
    )
    real = ["all of vayesta", "pyscf solvers", "cvxpy/SCS"]
    stub = ["clock (simulated)"]
    assumptions = ["the criterion of a loop is the documented one: changes of energy and density matrix (or of the correlation potential) between the last two iterations below the thresholds"]

    def prepare(self, ctx):
        ctx.mfs = WL.MeanFields(["h2", "h4", "h4b", "lih", "beh2", "h3u", "h5u", "h6ring"])

    def spec(self, rng, i, tier):
        loop = rng.choice(["pdmet"] * 8 + ["brueckner"] * 8 + ["dmet"])
        nr = rng.choice([1, 2, 2, 3])
        if loop == "dmet":
            d = dict(cls="DMET", mf=rng.choice(["h4", "h6ring"]), solver=rng.choice(["FCI", "CCSD"]), bath=dict(bathtype="dmet"), frag=dict(kind="sao"))
            if d["mf"] == "h6ring":
                d["frag"] = dict(kind="sao", atoms=[[0, 1]], rot=dict(order=3, axis="z"))
            d["opts"] = dict(maxiter=rng.choice([1, 2, 4]), conv_tol=rng.choice([1e-1, 3e-2, 1e-2]), diis=rng.random() < 0.6, charge_consistent=rng.random() < 0.7)
            runs = [dict(plan=random_plan(rng, 20, ["flag", "raise:RuntimeError"]) if rng.random() < 0.5 else []) for _ in range(min(nr, 2))]
            return dict(loop=loop, d=d, runs=runs)
        d = dict(cls="EWF", mf=rng.choice(["h4", "h4b", "lih", "beh2", "h2", "h3u", "h5u"]), solver=rng.choice(["CCSD", "CCSD", "CCSD", "MP2" if loop == "pdmet" else "CCSD"]))
        d["bath"] = rng.choice([dict(bathtype="dmet"), dict(bathtype="dmet"), dict(threshold=1e-3), dict(bathtype="full")])
        d["frag"] = dict(kind=rng.choice(["iao", "sao"]))
        opts = dict(maxiter=rng.choice([1, 2, 3, 5, 8, 12]), etol=rng.choice([1e-8, 1e-5, 1e-3, None]), dtol=rng.choice([1e-6, 1e-4, 1e-2, None]), diis=rng.random() < 0.7, damping=rng.choice([0.0, 0.0, 0.3]))
        if loop == "pdmet" and rng.random() < 0.3:
            opts["dm_type"] = "demo"
        n = len(WL.MF_SPECS[d["mf"]][1])
        runs = []
        for k in range(nr):
            r = dict(plan=random_plan(rng, 4 * n, ["flag", "cycle", "raise:RuntimeError", "raise:LinAlgError", "raise:KeyboardInterrupt"]) if rng.random() < 0.4 else [])
            if k and rng.random() < 0.5:
                r["maxiter"] = rng.choice([1, 2, 3, 6, 20])
            if k and rng.random() < 0.3:
                r["etol"], r["dtol"] = rng.choice([(1e-3, 1e-2), (1e-12, 1e-12), (1e-6, 1e-4)])
            if k and rng.random() < 0.2:
                r["reset"] = True
            runs.append(r)
        return dict(loop=loop, d=d, opts=opts, runs=runs)

    def run(self, spec, decisions, refs, ctx):
        u = ctx.universes[1][0]
        sf = inject.SolverFaults().install(("cc", "fci"))
        with u:
            u.redirect_logs(ctx.scratch, 60)
            s = WL.Session(ctx.mfs, 0)
            s.do(["new", spec["d"]])
            return (self.run_dmet if spec["loop"] == "dmet" else self.run_scmf)(spec, s.emb, sf)

    def finish(self, spec, viol, outs, sf):
        stats = dict(fault_stats(sf))
        stats["loop:" + spec["loop"]] = 1
        stats["iterations"] = sum(o["it"] or 0 for o in outs)
        for o in outs:
            stats["outcome:" + o["name"]] = stats.get("outcome:" + o["name"], 0) + 1
        return solo.outcome(viol, [repr(o) for o in outs], stats, json.dumps([spec, repr(outs)], sort_keys=True), nontrivial=stats["iterations"] > 1, sample=dict(spec=spec, outs=outs))

    def run_scmf(self, spec, emb, sf):
        o = dict(spec["opts"])
        getattr(emb, spec["loop"] + "_scmf")(**o)
        sc = emb.with_scmf
        uhf = emb.is_uhf
        dms = []
        orig = emb.update_mf

        def update_mf(*args, **kwargs):
            r = orig(*args, **kwargs)
            dms.append(np.array(emb.mf.make_rdm1()))
            return r

        emb.update_mf = update_mf
        viol, outs = [], []
        wh = dict(loop=spec["loop"])
        for k, run in enumerate(spec["runs"]):
            if run.get("reset"):
                emb.reset()
            if "maxiter" in run:
                sc.maxiter = run["maxiter"]
            if "etol" in run:
                sc.etol, sc.dtol = run["etol"], run["dtol"]
            maxiter = sc.maxiter
            n0, dms[:] = len(sc.energies), []
            sf.begin(run["plan"])
            exc = None
            try:
                emb.kernel()
            except (Exception, KeyboardInterrupt) as e:
                exc = e
            fired = len(sf.fired_on(0))
            en = list(sc.energies[n0:])
            name = "converged" if sc.converged else ("raised" if exc is not None else "not-converged")
            outs.append(dict(name=name, it=len(en), exc=type(exc).__name__ if exc else None, fired=fired, e=[float(x) for x in en]))
            if exc is not None and not fired and not (isinstance(exc, (RuntimeError, AssertionError, np.linalg.LinAlgError)) or k):
                viol.append(dict(cls="error", text="run %d without faults raised %r" % (k, WL.OpError(exc)), where=wh))
            if len(en) > maxiter:
                viol.append(dict(cls="iterations", text="run %d: %d iterations, allowed are %d" % (k, len(en), maxiter), where=wh))
            met = [False] * len(en)
            if len(dms) == len(en) or (exc is not None and len(dms) >= len(en)):
                t = 1 - sc.damping
                for i in range(1, len(en)):
                    de = abs(en[i] - en[i - 1])
                    dd = abs(dms[i] - dms[i - 1]).max() / (1 if uhf else 2)
                    met[i] = bool(de < t * sc.etol and dd < t * sc.dtol)
            elif exc is None:
                met = None
            if exc is not None:
                if sc.converged:
                    viol.append(dict(cls="false-converged", text="run %d raised %r, but converged is True" % (k, exc), where=wh))
                break_ok = True
                continue
            if met is None:
                continue
            last = met[-1] if met else False
            if bool(sc.converged) != last:
                viol.append(
                    dict(
                        cls="false-converged" if sc.converged else "false-not-converged",
                        text="run %d: converged=%r, but the last of %d iterations %s the criterion (energies %s)" % (k, sc.converged, len(en), "met" if last else "did not meet", en[-2:]),
                        where=wh,
                    )
                )
            if any(met[:-1]):
                viol.append(dict(cls="iterations", text="run %d went on after the criterion was met in iteration %d of %d" % (k, met.index(True) + 1, len(en)), where=wh))
            if not sc.converged and len(en) < maxiter:
                viol.append(dict(cls="iterations", text="run %d stopped without convergence after %d of %d iterations" % (k, len(en), maxiter), where=wh))
        return self.finish(spec, viol, outs, sf)

    def run_dmet(self, spec, emb, sf):
        deltas, calls = [], []
        orig = emb.update_vcorr

        def update_vcorr(*args, **kwargs):
            old = np.array(emb.vcorr)
            v = orig(*args, **kwargs)
            if v is None:
                raise Aborted("correlation-potential fit failed")
            deltas.append(float(np.linalg.norm(v - old)))
            return v

        emb.update_vcorr = update_vcorr
        viol, outs = [], []
        wh = dict(loop="dmet")
        o = spec["d"]["opts"]
        for k, run in enumerate(spec["runs"]):
            deltas[:] = []
            sf.begin(run["plan"])
            sf.calls.clear()
            exc = None
            try:
                emb.kernel()
            except (Exception, KeyboardInterrupt) as e:
                exc = e
            fired = len(sf.fired_on(0))
            outs.append(dict(name="converged" if emb.converged else ("raised" if exc else "not-converged"), it=len(deltas), exc=type(exc).__name__ if exc else None, fired=fired, d=list(deltas)))
            if exc is not None:
                if emb.converged:
                    viol.append(dict(cls="false-converged", text="run %d raised %r, but converged is True" % (k, exc), where=wh))
                if not fired and k == 0 and not isinstance(exc, (Aborted, RuntimeError, ValueError)):
                    viol.append(dict(cls="error", text="run %d without faults raised %r" % (k, WL.OpError(exc)), where=wh))
                continue
            if len(deltas) > o["maxiter"]:
                viol.append(dict(cls="iterations", text="run %d: %d iterations, allowed are %d" % (k, len(deltas), o["maxiter"]), where=wh))
            if not deltas:
                continue
            met = [x < o["conv_tol"] for x in deltas]
            frag_ok = all(f.results.converged for f in emb.fragments if f._results is not None)
            if bool(emb.converged) != (met[-1] and frag_ok):
                viol.append(
                    dict(
                        cls="false-converged" if emb.converged else "false-not-converged",
                        text="run %d: converged=%r, but the change of the correlation potential in the last of %d iterations was %.3e (threshold %.1e), fragments converged: %r" % (k, emb.converged, len(deltas), deltas[-1], o["conv_tol"], frag_ok),
                        where=wh,
                    )
                )
            if any(met[:-1]):
                viol.append(dict(cls="iterations", text="run %d went on after the criterion was met" % k, where=wh))
        return self.finish(spec, viol, outs, sf)

    def simplify(self, spec):
        for k in range(len(spec["runs"])):
            if len(spec["runs"]) > 1:
                yield dict(spec, runs=spec["runs"][:k] + spec["runs"][k + 1 :])
            for j in range(len(spec["runs"][k]["plan"])):
                runs = json.loads(json.dumps(spec["runs"]))
                del runs[k]["plan"][j]
                yield dict(spec, runs=runs)

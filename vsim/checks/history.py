"""C09: histories of public operations on long-lived objects against newly created objects with the same settings."""

import gc
import json
import os
import pickle

import numpy as np

from .. import engine, solo, workloads as WL
from .parallel import dm_ops, energy_ops, is_uhf, random_config


def forked(fn):
    """fn() in a copy of this process."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 1
        try:
            os.close(r)
            data = pickle.dumps(fn())
            with os.fdopen(w, "wb") as f:
                f.write(data)
            code = 0
        finally:
            os._exit(code)
    os.close(w)
    with os.fdopen(r, "rb") as f:
        data = f.read()
    _, st = os.waitpid(pid, 0)
    if st or not data:
        raise RuntimeError("reference process ended with status %d" % st)
    return pickle.loads(data)


def key(x):
    return json.dumps(x, sort_keys=True)


def merge(a, b):
    """Settings after a change of options (dictionaries are merged, as in the constructor)."""
    out = json.loads(json.dumps(a))
    for k, v in b.items():
        if isinstance(v, dict) and isinstance(out.get(k), dict):
            out[k].update(v)
        else:
            out[k] = v
    return out


def scribble(x):
    """The caller overwrites the arrays which it received."""
    if isinstance(x, np.ndarray):
        if x.flags.writeable and x.size:
            x[...] = 17.25
            return 1
        return 0
    if isinstance(x, (tuple, list)):
        return sum(scribble(y) for y in x)
    return 0


def rotated(emb, k):
    """k-th alternative set of orthonormal orbitals with the same occupation, as (coefficients)."""

    def rot(c, seed):
        n = c.shape[-1]
        rng = np.random.RandomState(1000 * k + seed)
        a = rng.uniform(-1, 1, (n, n)) * (0.03 if k % 2 else 0.08)
        a = a - a.T
        import scipy.linalg

        return np.dot(c, scipy.linalg.expm(a))

    c = emb._mf_orig.mo_coeff
    if isinstance(c, (tuple, list)) or np.ndim(c) == 3:
        return np.asarray([rot(np.asarray(c[0]), 1), rot(np.asarray(c[1]), 2)])
    return rot(c, 1)


def option_changes(rng, d):
    s = d["solver"]
    out = [dict(store_eris=False), dict(global_frag_chempot=0.02), dict(global_frag_chempot=-0.05), dict(dm_with_frozen=True)]
    if d["cls"] == "EWF":
        if s in ("CCSD", "MP2"):
            out += [dict(energy_functional="dm-t2only"), dict(energy_functional="wf"), dict(t_as_lambda=True), dict(t_as_lambda=None)]
            out += [dict(energy_functional="dm")]
        if s in ("CCSD", "TCCSD"):
            out += [dict(solver_options=dict(solve_lambda=False)), dict(solver_options=dict(solve_lambda=True)), dict(calc_e_dm_corr=True)]
        if d["kind"] not in ("latt",):
            out += [dict(bath_options=b) for b in (dict(bathtype="dmet"), dict(bathtype="mp2", threshold=1e-3), dict(bathtype="full"))] * 2
    return rng.choice(out)


class C09(engine.Check):
    id = "C09"
    sizes = [1]
    quick_runs = 420
    quick_wall = 48
    thorough_runs = 50000
    thorough_wall = 1500
    tol = 1e-8
    per_program = 5
    rule = (
        "a run = a seeded history of 6..22 public operations (kernel, energy / density-matrix / amplitude queries, reset, changes of "
        "options, mean-field updates, overwriting of returned arrays, deletion and re-creation) on one or two embedding objects which "
        "share a mean field; non-trivial = the history has more than construction, kernel and one query; distinct = distinct history"
    )
    real = ["all of vayesta", "pyscf, numpy, scipy"]
    stub = ["clock (simulated)"]
    assumptions = [
        "a new object which gets the settings directly, runs once and answers one query is right (it is the reference)",
        "self-consistent loops, which continue from their current state by design, are not part of the histories",
    ]

    def prepare(self, ctx):
        ctx.mfs = WL.MeanFields(["h2", "h4", "h4b", "h5u", "h3u", "h6ring", "h4df", "lih", "h4us", "h3udf", "h4t", "pbc", "pbcu"])

    # ------------------------------------------------------------------ generation
    def config(self, rng):
        if rng.random() < 0.1:
            d = dict(cls="DMET", mf=rng.choice(["h4", "lih", "h6ring"]), solver=rng.choice(["CCSD", "MP2", "FCI"]), kind="dmet", bath=dict(bathtype="dmet"))
            d["frag"] = dict(kind=rng.choice(["sao", "iao"]))
            d["opts"] = dict(oneshot=True, maxiter=1)
            return d
        if rng.random() < 0.1:
            d = dict(cls="EWF", mf=rng.choice(["h4", "h4us"]), solver="CCSD", kind="ext", bath=rng.choice([dict(bathtype="full"), dict(bathtype="dmet")]))
            d["frag"] = dict(kind="iao", ext=dict(atoms=[[0, 1], [2, 3]], type=rng.choice(["tailor", "tailor", "delta-tailor", "external"]), proj=rng.choice([0, 1, 1, 2])))
            if d["frag"]["ext"]["type"] == "external":
                d["mf"] = "h4"
            return d
        d = random_config(rng, solvers=["CCSD", "CCSD", "CCSD", "CCSD", "FCI", "MP2", "CISD", "TCCSD"])
        if d["solver"] == "TCCSD" and is_uhf(d):
            d["solver"] = "CCSD"
        if d["mf"] in ("lih", "beh2", "h6"):
            d["mf"], d["frag"], d["kind"] = "h4", dict(kind="iao"), "rhf"
        if d["bath"].get("bathtype") == "r2" or "order" in d["bath"]:
            d["bath"] = dict(bathtype="dmet")
        return d

    def queries(self, rng, d, opts):
        if d["cls"] == "DMET":
            return [["call", "make_rdm1", {}], ["call", "make_rdm2", {}], ["attr", "e_tot"]]
        q = energy_ops(rng, d) + dm_ops(rng, d, 1) + [["attr", "e_tot"], ["attr", "e_corr"], ["attr", "converged"], ["call", "get_e_corr", {}]]
        q += [["call", "make_rdm1", {}]] * 3
        if d["solver"] in ("CCSD", "TCCSD"):
            q += [["call", "get_corrfunc", dict(kind=k)] for k in ("Sz,Sz", "N,N", "dN,dN")]
        for x in q:
            if len(x) > 2:
                x[2].pop("mpi_target", None)
        return q

    def spec(self, rng, i, tier):
        prng = engine.stable_rng("prog", self.id, i // self.per_program, self.seed)
        if i == 0:
            # The recorded finding
            d = dict(cls="EWF", mf="h4", solver="TCCSD", kind="rhf", frag=dict(kind="iao"), bath=dict(bathtype="full"))
            return dict(ds=[d], hist=[["kernel", 0], ["mf", 0, 1], ["kernel", 0], ["q", 0, ["attr", "e_tot"]]])
        ds = [self.config(prng)]
        if prng.random() < 0.4:
            e = self.config(prng)
            if prng.random() < 0.6:
                # the same mean-field object
                e = json.loads(json.dumps(ds[0]))
                if prng.random() < 0.5 and e["cls"] == "EWF" and e["kind"] not in ("latt", "sec"):
                    e["bath"] = dict(bathtype="dmet") if e["bath"] != dict(bathtype="dmet") else dict(bathtype="full")
            ds.append(e)
        menu = []
        for d in ds:
            m = dict(opts=[option_changes(prng, d) for _ in range(3)], q=[])
            qs = self.queries(prng, d, None)
            prng.shuffle(qs)
            m["q"] = qs[:3]
            m["mf"] = prng.randint(1, 6) if d["kind"] in ("rhf", "uhf", "ext") and d["cls"] == "EWF" and not d["frag"].get("rot") else None
            menu.append(m)
        nops = rng.choice([5, 8, 8, 12, 16] if tier == "quick" else [5, 8, 12, 16, 22])
        hist, has, left = [], [False] * len(ds), 6
        # Most histories come back to one question, and to one kind of change
        fav = [rng.choice(m["q"]) for m in menu]
        fopt = [rng.choice(m["opts"]) for m in menu]
        loyal = rng.choice([0.2, 0.7, 0.9])
        for _ in range(nops):
            w = rng.randrange(len(ds))
            m = menu[w]
            if not has[w]:
                a = rng.choice(["kernel"] * 6 + ["opts", "mf", "reset", "off"])
            else:
                a = rng.choice(["q"] * 5 + ["kernel"] * 3 + ["opts"] * 3 + ["reset", "mf", "new", "scribble", "scribble", "off"])
            if a == "q" or a == "scribble":
                if left == 0:
                    continue
                left -= 1
                hist.append([a, w, fav[w] if rng.random() < loyal else rng.choice(m["q"])])
            elif a == "kernel":
                hist.append([a, w])
                has[w] = True
            elif a == "opts":
                hist.append([a, w, fopt[w] if rng.random() < loyal else rng.choice(m["opts"])])
            elif a == "mf" and m["mf"] is not None:
                hist.append([a, w, rng.choice([0, m["mf"]])])
                has[w] = False
            elif a == "off" and ds[w]["kind"] in ("rhf", "uhf") and ds[w]["cls"] == "EWF":
                hist.append([a, w, rng.choice([[], [], [0], [1], [0, 1]])])
                has[w] = False
            elif a in ("reset", "new"):
                hist.append([a, w] if a == "reset" else [a, w, rng.random() < 0.5])
                has[w] = False
        for w in range(len(ds)):
            if has[w]:
                hist.append(["q", w, fav[w] if rng.random() < loyal else rng.choice(menu[w]["q"])])
        return dict(ds=ds, hist=hist)

    # ------------------------------------------------------------------ reference: direct path to the same settings
    def plan(self, spec):
        """For each query of the history: the reference which decides it."""
        st = [dict(opts={}, mf=0, off=[], k=None, late=[]) for _ in spec["ds"]]
        out = []
        self.other_mf = {}
        for h in spec["hist"]:
            s = st[h[1]]
            if h[0] == "opts":
                s["opts"] = merge(s["opts"], h[2])
                s["late"].append(h[2])
            elif h[0] == "mf":
                s["mf"], s["k"] = h[2], None
            elif h[0] == "reset":
                s["k"] = None
            elif h[0] == "off":
                s["off"], s["k"] = h[2], None
            elif h[0] == "new":
                s["k"] = None
                s["mf"], s["off"], s["seen"] = 0, [], []
                if not h[2]:
                    s["opts"] = {}
            elif h[0] == "kernel":
                s["k"] = dict(opts=s["opts"], mf=s["mf"], off=s["off"])
                s["late"] = []
                s["seen"] = s.get("seen", []) + [s["mf"]]
            if h[0] in ("q", "scribble"):
                late = {}
                for x in s["late"]:
                    late = merge(late, x)
                out.append(None if s["k"] is None else dict(d=spec["ds"][h[1]], k=s["k"], late=late, q=h[2]))
                if out[-1] is not None:
                    # Runs of this object with another mean field before
                    self.other_mf[len(out) - 1] = any(m != s["k"]["mf"] for m in s["seen"])
            else:
                out.append(None)
        return out

    def refs(self, spec):
        return []

    def make(self, mf, d, opts):
        dd = {k: v for k, v in d.items() if k != "kind"}
        emb = WL.make_emb(None, dict(dd, _mf=mf))
        if opts:
            emb.change_options(**json.loads(json.dumps(opts)))
        return emb

    @staticmethod
    def switch(emb, off):
        """Fragments which do not take part."""
        if len(emb.fragments) > 1:
            for i, x in enumerate(emb.fragments):
                x.active = i not in off

    @staticmethod
    def update(emb, k):
        c = rotated(emb, k) if k else np.asarray(emb._mf_orig.mo_coeff).copy()
        emb.update_mf(c)
        emb.reset()

    @staticmethod
    def query(emb, q):
        if q[0] == "attr":
            return getattr(emb, q[1])
        return getattr(emb, q[1])(**(q[2] if len(q) > 2 else {}))

    def references(self, plan, ctx):
        """Answers of newly created objects: one process per set of settings, which runs the calculation, and one copy of it
        per question."""
        groups = {}
        for r in plan:
            if r is not None:
                groups.setdefault(key([r["d"], r["k"]]), {})[key(r)] = r
        out = {}
        for g in groups.values():
            out.update(forked(lambda: self.group(list(g.values()), ctx)))
        return out

    def group(self, asks, ctx):
        d, k = asks[0]["d"], asks[0]["k"]
        with ctx.universes[1][0] as u:
            u.redirect_logs(ctx.scratch, 60)
            try:
                emb = self.make(ctx.mfs.get(d["mf"]), d, k["opts"])
                self.switch(emb, k["off"])
                if k["mf"]:
                    self.update(emb, k["mf"])
                emb.kernel()
            except Exception as e:
                return {key(r): WL.OpError(e) for r in asks}

            def one(r):
                try:
                    if r["late"]:
                        emb.change_options(**r["late"])
                    return WL.plain(self.query(emb, r["q"]))
                except Exception as e:
                    return WL.OpError(e)

            return {key(r): forked(lambda: one(r)) for r in asks}

    # ------------------------------------------------------------------ the history
    def run(self, spec, decisions, refs, ctx):
        plan = self.plan(spec)
        u = ctx.universes[1][0]
        viol, outs, stats = [], [], {}
        refs = self.references(plan, ctx)
        with u:
            u.redirect_logs(ctx.scratch, 60)
            mfs, embs, opts = {}, [], [{} for _ in spec["ds"]]
            for d in spec["ds"]:
                mf = mfs.setdefault(d["mf"], ctx.mfs.get(d["mf"]))
                embs.append(self.make(mf, d, {}))
            dead = set()
            done = []
            for n, (h, r) in enumerate(zip(spec["hist"], plan)):
                a, w = h[0], h[1]
                if w in dead:
                    continue
                d = spec["ds"][w]
                text = "%s%s" % (a, json.dumps(h[2:]) if len(h) > 2 else "")
                wh = dict(op=h[2][1] if a in ("q", "scribble") else a, cls=d["cls"], kind=d["kind"], solver=d["solver"], other_mf_before=self.other_mf.get(n, False))
                stats["op:" + a] = stats.get("op:" + a, 0) + 1
                try:
                    if a == "kernel":
                        embs[w].kernel()
                    elif a == "reset":
                        embs[w].reset()
                    elif a == "opts":
                        opts[w] = merge(opts[w], h[2])
                        embs[w].change_options(**json.loads(json.dumps(h[2])))
                    elif a == "mf":
                        self.update(embs[w], h[2])
                    elif a == "off":
                        self.switch(embs[w], h[2])
                    elif a == "new":
                        embs[w] = None
                        gc.collect()
                        if not h[2]:
                            opts[w] = {}
                        embs[w] = self.make(mfs[d["mf"]], d, opts[w])
                    elif r is not None:
                        want = refs[key(r)]
                        try:
                            got = self.query(embs[w], h[2])
                        except Exception as e:
                            got = WL.OpError(e)
                        p = WL.plain(got)
                        outs.append(p)
                        if isinstance(want, WL.OpError):
                            stats["query-refused"] = stats.get("query-refused", 0) + 1
                            continue
                        dd = WL.diff(p, want, 3e-5 if d["solver"] in ("FCI", "TCCSD") or d["kind"] == "ext" else self.tol)
                        if dd:
                            viol.append(dict(cls="history", text="object %d (%s %s): %s after [%s]: %s" % (w, d["cls"], d["solver"], text, "; ".join(done), dd), where=wh))
                            break
                        if a == "scribble" and not isinstance(got, WL.OpError):
                            stats["overwritten"] = stats.get("overwritten", 0) + scribble(got)
                except Exception as e:
                    # An operation which a new object refuses as well ends the history of this object
                    refused = self.refused(spec, h, opts[w], ctx)
                    if refused:
                        dead.add(w)
                        stats["op-refused"] = stats.get("op-refused", 0) + 1
                        continue
                    viol.append(dict(cls="error", text="object %d: %s after [%s] raises %r" % (w, text, "; ".join(done), WL.OpError(e)), where=wh))
                    break
                done.append("%d:%s" % (w, text))
        stats["queries"] = len(outs)
        for d in spec["ds"]:
            stats["config:%s:%s:%s" % (d["cls"], d["solver"], d["kind"])] = 1
        return solo.outcome(viol, outs, stats, key(spec), nontrivial=len(spec["hist"]) > 2 and len(outs) > 0, sample=spec)

    def refused(self, spec, h, opts, ctx):
        d = spec["ds"][h[1]]
        try:
            emb = self.make(ctx.mfs.get(d["mf"]), d, {} if h[0] == "opts" else opts)
            if h[0] == "opts":
                emb.change_options(**h[2])
            elif h[0] == "mf":
                self.update(emb, h[2])
            elif h[0] == "kernel":
                emb.kernel()
        except Exception:
            return True
        return False

    def simplify(self, spec):
        for n in range(len(spec["hist"])):
            if len(spec["hist"]) > 1:
                yield dict(spec, hist=spec["hist"][:n] + spec["hist"][n + 1 :])

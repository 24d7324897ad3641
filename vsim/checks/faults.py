"""C08: failures and interruptions at any call inside an operation, then a repetition on the same objects."""

import json

import numpy as np

from .. import engine, inject, solo, workloads as WL, world as W
from .parallel import is_uhf, random_config, energy_ops, dm_ops


def freeze(x, depth=0):
    """A comparable image of an attribute."""
    if isinstance(x, np.ndarray):
        return ("array", x.shape, x.dtype.str, x.tobytes())
    if x is None or isinstance(x, (bool, int, float, complex, str, bytes)):
        return x
    if isinstance(x, (tuple, list)) and depth < 3:
        return (type(x).__name__,) + tuple(freeze(y, depth + 1) for y in x)
    if isinstance(x, dict) and depth < 3:
        return ("dict",) + tuple((str(k), freeze(v, depth + 1)) for k, v in sorted(x.items(), key=lambda kv: str(kv[0])))
    return ("object", id(x))


def mf_state(mf):
    out = {k: freeze(v) for k, v in vars(mf).items()}
    mol = mf.mol
    for k in ("_atm", "_bas", "_env", "nelectron", "spin", "charge", "verbose", "max_memory", "unit", "basis", "atom", "incore_anyway", "cart"):
        if hasattr(mol, k):
            out["mol." + k] = freeze(getattr(mol, k))
    for name in ("get_hcore", "get_veff", "get_ovlp", "get_fock", "make_rdm1", "kernel"):
        f = getattr(mf, name, None)
        out["method." + name] = getattr(getattr(f, "__func__", f), "__qualname__", None)
    return out


def emb_state(emb):
    out = dict(opts=repr(emb.opts), solver=emb.solver)
    for f in emb.fragments:
        out["fragment %r" % f.id] = (f.name, freeze(f.c_frag), repr(f.opts), bool(f.active), getattr(f.sym_parent, "id", None))
    return out


def global_state(u):
    import pyscf.lib

    return dict(errstate=repr(sorted(np.geterr().items())), threads=pyscf.lib.num_threads())


def delta(a, b):
    for k in sorted(set(a) | set(b), key=str):
        if k not in a:
            return "%s appeared" % k
        if k not in b:
            return "%s disappeared" % k
        if a[k] != b[k]:
            x, y = a[k], b[k]
            return "%s changed%s" % (k, "" if len(repr(x)) + len(repr(y)) > 300 else ": %r -> %r" % (x, y))
    return None


class C08(engine.Check):
    id = "C08"
    sizes = [1]
    quick_runs = 700
    quick_wall = 55
    thorough_runs = 50000
    thorough_wall = 1500
    tol = 1e-8
    rule = (
        "a run = a history of operations (construction, fragmentation, kernel, queries) in which 1..3 operations are broken by an "
        "exception at one call (site and occurrence drawn from the calls seen in an undisturbed run), each followed by state checks "
        "and a repetition of the operation; non-trivial = a fault fired; distinct = distinct (set-up, operation, call site, occurrence, exception)"
    )
    real = ["all of vayesta", "pyscf, numpy, scipy"]
    stub = ["clock (simulated)"]
    assumptions = [
        "exceptions are raised at the entry of functions called from the package (library functions, array methods and its own functions), not between byte codes of clean-up code",
        "self-consistent loops continue from their current state when repeated, so only one-shot results are compared",
    ]

    def prepare(self, ctx):
        ctx.mfs = WL.MeanFields(["h2", "h4", "h4b", "h3u", "h5u", "h4df", "h6ring", "lih", "pbc", "h3udf", "beh2", "h4us", "h6", "h4t"])

    def config(self, rng):
        kind = rng.choice(["ewf"] * 7 + ["pbc", "dmet", "loop", "loop"])
        if kind == "dmet":
            d = dict(cls="DMET", mf=rng.choice(["h4", "lih", "h6ring"]), solver=rng.choice(["CCSD", "MP2", "FCI"]), kind="dmet", bath=dict(bathtype="dmet"))
            d["frag"] = dict(kind=rng.choice(["sao", "iao"]))
            d["opts"] = dict(oneshot=True, maxiter=1)
            return d
        allow = ("pbc",) if kind == "pbc" else ("rhf", "uhf", "ring", "sec")
        d = random_config(rng, allow=allow, solvers=["CCSD", "CCSD", "CCSD", "FCI", "MP2", "CISD"])
        if d["mf"] == "pbcu":
            d["mf"] = "pbc"
        if kind == "loop":
            d["loop"] = rng.choice(["pdmet", "brueckner", "chempot"])
            d["solver"] = "CCSD"
            if d["mf"] in ("h6ring", "h5u", "h4t"):
                d["mf"], d["frag"] = "h4", dict(kind="iao")
            d["bath"] = dict(bathtype="dmet")
        return d

    def spec(self, rng, i, tier):
        prng = engine.stable_rng("prog", self.id, i // 10, self.seed)
        d = self.config(prng)
        ops = [["construct"], ["frag"], ["kernel"]]
        if d.get("loop"):
            ops.insert(2, ["loop"])
        nset = len(ops)
        if d["cls"] == "DMET":
            pool = [["call", "make_rdm1", {}], ["call", "make_rdm2", {}], ["attr", "e_tot"]]
        elif d.get("loop"):
            pool = [["call", "make_rdm1", {}], ["call", "get_wf_corr_energy", {}]]
        else:
            pool = energy_ops(prng, d) + dm_ops(prng, d, 1) + [["kernel"], ["kernel"]]
        for op in prng.sample(pool, min(len(pool), prng.randint(1, 4))):
            if len(op) > 2:
                op[2].pop("mpi_target", None)
            ops.append(op)
        faults = []
        for _ in range(rng.choice([1, 1, 1, 2, 3])):
            faults.append(
                dict(
                    op=rng.choice(list(range(nset)) + [nset - 1] * 3 + list(range(nset, len(ops)))),
                    site=rng.random(),
                    occ=rng.random(),
                    exc=rng.choice(["MemoryError", "KeyboardInterrupt", "RuntimeError", "LinAlgError", "OSError"]),
                )
            )
        return dict(d=d, ops=ops, faults=faults, loglevel=rng.choice([60, 60, 20, 1]))

    def refs(self, spec):
        return [dict(d=spec["d"], ops=spec["ops"])]

    # ------------------------------------------------------------------ operations
    def do(self, st, op):
        """st: dict(mf, emb, d)"""
        d = st["d"]
        if op[0] == "construct":
            dd = {k: v for k, v in d.items() if k not in ("frag", "loop", "kind")}
            st["emb"] = WL.make_emb(None, dict(dd, _mf=st["mf"]))
            return None
        emb = st["emb"]
        if op[0] == "frag":
            WL.add_fragments(emb, d["frag"])
            return len(emb.fragments)
        if op[0] == "loop":
            if d["loop"] == "chempot":
                emb.optimize_chempot()
            else:
                getattr(emb, d["loop"] + "_scmf")(maxiter=2)
            return None
        if op[0] == "kernel":
            emb.kernel()
            return (emb.e_tot, emb.converged)
        if op[0] == "call":
            return getattr(emb, op[1])(**(op[2] if len(op) > 2 else {}))
        return getattr(emb, op[1])

    def compute_ref(self, ref, ctx):
        u = ctx.universes[1][0]
        out = []
        with u:
            u.redirect_logs(ctx.scratch, 60)
            st = dict(mf=ctx.mfs.get(ref["d"]["mf"]), d=ref["d"])
            for op in ref["ops"]:
                cf = inject.CallFault()
                try:
                    r = WL.plain(cf.run(lambda: self.do(st, op)))
                except Exception as e:
                    out.append((WL.OpError(e), None))
                    if op[0] in ("construct", "frag", "loop", "kernel"):
                        break
                    continue
                out.append((r, sorted(cf.counts.items())))
        return out

    def run(self, spec, decisions, refs, ctx):
        ref = refs[engine.key_of(self.refs(spec)[0])]
        if isinstance(ref, tuple) or isinstance(ref[-1][0], WL.OpError) and len(ref) < len(spec["ops"]):
            why = ref[1:] if isinstance(ref, tuple) else repr(ref[-1][0])
            return solo.outcome([], [], {"skipped:reference": 1, "skipped:%s" % (why,): 1}, "skip", nontrivial=False)
        u = ctx.universes[1][0]
        viol, outs, fired, stats = [], [], [], {}
        d = spec["d"]
        with u:
            u.redirect_logs(ctx.scratch, spec["loglevel"])
            root = u.vayesta_logger()
            mf = ctx.mfs.get(d["mf"])
            mf0 = mf_state(mf)
            g0 = global_state(u)
            st = dict(mf=mf, d=d)
            disturbed = []
            for i, op in enumerate(spec["ops"]):
                want, counts = ref[i]
                if isinstance(want, WL.OpError):
                    continue
                wh = dict(op=op[1] if op[0] in ("call", "attr") else op[0], cls=d["cls"], loop=d.get("loop"))
                for f in spec["faults"]:
                    if f["op"] != i or not counts:
                        continue
                    key, n = counts[int(f["site"] * len(counts))]
                    occ = int(f["occ"] ** 2 * n)
                    before = emb_state(st["emb"]) if st.get("emb") is not None else {}
                    ind0 = getattr(root, "indentLevel", None)
                    cf = inject.CallFault()
                    name = f["exc"]
                    text = "%s in %s, call %d of %s.%s -> %s.%s" % (name, json.dumps(op), occ, key[0], key[1], key[2], key[3])
                    exc, res = None, None
                    try:
                        res = WL.plain(cf.run(lambda: self.do(st, op), (key, occ), inject.EXC[name]))
                    except (Exception, KeyboardInterrupt) as e:
                        exc = e
                    if cf.fired is None:
                        stats["fault-missed"] = stats.get("fault-missed", 0) + 1
                        continue
                    fired.append(text)
                    stats["fault:%s:%s" % (name, wh["op"])] = stats.get("fault:%s:%s" % (name, wh["op"]), 0) + 1
                    if exc is None:
                        stats["fault-absorbed"] = stats.get("fault-absorbed", 0) + 1
                    dd = delta(mf0, mf_state(mf))
                    if dd:
                        viol.append(dict(cls="mean-field", text="after %s: the caller's mean field: %s" % (text, dd), where=wh))
                    after = emb_state(st["emb"]) if st.get("emb") is not None else {}
                    if exc is not None and op[0] != "construct":
                        dd = delta(before, after)
                        if dd:
                            viol.append(dict(cls="options", text="after %s: embedding %s" % (text, dd), where=wh))
                    ind = getattr(root, "indentLevel", None)
                    if ind != ind0:
                        viol.append(dict(cls="indent", text="after %s: log indentation %r, was %r" % (text, ind, ind0), where=wh))
                    dd = delta(g0, global_state(u))
                    if dd:
                        viol.append(dict(cls="global", text="after %s: %s" % (text, dd), where=wh))
                    if viol:
                        break
                    disturbed.append(text)
                if viol:
                    break
                # the operation, undisturbed
                try:
                    r = WL.plain(self.do(st, op))
                except Exception as e:
                    viol.append(dict(cls="repeat-error", text="%s after [%s] raises %r" % (json.dumps(op), "; ".join(disturbed), WL.OpError(e)), where=wh))
                    break
                outs.append(r)
                if d.get("loop") and disturbed:
                    continue
                tol = 3e-5 if d["solver"] == "FCI" else self.tol
                dd = WL.diff(r, want, tol)
                if dd:
                    viol.append(dict(cls="repeat-value", text="%s after [%s]: %s" % (json.dumps(op), "; ".join(disturbed), dd), where=wh))
                    break
                dd = delta(mf0, mf_state(mf))
                if dd:
                    viol.append(dict(cls="mean-field", text="after %s: the caller's mean field: %s" % (json.dumps(op), dd), where=wh))
                    break
        stats["operations"] = len(outs)
        stats["config:%s:%s:%s" % (d["cls"], d["solver"], d.get("loop") or d.get("kind"))] = 1
        sample = dict(d=d, ops=spec["ops"], faults=fired)
        return solo.outcome(viol, outs, stats, json.dumps([d, spec["ops"], fired]), nontrivial=bool(fired), sample=sample)

    def simplify(self, spec):
        for k in range(len(spec["faults"])):
            if len(spec["faults"]) > 1:
                yield dict(spec, faults=spec["faults"][:k] + spec["faults"][k + 1 :])
        n = len(spec["ops"])
        for i in range(n - 1, 3 if spec["d"].get("loop") else 2, -1):
            if all(f["op"] != i for f in spec["faults"]):
                yield dict(
                    spec,
                    ops=spec["ops"][:i] + spec["ops"][i + 1 :],
                    faults=[dict(f, op=f["op"] - 1) if f["op"] > i else f for f in spec["faults"]],
                )
        if spec["loglevel"] != 60:
            yield dict(spec, loglevel=60)

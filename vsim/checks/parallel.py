"""C01, C02, C03: the same program on simulated MPI processes and serially."""

import json

from .. import engine, spmd, workloads as WL

# ------------------------------------------------------------------------------------------------ programs

RHF_MFS = ["h4", "h4b", "h6", "h4df", "h4df", "lih", "beh2", "h2"]
UHF_MFS = ["h5u", "h4t", "h3u", "h4us", "h3udf", "h3udf"]


UHF_BATHS = [
    dict(bathtype="dmet"),
    dict(threshold=1e-3),
    dict(threshold=1e-5),
    dict(bathtype="full"),
    dict(threshold_occ=1e-3, threshold_vir=1e-2),
    dict(threshold=1, truncation="number"),
]
RHF_BATHS = UHF_BATHS + [dict(threshold=1e-4), dict(bathtype="ewdmet", order=1), dict(threshold=1e-4, project_dmet_order=0)]


def random_bath(rng, d):
    if WL.MF_SPECS[d["mf"]][0] in ("uhf", "kuhf"):
        return dict(rng.choice(UHF_BATHS))
    f = d.get("frag") or {}
    atomic = all(not isinstance(a, list) for a in f.get("atoms", [])) and not f.get("full")
    return dict(rng.choice(RHF_BATHS + ([dict(bathtype="r2", rcut=1.6)] * 2 if atomic else [])))


def natom(mf):
    kind, atom, _, o = WL.MF_SPECS[mf]
    if kind == "latt":
        return o["nsite"]
    return len(atom) if isinstance(atom, list) else atom.count(";") + 1


def random_config(rng, allow=("rhf", "uhf", "ring", "pbc", "latt", "sec"), solvers=None):
    """One embedding set-up."""
    kinds = [k for k, n in (("rhf", 5), ("uhf", 4), ("ring", 2), ("pbc", 2), ("latt", 1), ("sec", 1)) if k in allow for _ in range(n)]
    kind = rng.choice(kinds)
    d = dict(cls="EWF")
    if kind == "ring":
        d["mf"] = "h6ring"
        d["frag"] = rng.choice(
            [
                dict(kind="iao", atoms=[0], rot=dict(order=6, axis="z")),
                dict(kind="iao", atoms=[0, 1], rot=dict(order=3, axis="z")),
                dict(kind="sao", atoms=[[0, 1]], rot=dict(order=3, axis="z")),
                dict(kind="iao", atoms=[0, 1, 2], rot=dict(order=2, axis="z")),
                dict(kind="iao", atoms=[0, 1, 2], inv=dict(center=[0, 0, 0])),
                dict(kind="iao"),
            ]
        )
    elif kind == "pbc":
        d["mf"] = rng.choice(["pbc", "pbcu"])
        d["frag"] = dict(kind=rng.choice(["iao", "sao"]))
    elif kind == "latt":
        d["mf"] = "hub"
        d["frag"] = dict(kind="site", atoms=rng.choice([[[0, 1], [2, 3], [4, 5]], [0, 1, 2, 3, 4, 5], [[0, 1, 2], [3, 4, 5]]]))
    elif kind == "sec":
        d["mf"] = rng.choice(["h4", "h4b"])
        d["frag"] = dict(kind="iao", sec=dict(bno_threshold_factor=0.1))
    else:
        d["mf"] = rng.choice(RHF_MFS if kind == "rhf" else UHF_MFS)
        n = natom(d["mf"])
        opts = [dict(kind="iao"), dict(kind="iao"), dict(kind="sao")]
        if n >= 3:
            opts.append(dict(kind="iao", atoms=[[0, 1]] + [[i] for i in range(2, n)]))
            opts.append(dict(kind="iao", atoms=[list(range(n // 2)), list(range(n // 2, n))]))
        opts.append(dict(kind="iao", full=True))
        d["frag"] = rng.choice(opts)
    solvers = solvers or ["CCSD", "CCSD", "CCSD", "MP2", "FCI"]
    d["solver"] = rng.choice(solvers)
    if kind == "sec":
        d["solver"] = "CCSD"
        d["bath"] = dict(threshold=1e-3)
    elif kind == "latt":
        d["bath"] = dict(bathtype="dmet")
    elif kind == "pbc":
        d["bath"] = rng.choice([dict(bathtype="dmet"), dict(threshold=1e-4), dict(bathtype="full")])
    else:
        d["bath"] = random_bath(rng, d)
    if d["solver"] == "MP2" and d["mf"] == "hub":
        d["solver"] = "FCI"
    d["kind"] = kind
    if rng.random() < 0.25:
        d["opts"] = rng.choice(
            [
                dict(energy_functional="dm"),
                dict(energy_functional="dm-t2only"),
                dict(energy_functional="dmet"),
                dict(store_eris=False),
                dict(bath_options_dummy=1),
            ]
        )
        d["opts"].pop("bath_options_dummy", None)
    return d


def is_uhf(d):
    return WL.MF_SPECS[d["mf"]][0] in ("uhf", "kuhf")


def energy_ops(rng, d):
    s = d["solver"]
    ops = [
        ["call", "get_wf_energy", {}],
        ["call", "get_wf_corr_energy", {}],
        ["attr", "e_tot"],
        ["attr", "e_mf"],
        ["call", "get_dmet_energy", dict(part_cumulant=rng.random() < 0.5, approx_cumulant=rng.random() < 0.5)],
        ["call", "get_dmet_elec_energy", dict(part_cumulant=rng.random() < 0.5)],
    ]
    if s in ("CCSD", "MP2"):
        ops += [
            ["call", "get_dm_corr_energy", rng.choice([{}, dict(t_as_lambda=True), dict(dm2="global-wf"), dict(dm1="2p1l")][:3])],
            ["call", "get_dm_energy", {}],
            ["call", "get_e_corr", dict(functional="dm-t2only")],
        ]
        if d["bath"].get("threshold"):
            if d["kind"] == "pbc" or d["mf"] in ("h4df", "h3udf"):  # needs density fitting
                ops.append(["call", "get_intercluster_mp2_energy", rng.choice([{}, {}, dict(direct=False), dict(exchange=False)])])
            ops.append(["call", "get_fbc_energy", rng.choice([{}, dict(occupied=False), dict(virtual=False)])])
    if s == "CCSD":
        ops += [
            ["call", "get_ccsd_energy", dict(full_wf=rng.random() < 0.5)],
            ["call", "get_ccsd_corr_energy", dict(full_wf=rng.random() < 0.5)],
            ["call", "get_ccsd_t_corr_energy", rng.choice([{}, dict(project="v")])],
        ]
    return ops


def dm_ops(rng, d, size):
    s = d["solver"]
    t = lambda: rng.choice([{}, {}, dict(mpi_target=0), dict(mpi_target=rng.randrange(size))])
    b = lambda **kw: {k: rng.random() < 0.5 for k in kw}
    ao = lambda: rng.choice([{}, dict(ao_basis=True)])
    ops = [
        ["call", "make_rdm1_demo", dict(**t(), **ao(), with_mf=rng.random() < 0.7)],
        ["call", "make_rdm2_demo", dict(**t(), **ao(), part_cumulant=rng.random() < 0.5, approx_cumulant=rng.random() < 0.5)],
    ]
    if s == "CCSD" or s == "MP2":
        ops += [
            ["call", "make_rdm1", dict(**t(), **ao(), with_mf=rng.random() < 0.7)],
            ["call", "make_rdm2", dict(**t(), **ao())],
            ["call", "get_global_t2", dict(**t(), **ao())],
        ]
    if s == "CCSD":
        ops += [
            ["call", "make_rdm1", dict(**t(), slow=True)],
            ["call", "make_rdm1", dict(**t(), t_as_lambda=True, with_t1=rng.random() < 0.7)],
            ["call", "make_rdm1", dict(**t(), late_t2_sym=rng.random() < 0.5)],
            ["call", "_make_rdm1_ccsd", dict(**t())],
            ["call", "_make_rdm1_ccsd_proj_lambda", dict(**t())],
            ["call", "_make_rdm2_ccsd_global_wf", dict()],
            ["call", "make_rdm2", dict(**t(), with_dm1=rng.random() < 0.5)],
            ["call", "get_global_t1", dict(**t(), **ao())],
            ["call", "get_global_l1", dict(**t())],
            ["call", "get_global_l2", dict(**t())],
            ["call", "t1_diagnostic", {}],
        ]
    return ops


class Parallel(engine.Check):
    sizes = [1, 2, 3, 4]
    modules = None
    tol = 1e-8
    quick_runs = 360
    quick_wall = 75
    thorough_runs = 20000
    thorough_wall = 1500
    per_program = 3
    rule = (
        "a run = one generated SPMD program (embedding set-up + 4..10 public calls) x world size x scheduling and buffering policy x "
        "seeded schedule; non-trivial = at least one context switch between ranks; distinct = distinct global order of "
        "communication events of all ranks (hash)"
    )
    real = ["all of vayesta (one import of the package per rank)", "pyscf, numpy, scipy, h5py", "log file handlers"]
    stub = ["mpi4py (simulated communicator, requests, one-sided windows)", "clock (simulated)"]
    assumptions = [
        "the simulated mpi4py implements the MPI standard's ordering, matching and completion rules",
        "MPI guarantees reliable delivery, so message loss and duplication are not injected",
        "BLAS runs single-threaded and is deterministic",
    ]
    mf_names = [k for k in WL.MF_SPECS]

    def prepare(self, ctx):
        ctx.mfs = WL.MeanFields(self.mf_names)

    def gen_ops(self, rng, d, size):
        raise NotImplementedError

    def config(self, rng):
        return random_config(rng)

    def spec(self, rng, i, tier):
        prng = engine.stable_rng("prog", self.id, i // self.per_program, self.seed)
        sizes = self.sizes[1:]
        size = sizes[i % len(sizes)]
        d = self.config(prng)
        ops = [["new", d], ["kernel"]] + self.gen_ops(prng, d, size)
        return dict(
            ops=ops,
            size=size,
            seed=rng.getrandbits(48),
            policy=spmd.random_policy(rng, size),
            loglevel=rng.choice([60, 60, 60, 20, 1]),
        )

    @staticmethod
    def ref_ops(ops):
        out = []
        for op in ops:
            op = json.loads(json.dumps(op))
            if op[0] == "call" and len(op) > 2:
                op[2].pop("mpi_target", None)
            out.append(op)
        return out

    def refs(self, spec):
        return [dict(ops=self.ref_ops(spec["ops"]))]

    def compute_ref(self, ref, ctx):
        return spmd.serial_reference(ctx, ref["ops"])

    def run(self, spec, decisions, refs, ctx):
        ref = refs[engine.key_of(self.refs(spec)[0])]
        if isinstance(ref, tuple) and ref and ref[0] == "ref-failed":
            return dict(violations=[], decisions=[], stats={"skipped:reference": 1}, digest="", nontrivial=False, key="", simtime=0)
        # Operations which are not supported serially are left out
        bad = [i for i, r in enumerate(ref) if isinstance(r, WL.OpError)]
        ops = [op for op, r in zip(spec["ops"], ref) if not isinstance(r, WL.OpError)]
        ref_all, ref = ref, [r for r in ref if not isinstance(r, WL.OpError)]
        outs = [[] for _ in range(spec["size"])]

        def prog(rank):
            s = WL.Session(ctx.mfs, rank)
            WL.run_program(s, ops, outs[rank])

        w = spmd.run_world(ctx, spec, decisions, prog)
        viol = self.judge(spec, ops, w, outs, ref)
        extra = {"ops": len(ops)}
        for i in bad:
            extra["unsupported:%s:%s" % (self.opname(spec["ops"][i]), ref_all[i].type)] = 1
        for op in ops:
            extra["op:" + self.opname(op)] = extra.get("op:" + self.opname(op), 0) + 1
        sample = dict(size=spec["size"], policy=spec["policy"], ops=spec["ops"], events=len(w.events), decisions=len(w.ch.log))
        return spmd.outcome(w, outs, viol, extra, sample)

    @staticmethod
    def opname(op):
        return op[1] if op[0] in ("call", "attr") else op[0]

    def where(self, spec, op):
        d = spec["ops"][0][1]
        wh = dict(op=self.opname(op), solver=d.get("solver"), uhf=is_uhf(d), kind=d.get("kind"))
        if op[0] == "call" and len(op) > 2:
            wh["kw"] = {k: v for k, v in op[2].items()}
            wh["target"] = "mpi_target" in op[2]
        return wh

    judge_values = True

    def tolerance(self, spec):
        # The FCI solver perturbs its initial guess with random noise, and is converged to 1e-7 or so only
        return 3e-5 if spec["ops"][0][1].get("solver") == "FCI" else self.tol

    def judge(self, spec, ops, w, outs, ref):
        viol = []
        # operation at which the first rank stopped
        idx = min([len(o) for o in outs])
        opi = ops[min(idx, len(ops) - 1)]
        for r in range(w.size):
            if w.errors[r] is not None:
                opi = ops[min(len(outs[r]) - 1, len(ops) - 1)]
        wh = self.where(spec, opi)
        if w.violation is not None or any(e is not None for e in w.errors):
            viol += spmd.world_violations(w, wh)
            for v in viol:
                v["text"] += " [during %s]" % (opi,)
        if self.judge_values:
            for i, op in enumerate(ops):
                target = op[2].get("mpi_target") if op[0] == "call" and len(op) > 2 else None
                for r in range(w.size):
                    if len(outs[r]) <= i or isinstance(outs[r][i], WL.OpError):
                        continue
                    if target is not None and r != target:
                        continue
                    dd = WL.diff(outs[r][i], ref[i], self.tolerance(spec))
                    if dd:
                        viol.append(
                            dict(
                                cls="value:" + self.opname(op),
                                text="%s on rank %d of %d differs from the serial result: %s" % (json.dumps(op), r, w.size, dd),
                                where=self.where(spec, op),
                            )
                        )
                        break
        return viol

    def simplify(self, spec):
        n = len(spec["ops"])
        for i in range(n - 1, 1, -1):
            yield dict(spec, ops=spec["ops"][:i] + spec["ops"][i + 1 :])
        if spec["size"] > 2:
            ops = json.loads(json.dumps(spec["ops"]))
            for op in ops:
                if op[0] == "call" and len(op) > 2 and op[2].get("mpi_target", 0) >= spec["size"] - 1:
                    op[2]["mpi_target"] = 0
            yield dict(spec, size=spec["size"] - 1, ops=ops)
        if spec["loglevel"] != 60:
            yield dict(spec, loglevel=60)
        plain = dict(sched="sticky", p_sync_coll=0.0, p_sync_send=0.0, p_defer_rma=0.0, p_reorder=0.0)
        for k, v in plain.items():
            if spec["policy"].get(k) != v:
                p = dict(spec["policy"])
                p[k] = v
                p.pop("victim", None)
                yield dict(spec, policy=p)


class C01(Parallel):
    id = "C01"

    def gen_ops(self, rng, d, size):
        pool = energy_ops(rng, d)
        return rng.sample(pool, min(len(pool), rng.randint(4, 10)))


class C02(Parallel):
    id = "C02"

    def gen_ops(self, rng, d, size):
        pool = dm_ops(rng, d, 2)
        return rng.sample(pool, min(len(pool), rng.randint(4, 9)))


class C03(Parallel):
    id = "C03"
    judge_values = False

    def gen_ops(self, rng, d, size):
        pool = dm_ops(rng, d, 2) + energy_ops(rng, d)
        ops = rng.sample(pool, min(len(pool), rng.randint(4, 9)))
        if rng.random() < 0.3:
            ops.insert(rng.randrange(len(ops)), ["kernel"])
        return ops

"""C12: clusters dumped to HDF5 files on a simulated disk, with faults at every operation of the disk and of the package."""

import json
import os

import numpy as np

from .. import engine, inject, solo, spmd, workloads as WL
from ..disk import DISK, in_child, install
from .parallel import random_bath, random_config

KINDS = ["h5-open", "h5-group", "h5-group-done", "h5-dataset", "h5-dataset-done", "h5-attr", "h5-attr-done"]


def raw_file(path):
    """The file as another program sees it."""
    import h5py._hl.files

    return h5py._hl.files.File.__mro__[1](path, "r")


def integrals(mf, c, nocc):
    """One- and two-body integrals of a cluster with orbitals c of a molecule, from PySCF alone."""
    import pyscf.ao2mo

    mol = mf.mol

    def eris(c1, c2):
        dfo = getattr(mf, "with_df", None)
        if dfo is not None:
            e = dfo.ao2mo((c1, c1, c2, c2), compact=False)
        else:
            e = pyscf.ao2mo.kernel(mol, (c1, c1, c2, c2), compact=False)
        return e.reshape(c1.shape[-1], c1.shape[-1], c2.shape[-1], c2.shape[-1])

    f = mf.get_fock()
    if not isinstance(c, tuple):
        fock = c.T @ f @ c
        e = eris(c, c)
        n = nocc
        heff = fock - 2 * np.einsum("iipq->pq", e[:n, :n]) + np.einsum("iqpi->pq", e[:n, :, :, :n])
        return dict(heff=heff, fock=fock, eris=e)
    ca, cb = c
    fa, fb = ca.T @ f[0] @ ca, cb.T @ f[1] @ cb
    aa, ab, bb = eris(ca, ca), eris(ca, cb), eris(cb, cb)
    na, nb = nocc
    ha = fa - np.einsum("iipq->pq", aa[:na, :na]) - np.einsum("pqii->pq", ab[:, :, :nb, :nb]) + np.einsum("ipqi->pq", aa[:na, :, :, :na])
    hb = fb - np.einsum("iipq->pq", bb[:nb, :nb]) - np.einsum("iipq->pq", ab[:na, :na]) + np.einsum("ipqi->pq", bb[:nb, :, :, :nb])
    return dict(heff_a=ha, heff_b=hb, fock_a=fa, fock_b=fb, eris_aa=aa, eris_ab=ab, eris_bb=bb)


SPACES = ("c_cluster", "c_dmet_cluster")


def expected(emb, x):
    """What the entry of fragment x must hold. Orbitals which are defined up to a rotation: the projectors onto the occupied
    and the virtual ones."""
    cl, b = x.cluster, x._dmet_bath
    uhf = isinstance(cl.c_active, tuple)
    attrs = dict(id=x.id, name=x.name, norb=cl.norb_active, nocc=cl.nocc_active, nvir=cl.nvir_active)
    data = {}
    if uhf:
        for s, l in enumerate("ab"):
            data["c_frag_" + l] = x.c_frag[s]
            data["c_dmet_cluster_" + l] = spaces(np.hstack([b.c_cluster_occ[s], b.c_cluster_vir[s]]), b.c_cluster_occ[s].shape[-1])
            data["c_cluster_" + l] = spaces(cl.c_active[s], cl.nocc_active[s])
        attrs["nocc_dmet_cluster"] = [b.c_cluster_occ[s].shape[-1] for s in range(2)]
        attrs["nvir_dmet_cluster"] = [b.c_cluster_vir[s].shape[-1] for s in range(2)]
        attrs["norb_dmet_cluster"] = [b.c_cluster_occ[s].shape[-1] + b.c_cluster_vir[s].shape[-1] for s in range(2)]
    else:
        data["c_frag"] = x.c_frag
        data["c_dmet_cluster"] = spaces(np.hstack([b.c_cluster_occ, b.c_cluster_vir]), b.c_cluster_occ.shape[-1])
        data["c_cluster"] = spaces(cl.c_active, cl.nocc_active)
        attrs["nocc_dmet_cluster"], attrs["nvir_dmet_cluster"] = b.c_cluster_occ.shape[-1], b.c_cluster_vir.shape[-1]
        attrs["norb_dmet_cluster"] = b.c_cluster_occ.shape[-1] + b.c_cluster_vir.shape[-1]
    return dict(attrs={k: WL.plain(v) for k, v in attrs.items()}, data={k: np.array(v) for k, v in data.items()})


def spaces(c, nocc):
    return np.stack([c[:, :nocc] @ c[:, :nocc].T, c[:, nocc:] @ c[:, nocc:].T])


def matrices(emb, c, nocc):
    """The integrals which belong to the orbitals of an entry."""
    if emb.kcell is None:
        return integrals(emb._mf_orig, c, nocc)
    f = emb.get_fock(with_exxdiv=False)
    if isinstance(c, tuple):
        e = emb.get_eris_array_uhf(c)
        return dict(eris_aa=e[0], eris_ab=e[1], eris_bb=e[2], fock_a=c[0].T @ f[0] @ c[0], fock_b=c[1].T @ f[1] @ c[1])
    return dict(eris=emb.get_eris_array(c), fock=c.T @ f @ c)


def entry(g):
    return dict(
        attrs={k: (v.tolist() if hasattr(v, "tolist") else v) for k, v in g.attrs.items()},
        data={k: np.array(v) for k, v in g.items()},
    )


def entry_diff(got, want, emb, tol):
    for k, v in want["attrs"].items():
        if k not in got["attrs"]:
            return "attribute %s is missing" % k
        a, b = got["attrs"][k], v
        if (list(a) if isinstance(a, (list, tuple)) else a) != (list(b) if isinstance(b, (list, tuple)) else b):
            return "attribute %s is %r, not %r" % (k, a, b)

    def data(k):
        return got["data"].get(k)

    for k, v in want["data"].items():
        if data(k) is None:
            return "data set %s is missing" % k
        a = data(k)
        if k.startswith(SPACES):
            n = want["attrs"]["nocc" + ("_dmet_cluster" if "dmet" in k else "")]
            n = n if np.ndim(n) == 0 else n["ab".index(k[-1])]
            if np.ndim(a) != 2 or a.shape[0] != v.shape[1]:
                return "data set %s has shape %r" % (k, np.shape(a))
            a = spaces(a, n)
        d = WL.diff(a, v, tol)
        if d:
            return "data set %s: %s" % (k, d)
    uhf = "c_cluster_a" in got["data"]
    c = (data("c_cluster_a"), data("c_cluster_b")) if uhf else data("c_cluster")
    n = want["attrs"]["nocc"]
    for k, v in matrices(emb, c, n).items():
        if data(k) is None:
            return "data set %s is missing" % k
        d = WL.diff(data(k), v, tol)
        if d:
            return "data set %s does not belong to the orbitals of the entry: %s" % (k, d)
    return None


class C12(engine.Check):
    id = "C12"
    sizes = [1, 2, 3]
    quick_runs = 900
    quick_wall = 40
    thorough_runs = 60000
    thorough_wall = 1500
    tol = 1e-8
    rule = (
        "a run = a history of dumps of (some of) the clusters of one or two embeddings into up to two HDF5 files of a simulated disk, "
        "with failures of disk operations, failing calls of the package, or death of the process; or a dump of all clusters from 2 or 3 "
        "processes under a random schedule; non-trivial = a fault fired, a file was written twice, or ranks were interleaved; distinct "
        "= distinct history with the faults which fired, or distinct interleaving"
    )
    real = ["all of vayesta", "h5py and HDF5 (on Python file objects)", "the directory of the file system", "pyscf, numpy, scipy"]
    stub = ["MPI library (simulated)", "raw reads and writes of the files (pass through the fault plan)", "file locks of HDF5 (simulated)", "clock"]
    assumptions = [
        "HDF5 itself does not promise that a file survives a failure while it writes its metadata (close, flush): after a failed raw "
        "write only the report of the failure is required, not the content of the file",
        "death of the process leaves what it has written; death of the machine is not simulated",
    ]

    def early(self):
        install()

    def prepare(self, ctx):
        ctx.mfs = WL.MeanFields(["h4", "h4b", "h5u", "h3u", "h4us", "h4df", "h3udf", "lih", "h6ring", "pbc", "pbcu", "h4t", "h2", "h6", "beh2"])

    # ------------------------------------------------------------------ generation
    def config(self, rng):
        d = random_config(rng, allow=("rhf", "rhf", "uhf", "ring", "pbc"), solvers=["DUMP"])
        if d["mf"] in ("h6", "beh2"):
            d["mf"], d["frag"] = "h4", dict(kind="iao")
        return {k: v for k, v in d.items() if k in ("cls", "mf", "frag", "solver", "bath")}

    def spec(self, rng, i, tier):
        prng = engine.stable_rng("prog", self.id, i // 12, self.seed)
        d = self.config(prng)
        if rng.random() < 0.25:
            n = rng.choice([2, 2, 3])
            return dict(mode="mpi", d=d, size=n, seed=rng.randrange(1 << 30), policy=spmd.random_policy(rng, n), own=rng.random() < 0.2, twice=rng.random() < 0.2)
        hist = []
        for _ in range(rng.choice([1, 2, 2, 3, 4, 6])):
            if rng.random() < 0.12:
                hist.append(dict(op="user", file=rng.randrange(2)))
                continue
            h = dict(op="dump", file=rng.choice([0, 0, 0, 1]), fresh=rng.random() < 0.6)
            h["sub"] = None if rng.random() < 0.5 else [rng.random() < 0.5 for _ in range(6)]
            u = rng.random()
            if u < 0.45:
                h["fault"] = dict(kind=rng.choice(KINDS), n=rng.random(), what=rng.choice(["ENOSPC", "EIO", "MemoryError", "KeyboardInterrupt", "die", "die"]))
            elif u < 0.7:
                h["fault"] = dict(kind="call", site=rng.random(), occ=rng.random(), what=rng.choice(["MemoryError", "KeyboardInterrupt", "OSError", "RuntimeError", "LinAlgError"]))
            elif u < 0.78:
                h["fault"] = dict(kind="h5-write", n=rng.random(), what=rng.choice(["ENOSPC", "EIO"]))
            hist.append(h)
        return dict(mode="serial", d=d, hist=hist)

    def refs(self, spec):
        return [dict(d=spec["d"])]

    # ------------------------------------------------------------------ the run
    def make(self, ctx, d, dumpfile, mf=None):
        mf = ctx.mfs.get(d["mf"]) if mf is None else mf
        return WL.make_emb(None, dict(d, _mf=mf, sopts=dict(dumpfile=dumpfile)))

    @staticmethod
    def todo(emb):
        """Fragments which are dumped, in order."""
        return [x for x in emb.fragments if x.active and x.sym_parent is None]

    @staticmethod
    def subset(emb, sub):
        ps = [x for x in emb.fragments if x.sym_parent is None]
        on = {id(x): sub is None or sub[i % len(sub)] for i, x in enumerate(ps)}
        if not any(on.values()):
            on[id(ps[0])] = True
        for x in emb.fragments:
            p = x
            while p.sym_parent is not None:
                p = p.sym_parent
            x.active = on[id(p)]

    def compute_ref(self, ref, ctx):
        u = ctx.universes[1][0]
        with u:
            u.redirect_logs(ctx.scratch, 60)
            DISK.start(os.path.join(ctx.scratch, "disk"))
            cf = inject.CallFault()
            emb = self.make(ctx, ref["d"], DISK.path("ref.h5"))
            cf.run(emb.kernel)
            events = dict(DISK.n)
            DISK.stop()
            out = {x.id: expected(emb, x) for x in emb.fragments if x.sym_parent is None}
        return dict(entries=out, events=events, calls=sorted(cf.counts.items()))

    def run(self, spec, decisions, refs, ctx):
        ref = refs[engine.key_of(self.refs(spec)[0])]
        if isinstance(ref, tuple):
            # An undisturbed serial dump must work
            return solo.outcome(
                [dict(cls="error", text="a dump without faults failed: %s" % (ref[2],), where=dict(mf=spec["d"]["mf"]))], [], {}, "ref", nontrivial=False
            )
        DISK.start(os.path.join(ctx.scratch, "disk"))
        try:
            return (self.run_mpi if spec["mode"] == "mpi" else self.run_serial)(spec, decisions, ref, ctx)
        finally:
            DISK.stop()

    def check_file(self, path, must, may, user, text, where, viol):
        """The file against the model. must: ids of entries which have to be there; may: ids which can be there."""
        try:
            if not os.path.exists(path):
                f = {}
            else:
                f = raw_file(path)
        except OSError as e:
            if must or user:
                viol.append(dict(cls="unreadable", text="%s: the file cannot be read: %s" % (text, e), where=where))
            return
        try:
            try:
                names = list(f)
                for i in sorted(must):
                    if "fragment_%d" % i not in names:
                        viol.append(dict(cls="missing", text="%s: no entry of fragment %d in the file (entries: %s)" % (text, i, names), where=where))
                        return
                for name in names:
                    if name == "notes":
                        if user is None or not np.array_equal(f["notes"][...], np.arange(user)):
                            viol.append(dict(cls="user-data", text="%s: the data of the user have changed" % text, where=where))
                        continue
                    i = int(name.split("_")[-1]) if name.startswith("fragment_") else None
                    if i is None or i not in may:
                        viol.append(dict(cls="extra", text="%s: unexpected entry %r in the file" % (text, name), where=where))
                        return
                    d = entry_diff(entry(f[name]), may[i], self.judge, self.tol)
                    if d:
                        viol.append(
                            dict(cls="entry" if i in must else "partial", text="%s: entry %r: %s" % (text, name, d), where=where)
                        )
                        return
                if user is not None and "notes" not in names:
                    viol.append(dict(cls="user-data", text="%s: the data of the user are gone" % text, where=where))
            except (OSError, RuntimeError, KeyError) as e:
                viol.append(dict(cls="unreadable", text="%s: the file cannot be read: %s" % (text, e), where=where))
        finally:
            if not isinstance(f, dict):
                f.close()

    def run_serial(self, spec, decisions, ref, ctx):
        import h5py

        d, want = spec["d"], ref["entries"]
        u = ctx.universes[1][0]
        viol, stats, fired, outs = [], {}, [], []
        model = [set(), set()]
        maybe = [set(), set()]
        user = [None, None]
        tainted = [False, False]
        paths = [DISK.path("clusters%d.h5" % k) for k in range(2)]
        emb = None
        rewrites = 0
        with u:
            u.redirect_logs(ctx.scratch, 60)
            mf = ctx.mfs.get(d["mf"])
            self.judge = self.make(ctx, d, None)
            for h in spec["hist"]:
                k = h["file"]
                if tainted[k]:
                    continue
                where = dict(op=h["op"], mf=d["mf"])
                if h["op"] == "user":
                    if user[k] is None:
                        user[k] = 7 + len(outs)
                        with h5py.File(paths[k], "a") as f:
                            f["notes"] = np.arange(user[k])
                    continue
                fault = h.get("fault")
                die = fault is not None and fault["what"] == "die"
                plan, target = [], None
                if fault is not None and fault["kind"] == "call":
                    key, n = ref["calls"][int(fault["site"] * len(ref["calls"]))]
                    target = (key, int(fault["occ"] ** 2 * n))
                elif fault is not None:
                    n = ref["events"].get(fault["kind"].replace("-done", ""), 0)
                    plan = [dict(kind=fault["kind"], n=int(fault["n"] * n), what=fault["what"])]
                text = "%s -> file %d [%s]" % ("new object" if h["fresh"] or emb is None else "same object", k, json.dumps(fault))
                if h["fresh"] or emb is None or die:
                    e = self.make(ctx, d, paths[k], mf)
                else:
                    e = emb
                    e.change_options(solver_options=dict(dumpfile=paths[k]))
                    # Options of fragments are set when they are added
                    for x in e.fragments:
                        x.opts.solver_options["dumpfile"] = paths[k]
                self.subset(e, h["sub"])
                ids = [x.id for x in self.todo(e)]
                refused = [i for i in ids if i in model[k]]
                if refused:
                    rewrites += 1
                cf = inject.CallFault()
                exc = None
                DISK.arm(plan)

                def action():
                    if target is not None:
                        cf.run(e.kernel, target, inject.EXC[fault["what"]])
                    else:
                        e.kernel()

                if die:
                    how, why = in_child(action)
                    if how == "died":
                        exc = "died"
                    elif how == "raised":
                        exc = RuntimeError(why)
                else:
                    try:
                        action()
                    except (Exception, KeyboardInterrupt) as x:
                        exc = x
                hit = list(DISK.fired) + ([cf.fired] if cf.fired is not None else []) + (["died"] if exc == "died" else [])
                raw_fault = any(f[0] == "h5-write" for f in DISK.fired)
                DISK.arm([])
                if hit:
                    fired.append((text, str(hit)))
                    stats["fault:%s:%s" % (fault["kind"], fault["what"])] = stats.get("fault:%s:%s" % (fault["kind"], fault["what"]), 0) + 1
                emb = None if die else e
                stats["dump:" + ("died" if exc == "died" else "ok" if exc is None else "refused" if not hit else "failed")] = (
                    stats.get("dump:" + ("died" if exc == "died" else "ok" if exc is None else "refused" if not hit else "failed"), 0) + 1
                )
                outs.append((type(exc).__name__, len(ids)))
                if exc is None:
                    if not refused:
                        model[k] |= set(ids)
                    elif hit == []:
                        # written again: allowed if what is there afterwards is right
                        model[k] |= set(ids)
                else:
                    if not hit and not refused and not (set(ids) & maybe[k]):
                        viol.append(dict(cls="error", text="%s raises %r" % (text, WL.OpError(exc)), where=where))
                        break
                    maybe[k] |= set(ids)
                if raw_fault:
                    stats["raw-fault-" + ("raised" if exc is not None else "quiet")] = 1
                    tainted[k] = True
                    if exc is None:
                        # nothing was reported: then everything has to be there
                        self.check_file(paths[k], model[k], {i: want[i] for i in model[k]}, user[k], text + " (write failed, no error)", where, viol)
                    if viol:
                        break
                    continue
                if exc == "died" and not model[k] and user[k] is None:
                    # a new file which its process did not live to close
                    tainted[k] = True
                    continue
                self.check_file(paths[k], model[k], {i: want[i] for i in model[k] | maybe[k]}, user[k], text, where, viol)
                if viol:
                    break
                # entries of failed dumps which turned out to be complete
                if os.path.exists(paths[k]):
                    with raw_file(paths[k]) as f:
                        model[k] |= {int(n.split("_")[-1]) for n in f if n != "notes"}
                maybe[k] = set()
        for t in [t for t in fired]:
            viol and viol[0].update(text=viol[0]["text"] + "; fault: %s" % t[1])
        stats["entries"] = len(model[0]) + len(model[1])
        stats["written-again"] = rewrites
        stats["config:serial"] = 1
        key = json.dumps([d, spec["hist"], fired])
        sample = dict(d=d, hist=spec["hist"], faults=fired)
        return solo.outcome(viol, outs, stats, key, nontrivial=bool(fired) or rewrites > 0, sample=sample)

    def run_mpi(self, spec, decisions, ref, ctx):
        d, want = spec["d"], ref["entries"]
        outs = [[] for _ in range(spec["size"])]
        path = DISK.path("clusters.h5")

        def prog(rank):
            p = DISK.path("clusters%d.h5" % rank) if spec["own"] else path
            emb = self.make(ctx, d, p)
            emb.kernel()
            outs[rank].append(sorted(x.id for x in self.todo(emb) if x.mpi_rank == rank))
            if spec["twice"]:
                # once more, by a new object into other files
                emb = self.make(ctx, d, p.replace("clusters", "again"))
                emb.kernel()

        w = spmd.run_world(ctx, spec, decisions, prog)
        where = dict(size=spec["size"], mf=d["mf"])
        viol = spmd.world_violations(w, where)
        if not viol:
            with ctx.universes[1][0] as u:
                self.judge = self.make(ctx, d, None)
            for stem in ("clusters", "again") if spec["twice"] else ("clusters",):
                text = "after a dump by %d processes (%s)" % (spec["size"], stem)
                if spec["own"]:
                    for r in range(spec["size"]):
                        ids = outs[r][0]
                        self.check_file(DISK.path("%s%d.h5" % (stem, r)), set(ids), {i: want[i] for i in ids}, None, text, where, viol)
                else:
                    self.check_file(DISK.path(stem + ".h5"), set(want), want, None, text, where, viol)
        return spmd.outcome(w, outs, viol, {"config:mpi": 1}, sample=dict(d=d, size=spec["size"], policy=spec["policy"]))

    def simplify(self, spec):
        if spec["mode"] == "mpi":
            if spec["twice"]:
                yield dict(spec, twice=False)
            if spec["size"] > 2:
                yield dict(spec, size=2, policy={k: v for k, v in spec["policy"].items() if k != "victim"})
            return
        for n in range(len(spec["hist"])):
            if len(spec["hist"]) > 1:
                yield dict(spec, hist=spec["hist"][:n] + spec["hist"][n + 1 :])
        for n, h in enumerate(spec["hist"]):
            if h.get("fault"):
                yield dict(spec, hist=spec["hist"][:n] + [{k: v for k, v in h.items() if k != "fault"}] + spec["hist"][n + 1 :])
            if h.get("sub"):
                yield dict(spec, hist=spec["hist"][:n] + [dict(h, sub=None)] + spec["hist"][n + 1 :])

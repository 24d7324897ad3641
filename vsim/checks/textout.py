"""C16: population and cube files, and saved states, on the simulated disk."""

import gc
import json
import os

import numpy as np

from .. import engine, inject, solo, spmd, workloads as WL
from ..disk import DISK, in_child, install
from .parallel import is_uhf


def sqrt_ovlp(s):
    e, v = np.linalg.eigh(s)
    return (v * np.sqrt(e)) @ v.T


def populations(mf, dm, lo):
    """Populations of the orbitals with AO labels. lo: 'lowdin', 'mulliken' or coefficients."""
    s = mf.get_ovlp()
    if isinstance(lo, str) and lo == "mulliken":
        return np.diag(dm @ s).copy()
    if isinstance(lo, str):
        r = sqrt_ovlp(s)
        return np.diag(r @ dm @ r).copy()
    cs = lo.T @ s
    return np.einsum("ia,ab,ib->i", cs, dm, cs)


def atomic(mol, pops):
    """Charges and spins of the atoms."""
    q, s = np.zeros(mol.natm), np.zeros(mol.natm)
    sl = mol.aoslice_by_atom()
    uhf = np.ndim(pops[0]) == 1
    for a in range(mol.natm):
        i = slice(sl[a, 2], sl[a, 3])
        if uhf:
            q[a] = mol.atom_charge(a) - pops[0][i].sum() - pops[1][i].sum()
            s[a] = pops[0][i].sum() - pops[1][i].sum()
        else:
            q[a] = mol.atom_charge(a) - pops[i].sum()
    return q, s


def parse_entries(text):
    """Complete entries of a population file: list of (atoms, orbitals)."""
    out = []
    for part in text.split("# Time-stamp")[1:]:
        atoms, orbs = [], []
        for line in part.split("\n")[1:]:
            if line.startswith("#") or not line.strip():
                continue
            t = line.replace("=", "= ").split()
            try:
                if "q=" in t and "s=" in t:
                    atoms.append((int(t[0]), t[1].rstrip(":"), float(t[t.index("q=") + 1]), float(t[t.index("s=") + 1])))
                else:
                    i = next(n for n, x in enumerate(t) if x.endswith("="))
                    orbs.append((int(t[0]),) + tuple(float(x) for x in t[i + 1 :]))
            except (ValueError, IndexError, StopIteration):
                atoms.append(("?", line))
        out.append((atoms, orbs))
    return out


def entry_error(got, mol, pops, orbital_resolved):
    atoms, orbs = got
    q, s = atomic(mol, pops)
    if len(atoms) != mol.natm:
        return "%d lines of atoms, not %d" % (len(atoms), mol.natm)
    for a, line in enumerate(atoms):
        if len(line) != 4 or line[0] != a or line[1] != mol.atom_symbol(a):
            return "line of atom %d is %r" % (a, line)
        if abs(line[2] - q[a]) > 1e-6 or abs(line[3] - s[a]) > 1e-6:
            return "atom %d has q=%r s=%r, not q=%.8f s=%.8f" % (a, line[2], line[3], q[a], s[a])
    if not orbital_resolved:
        return None if not orbs else "has lines of orbitals"
    if len(orbs) != mol.nao:
        return "%d lines of orbitals, not %d" % (len(orbs), mol.nao)
    p = np.array(pops) if np.ndim(pops[0]) == 1 else np.array(pops)[None]
    for i, line in enumerate(orbs):
        if line[0] != i or len(line) != 1 + len(p) or np.abs(np.array(line[1:]) - p[:, i]).max() > 1e-6:
            return "line of orbital %d is %r, not %r" % (i, line, p[:, i])
    return None


def cube_error(text, mol, fields, grid):
    """None if text is a complete cube file with these fields (an independent reader)."""
    import pyscf.dft.numint

    lines = text.split("\n")
    try:
        n = lines[2].split()
        nat = abs(int(n[0]))
        nf = int(n[4]) if len(n) > 4 else 1
        origin = np.array([float(x) for x in n[1:4]])
        ax = [l.split() for l in lines[3:6]]
        shape = tuple(int(x[0]) for x in ax)
        vec = np.array([[float(y) for y in x[1:4]] for x in ax])
        pos = 6 + nat
        for a, l in enumerate(lines[6:pos]):
            t = l.split()
            if int(t[0]) != mol.atom_charge(a) or np.abs(np.array([float(x) for x in t[2:5]]) - mol.atom_coord(a)).max() > 1e-5:
                return "line of atom %d is %r" % (a, l)
        if nf > 1:
            t = lines[pos].split()
            if int(t[0]) != nf or [int(x) for x in t[1:]] != [f[2] for f in fields]:
                return "labels %r, not %r" % (t, [f[2] for f in fields])
            pos += 1
        vals = np.array([float(x) for l in lines[pos:] for x in l.split()])
    except (ValueError, IndexError) as e:
        return "unreadable (%s)" % e
    if nat != mol.natm or nf != len(fields) or shape != tuple(grid):
        return "header: %d atoms, %d fields, grid %r" % (nat, nf, shape)
    if vals.size != np.prod(shape) * nf:
        return "%d values, not %d" % (vals.size, np.prod(shape) * nf)
    i, j, k = np.meshgrid(*[np.arange(s) for s in shape], indexing="ij")
    xyz = origin + i.reshape(-1, 1) * vec[0] + j.reshape(-1, 1) * vec[1] + k.reshape(-1, 1) * vec[2]
    if hasattr(mol, "lattice_vectors"):
        ao = np.asarray(mol.pbc_eval_gto("GTOval", xyz))
        box = mol.lattice_vectors()
    else:
        ao = mol.eval_gto("GTOval", xyz)
        c = mol.atom_coords()
        box = np.diag(c.max(axis=0) - c.min(axis=0) + 6.0)
    if np.abs(vec * (np.array(shape)[:, None] - 1) - box).max() > 1e-4:
        return "the grid does not span the box"
    vals = vals.reshape(-1, nf)
    for f, (coef, kind, _) in enumerate(fields):
        ref = ao @ coef if kind == "orbital" else np.einsum("xa,ab,xb->x", ao, coef, ao)
        if np.abs(vals[:, f] - ref).max() > 1e-4 * max(1, np.abs(ref).max()):
            return "field %d deviates by %.2e" % (f, np.abs(vals[:, f] - ref).max())
    return None


class C16(engine.Check):
    id = "C16"
    sizes = [1, 2, 3]
    quick_runs = 900
    quick_wall = 30
    thorough_runs = 60000
    thorough_wall = 1200
    rule = (
        "a run = a history of writing population analyses, cube files and saved states to a few files, with disk failures, short "
        "writes, failing calls, death of the process, and exceptions which the caller keeps for a while; or population analyses by 2 "
        "or 3 processes under a random schedule; non-trivial = a fault fired, a file was written more than once, or ranks were "
        "interleaved; distinct = distinct history with the faults which fired, or distinct interleaving"
    )
    real = ["vayesta population analysis, CubeFile, fragments", "Python's buffered and text files", "the directory of the file system", "pyscf"]
    stub = ["raw writes, open and directory creation (pass through the fault plan)", "MPI library (simulated)", "clock"]
    assumptions = ["death of the process leaves what it has written; death of the machine is not simulated"]

    def early(self):
        install()

    def prepare(self, ctx):
        ctx.mfs = WL.MeanFields(["h2", "h4", "h4b", "h5u", "h3u", "h4t", "lih", "pbc", "pbcu", "h6"])

    # ------------------------------------------------------------------ generation
    def field(self, rng):
        return [rng.choice(["orbital", "orbital", "density"]), rng.randrange(1000), rng.choice([None, None, None, rng.randint(3, 40)])]

    def spec(self, rng, i, tier):
        prng = engine.stable_rng("prog", self.id, i // 15, self.seed)
        mf = prng.choice(["h2", "h4", "h4b", "h5u", "h3u", "h4t", "lih", "pbc", "pbcu"])
        if rng.random() < 0.2:
            n = rng.choice([2, 2, 3])
            mf = prng.choice(["h4", "h5u", "h6", "h3u", "lih"])
            return dict(
                mode="mpi", mf=mf, size=n, seed=rng.randrange(1 << 30), policy=spmd.random_policy(rng, n),
                ops=[rng.choice([["emb", rng.randrange(n)], ["frag", None], ["frag", rng.random() < 0.5]]) for _ in range(rng.randint(1, 3))],
            )
        files = ["a.pop", "sub/b.pop", "sub/deep/c.pop", "x.cube", "sub/y.cube", "new/dir/z.cube", "s.pickle"]
        hist = []
        fav = prng.sample(files, 3)
        for _ in range(rng.choice([1, 2, 3, 3, 5, 8])):
            if rng.random() < 0.1:
                hist.append(dict(op="release"))
                continue
            name = rng.choice(fav)
            h = dict(file=name)
            if name.endswith("pop"):
                h.update(
                    op=rng.choice(["pop", "pop", "write"]), lo=rng.choice(["lowdin", "mulliken", "iao+pao", "Lowdin", "coeff"]), mode=rng.choice(["a", "a", "w", None]),
                    orb=rng.random() < 0.4, dm=rng.randrange(4), mo=rng.random() < 0.3,
                )
                if h["lo"] == "iao+pao" and mf not in ("h2", "h4b", "h3u"):
                    h["lo"] = "coeff"
            elif name.endswith("cube"):
                h.update(op="cube", fields=[self.field(rng) for _ in range(rng.choice([1, 1, 2, 3]))], grid=rng.choice([[4, 5, 3], [3, 2, 7], [7, 6, 5], [21, 20, 20]]), via=rng.choice(["write", "with", "arg", "plot3d"]))
            else:
                h.update(op="state", fields=[self.field(rng) for _ in range(rng.choice([0, 1, 2]))], grid=[4, 5, 3])
            u = rng.random()
            if u < 0.45:
                h["fault"] = dict(
                    kind=rng.choice(["open", "write", "write", "write", "makedirs"]), n=rng.choice([0, 0, 0, 1, 2, 5]),
                    what=rng.choice(["ENOSPC", "EIO", "EACCES", "MemoryError", "short", "die"]),
                )
            elif u < 0.65:
                h["fault"] = dict(kind="call", site=rng.random(), occ=rng.random(), what=rng.choice(["MemoryError", "KeyboardInterrupt", "OSError", "RuntimeError"]))
            h["keep"] = rng.random() < 0.5
            hist.append(h)
        hist.append(dict(op="release"))
        return dict(mode="serial", mf=mf, hist=hist)

    def refs(self, spec):
        return [dict(mf=spec["mf"])] if spec["mode"] == "mpi" else []

    # ------------------------------------------------------------------ pieces
    @staticmethod
    def dm(mf, k, uhf):
        d = np.asarray(mf.make_rdm1())
        if k:
            n = d.shape[-1]
            r = np.random.RandomState(k)
            a = r.uniform(-1, 1, d.shape)
            d = d + 0.1 * (a + np.swapaxes(a, -1, -2))
        return d

    @staticmethod
    def fields(mf, fl):
        out, ids = [], []
        n = mf.get_ovlp().shape[-1]
        for kind, seed, idx in fl:
            r = np.random.RandomState(seed)
            c = r.uniform(-1, 1, n if kind == "orbital" else (n, n))
            if kind == "density":
                c = c + c.T
            i = idx if idx is not None else (max(ids) + 1 if ids else 1)
            ids.append(i)
            out.append((c, kind, i, idx))
        return out

    def cube(self, CubeFile, mol, h, fields, path):
        c = CubeFile(mol, filename=path, gridsize=tuple(h["grid"]))
        for coef, kind, _, idx in fields:
            getattr(c, "add_" + kind)(coef, dset_idx=idx)
        return c

    # ------------------------------------------------------------------ serial histories
    def run(self, spec, decisions, refs, ctx):
        DISK.start(os.path.join(ctx.scratch, "disk"))
        try:
            if spec["mode"] == "mpi":
                return self.run_mpi(spec, decisions, refs, ctx)
            return self.run_serial(spec, ctx)
        finally:
            DISK.stop()

    def run_serial(self, spec, ctx):
        u = ctx.universes[1][0]
        viol, stats, fired, outs, held = [], {}, [], [], []
        state = {}  # path -> bytes after the last operation on it
        rewritten = 0
        with u:
            u.redirect_logs(ctx.scratch, 60)
            from vayesta.misc.cubefile import CubeFile

            mf = ctx.mfs.get(spec["mf"])
            uhf = is_uhf(dict(mf=spec["mf"]))
            import vayesta.ewf

            emb = vayesta.ewf.EWF(mf)
            with emb.iao_fragmentation() as f:
                f.add_all_atomic_fragments()
            mf = emb.mf
            mol = emb.mol
            # IAO+PAO need virtual orbitals beyond the minimal basis
            lo_iao = emb.get_lo_coeff("iao+pao") if spec["mf"] in ("h2", "h4b", "h3u") else emb.get_ovlp_power(-0.5)
            if uhf and not isinstance(lo_iao, tuple):
                lo_iao = (lo_iao, lo_iao)

            def content(p):
                try:
                    with open(p, "rb") as f:
                        return f.read()
                except FileNotFoundError:
                    return None

            def unchanged(text):
                for p, b in state.items():
                    now = content(p)
                    if now != b:
                        viol.append(
                            dict(cls="late-change", text="%s: file %s has changed although nothing was written to it since: %r -> %r" % (text, os.path.basename(p), (b or b"")[-120:], (now or b"")[-120:]), where=dict(op="release"))
                        )

            for h in spec["hist"]:
                if h["op"] == "release":
                    held.clear()
                    gc.collect()
                    unchanged("after the caller dropped the exceptions")
                    if viol:
                        break
                    continue
                path = DISK.path(h["file"])
                where = dict(op=h["op"], file=os.path.splitext(h["file"])[1], via=h.get("via"))
                before = state.get(path)
                fault = h.get("fault")
                post = None
                if h["op"] in ("pop", "write"):
                    dm = self.dm(mf, h["dm"], uhf)
                    lo = h["lo"] if h["lo"] != "coeff" else None
                    rows = dm if uhf else [dm]
                    los = [lo_iao[s] if uhf else lo_iao for s in range(len(rows))] if h["lo"] in ("iao+pao", "coeff") else [h["lo"].lower()] * len(rows)
                    pops = [populations(mf, r, l) for r, l in zip(rows, los)]
                    pops = pops if uhf else pops[0]
                    kw = dict(filename=path, orbital_resolved=h["orb"])
                    if h["mode"]:
                        kw["filemode"] = h["mode"]
                    append = h["mode"] != "w"
                    if h["op"] == "write":
                        action = lambda: emb.write_population(pops, **kw)
                    else:
                        if h["lo"] != "lowdin":
                            kw["local_orbitals"] = lo if lo is not None else lo_iao
                        if h["mo"]:
                            c = np.asarray(mf.mo_coeff)
                            ci = np.linalg.inv(c)
                            d = ci @ dm @ np.swapaxes(ci, -1, -2)
                            action = lambda: emb.pop_analysis(d, mo_coeff=mf.mo_coeff, **kw)
                        else:
                            action = lambda: emb.pop_analysis(dm, **kw)

                    def post(res, pops=pops):
                        text = content(path)
                        if text is None:
                            return "there is no file"
                        new = text[len(before or b"") :] if append else text
                        es = parse_entries(new.decode())
                        if len(es) != 1:
                            return "%d entries were written" % len(es)
                        err = entry_error(es[0], mol, pops, h["orb"])
                        if err is None and h["op"] == "pop":
                            err = WL.diff(WL.plain(res), WL.plain(pops), 1e-9)
                        return err
                else:
                    append = False
                    fields = self.fields(mf, h["fields"])
                    cobj = self.cube(CubeFile, mol, h, fields, path)
                    fl = [(c, k, i) for c, k, i, _ in fields]
                    if h["op"] == "state":
                        action = lambda: cobj.save_state(path)

                        def post(res, fl=fl):
                            back = CubeFile.load_state(path, mol)
                            back.write(DISK.path("back.cube"))
                            return cube_error(content(DISK.path("back.cube")).decode(), mol, fl, h["grid"]) if fl else None

                    elif h["via"] == "plot3d" and not uhf:
                        x = emb.fragments[h["fields"][0][1] % len(emb.fragments)]
                        n = x.c_frag.shape[-1]
                        fl = [(x.c_frag[:, k], "orbital", k + 1) for k in range(n)]
                        action = lambda: x.plot3d(path, gridsize=tuple(h["grid"]))
                        post = lambda res, fl=fl: cube_error(content(path).decode(), mol, fl, h["grid"])
                    else:

                        def action(h=h, fields=fields):
                            if h["via"] == "with":
                                with CubeFile(mol, filename=path, gridsize=tuple(h["grid"])) as c:
                                    for coef, kind, _, idx in fields:
                                        getattr(c, "add_" + kind)(coef, dset_idx=idx)
                            elif h["via"] == "arg":
                                cobj.write(path)
                            else:
                                cobj.write()

                        post = lambda res, fl=fl: cube_error(content(path).decode(), mol, fl, h["grid"])
                text = json.dumps({k: v for k, v in h.items() if k != "fields"})
                target, plan = None, []
                if fault is not None and fault["kind"] == "call":
                    # which calls are there to fail? (an undisturbed attempt, on a copy of the process and of the disk)
                    cf = inject.CallFault()

                    def count():
                        import shutil

                        keep = path + ".kept"
                        if before is not None:
                            shutil.copy(path, keep)
                        try:
                            cf.run(action)
                        finally:
                            if before is not None:
                                os.replace(keep, path)
                            elif os.path.exists(path):
                                os.remove(path)
                        return sorted(cf.counts.items())

                    how, calls = in_child(count)
                    if how == "ok" and calls:
                        key, n = calls[int(fault["site"] * len(calls))]
                        target = (key, int(fault["occ"] ** 2 * n))
                elif fault is not None:
                    plan = [fault]
                cf = inject.CallFault()
                DISK.arm(plan)
                exc = res = None

                def act():
                    if target is not None:
                        return cf.run(action, target, inject.EXC[fault["what"]])
                    return action()

                if fault is not None and fault["what"] == "die":
                    how, val = in_child(act)
                    if how == "died":
                        exc = RuntimeError("died")
                    elif how == "raised":
                        exc = RuntimeError(val)
                    else:
                        res = val
                    hit = how == "died"
                else:
                    try:
                        res = act()
                    except (Exception, KeyboardInterrupt) as e:
                        exc = e
                    hit = bool(DISK.fired) or cf.fired is not None
                if hit:
                    fired.append([text, repr(cf.fired or DISK.fired)])
                    k = "fault:%s:%s" % (fault["kind"], fault["what"])
                    stats[k] = stats.get(k, 0) + 1
                DISK.arm([])
                outs.append((h["op"], type(exc).__name__))
                if exc is not None and not hit:
                    viol.append(dict(cls="error", text="%s raises %r" % (text, WL.OpError(exc)), where=where))
                    break
                if before is not None:
                    rewritten += 1
                now = content(path)
                if append and before is not None and not (now or b"").startswith(before):
                    viol.append(dict(cls="lost", text="%s: what was in the file before is gone%s" % (text, " (fault: %s)" % fired[-1][1] if hit else ""), where=where))
                    break
                if exc is None:
                    try:
                        err = post(res)
                    except Exception as e:
                        err = "cannot be read back: %s: %s" % (type(e).__name__, e)
                    if err:
                        viol.append(dict(cls="content", text="%s returned normally, but: %s%s" % (text, err, " (fault: %s)" % fired[-1][1] if hit else ""), where=where))
                        break
                elif h["keep"]:
                    held.append(exc)
                else:
                    del exc
                    gc.collect()
                    now = content(path)
                if h["op"] == "state":
                    # the object can still be used, whatever happened
                    if cobj.cell is not mol:
                        viol.append(dict(cls="object", text="%s: the object has lost its cell" % text, where=where))
                        break
                state[path] = content(path)
                if append and before is not None and not (state[path] or b"").startswith(before):
                    viol.append(dict(cls="lost", text="%s: what was in the file before is gone" % text, where=where))
                    break
                unchanged(text)
                if viol:
                    break
        stats["operations"] = len(outs)
        stats["written-again"] = rewritten
        stats["config:serial"] = 1
        key = json.dumps([spec["mf"], spec["hist"], fired])
        return solo.outcome(viol, outs, stats, key, nontrivial=bool(fired) or rewritten > 0, sample=dict(mf=spec["mf"], hist=spec["hist"], faults=fired))

    # ------------------------------------------------------------------ several processes
    def frag_dm(self, x):
        """A density matrix in the basis of the cluster of x."""
        n = x.cluster.norb_active
        r = np.random.RandomState(77 + x.id)
        if isinstance(n, (tuple, list)) or np.ndim(n):
            return tuple((lambda a: a + a.T)(r.uniform(-1, 1, (k, k))) for k in n)
        a = r.uniform(-1, 1, (n, n))
        return a + a.T

    def setup(self, mf):
        import vayesta.ewf

        emb = vayesta.ewf.EWF(mf, solver="MP2", bath_options=dict(bathtype="dmet"))
        with emb.sao_fragmentation() as f:
            f.add_all_atomic_fragments()
        emb.kernel()
        return emb

    def compute_ref(self, ref, ctx):
        with ctx.universes[1][0] as u:
            u.redirect_logs(ctx.scratch, 60)
            emb = self.setup(ctx.mfs.get(ref["mf"]))
            return {x.id: WL.plain(x.pop_analysis(dm1=self.frag_dm(x), write=False)) for x in emb.fragments}

    def run_mpi(self, spec, decisions, refs, ctx):
        ref = refs[engine.key_of(self.refs(spec)[0])]
        n = spec["size"]
        outs = [[] for _ in range(n)]
        uhf = is_uhf(dict(mf=spec["mf"]))
        where = dict(mf=spec["mf"], size=n)

        def prog(rank):
            emb = self.setup(ctx.mfs.get(spec["mf"]))
            for k, op in enumerate(spec["ops"]):
                if op[0] == "emb":
                    r = emb.pop_analysis(self.dm(emb.mf, k, uhf), filename=DISK.path("emb%d.pop" % k), mpi_rank=op[1])
                    outs[rank].append(WL.plain(r))
                else:
                    for x in emb.fragments:
                        kw = dict(orbital_resolved=True) if op[1] else {}
                        dm1 = self.frag_dm(x) if x.mpi_rank == rank else None
                        r = x.pop_analysis(dm1=dm1, filename=DISK.path("frag%d-%d.pop" % (k, x.id)), **kw)
                        outs[rank].append(WL.plain(r))

        w = spmd.run_world(ctx, spec, decisions, prog)
        viol = spmd.world_violations(w, where)
        if not viol:
            mf = ctx.mfs.get(spec["mf"])
            for k, op in enumerate(spec["ops"]):
                todo = []
                if op[0] == "emb":
                    dm = self.dm(mf, k, uhf)
                    pops = [populations(mf, d, "lowdin") for d in (dm if uhf else [dm])]
                    todo.append(("emb%d.pop" % k, pops if uhf else pops[0], False))
                else:
                    for i, p in ref.items():
                        todo.append(("frag%d-%d.pop" % (k, i), p, bool(op[1])))
                for name, pops, orb in todo:
                    path = DISK.path(name)
                    if not os.path.exists(path):
                        viol.append(dict(cls="missing", text="%s was not written by any of %d processes" % (name, n), where=dict(where, op=op[0])))
                        break
                    with open(path) as f:
                        es = parse_entries(f.read())
                    err = "%d entries" % len(es) if len(es) != 1 else entry_error(es[0], mf.mol, pops, orb)
                    if err:
                        viol.append(dict(cls="content", text="%s written by one of %d processes: %s" % (name, n, err), where=dict(where, op=op[0])))
                        break
        return spmd.outcome(w, outs, viol, {"config:mpi": 1}, sample=dict(mf=spec["mf"], ops=spec["ops"], size=n))

    def simplify(self, spec):
        k = "ops" if spec["mode"] == "mpi" else "hist"
        for n in range(len(spec[k])):
            if len(spec[k]) > 1:
                yield dict(spec, **{k: spec[k][:n] + spec[k][n + 1 :]})
        if spec["mode"] == "serial":
            for n, h in enumerate(spec[k]):
                if h.get("fault"):
                    yield dict(spec, hist=spec[k][:n] + [{a: b for a, b in h.items() if a != "fault"}] + spec[k][n + 1 :])

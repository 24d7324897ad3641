"""C04 (remote-memory dictionary) and C05 (communication helpers): histories of calls against a plain reference model."""

import json

import numpy as np

from .. import engine, spmd, workloads as WL, world as W

DTYPES = ["float64", "complex128", "int64", "float32", "bool", "int8", "uint16", "complex64"]
SHAPES = [(), (0,), (1,), (7,), (3, 4), (2, 3, 4), (0, 3), (5, 1), (1, 6, 1, 2), (33,), (16, 16)]
LAYOUTS = ["C", "F", "slice", "transpose", "reverse", "readonly"]


def make_array(d):
    """Deterministic array with the given shape, dtype, layout and unique content."""
    rng = np.random.RandomState(d["seed"])
    shape = tuple(d["shape"])
    dt = np.dtype(d["dtype"])
    lay = d["layout"]

    def fill(shp):
        n = int(np.prod(shp))
        if dt.kind == "S":
            return np.array([("%07d" % x).encode() for x in rng.randint(0, 10**7, n)], dtype=dt).reshape(shp)
        if dt.kind == "b":
            return rng.randint(0, 2, n).astype(dt).reshape(shp)
        if dt.kind == "c":
            return (rng.randint(-1000, 1000, n) + 1j * rng.randint(-1000, 1000, n)).astype(dt).reshape(shp)
        if dt.kind in "iu":
            return rng.randint(0, 100, n).astype(dt).reshape(shp)
        return (rng.randint(-10000, 10000, n) / 8.0).astype(dt).reshape(shp)

    if lay == "F":
        return np.asfortranarray(fill(shape))
    if lay == "slice" and len(shape):
        big = fill(tuple(2 * x + 1 for x in shape))
        return big[tuple(slice(0, 2 * x, 2) for x in shape)]
    if lay == "transpose" and len(shape) > 1:
        return fill(shape[::-1]).T
    if lay == "reverse" and len(shape):
        return fill(shape)[::-1]
    a = fill(shape)
    if lay == "readonly":
        a.flags.writeable = False
    return a


def gen_array(rng):
    return dict(shape=list(rng.choice(SHAPES)), dtype=rng.choice(DTYPES), layout=rng.choice(LAYOUTS), seed=rng.getrandbits(30))


def same(a, b):
    """Bitwise the same value; returns a description of the difference."""
    if a is None or b is None:
        return None if a is b else "%s instead of %s" % (WL.short(a), WL.short(b))
    if isinstance(b, np.ndarray):
        if not isinstance(a, np.ndarray):
            return "%r instead of an array" % type(a)
        if a.shape != b.shape:
            return "shape %r instead of %r" % (a.shape, b.shape)
        if a.dtype != b.dtype:
            return "dtype %r instead of %r" % (a.dtype, b.dtype)
        if np.ascontiguousarray(a).tobytes() != np.ascontiguousarray(b).tobytes():
            return "different values (%d of %d elements)" % (int(np.sum(a != b)), a.size)
        return None
    if isinstance(b, (tuple, list)):
        if type(a) is not type(b) or len(a) != len(b):
            return "%s instead of %s" % (WL.short(a), WL.short(b))
        for x, y in zip(a, b):
            d = same(x, y)
            if d:
                return d
        return None
    if isinstance(b, dict):
        if not isinstance(a, dict) or sorted(a) != sorted(b):
            return "%s instead of %s" % (WL.short(a), WL.short(b))
        for k in b:
            d = same(a[k], b[k])
            if d:
                return d
        return None
    if type(a) is type(b) and a == b:
        return None
    if isinstance(a, np.generic) and isinstance(b, (int, float, complex, np.generic)) and a == b:
        return None
    return "%s instead of %s" % (WL.short(a), WL.short(b))


class CommCheck(engine.Check):
    sizes = [1, 2, 3, 4, 5]
    modules = ["vayesta", "vayesta.mpi"]
    quick_runs = 1500
    quick_wall = 60
    thorough_runs = 200000
    thorough_wall = 1200
    run_timeout = 60.0
    real = ["vayesta.mpi (interface, remote-memory dictionary), one import per rank", "numpy"]
    stub = ["mpi4py (simulated communicator, requests, one-sided windows)", "clock (simulated)"]
    assumptions = Assump = [
        "the simulated mpi4py implements the MPI standard's ordering, matching, completion and window rules",
        "MPI guarantees reliable delivery, so message loss and duplication are not injected",
    ]

    def base(self, rng, i):
        size = rng.choice([1, 2, 2, 3, 3, 4, 5])
        return dict(
            size=size,
            seed=rng.getrandbits(48),
            policy=spmd.random_policy(rng, size),
            loglevel=rng.choice([60, 60, 1]),
        )

    def run(self, spec, decisions, refs, ctx):
        viol = []
        outs = [[] for _ in range(spec["size"])]
        state = dict(step=[0] * spec["size"])

        def report(cls, text, where=None):
            if len(viol) < 3:
                viol.append(dict(cls=cls, text=text, where=where or {}))

        def prog(rank):
            self.program(spec, rank, report, outs, state)

        if spec["size"] == 1:
            u = ctx.universes[1][0]
            u.redirect_logs(ctx.scratch, spec["loglevel"])
            with u:
                try:
                    prog(0)
                except Exception as e:
                    report("error", "%s: %s (in %s)" % (type(e).__name__, str(e)[:300], W._tb_site(e)))
            return dict(
                violations=viol, decisions=[], stats={"serial": 1}, digest=repr(outs)[:200], nontrivial=False, key="", simtime=0
            )
        w = spmd.run_world(ctx, spec, decisions, prog, max_steps=50000)
        if not viol or w.violation is not None:
            viol += spmd.world_violations(w, {})
        if not viol:
            self.at_end(spec, w, report)
        sample = dict(size=spec["size"], policy=spec["policy"], history=spec["hist"][:4], events=len(w.events))
        extra = {}
        for h in spec["hist"]:
            extra["op:" + h[0]] = extra.get("op:" + h[0], 0) + 1
        return spmd.outcome(w, outs, viol, extra, sample, nontrivial=w.switches > 0)

    def at_end(self, spec, w, report):
        pass

    def simplify(self, spec):
        h = spec["hist"]
        for k in (len(h) // 2, len(h) // 4):
            if k > 1:
                yield dict(spec, hist=h[:k])
                yield dict(spec, hist=h[k:])
        for i in range(len(h) - 1, -1, -1):
            if len(h) > 1:
                yield dict(spec, hist=h[:i] + h[i + 1 :])
        if spec["loglevel"] != 60:
            yield dict(spec, loglevel=60)
        plain = dict(sched="sticky", p_sync_coll=0.0, p_sync_send=0.0, p_defer_rma=0.0, p_reorder=0.0)
        for k, v in plain.items():
            if spec["policy"].get(k) != v:
                p = dict(spec["policy"])
                p[k] = v
                p.pop("victim", None)
                yield dict(spec, policy=p)


# ------------------------------------------------------------------------------------------------ C04


class C04(CommCheck):
    id = "C04"
    rule = (
        "a run = one history of write phases, synchronisations, reads, deletes and clears of 1..3 shared dictionaries on 1..5 "
        "processes x scheduling policy x seeded schedule and completion times of one-sided transfers; non-trivial = at least one "
        "context switch; distinct = distinct global order of communication events (hash)"
    )

    def spec(self, rng, i, tier):
        s = self.base(rng, i)
        n = s["size"]
        hist = []
        keys = {0: {}}  # dict -> key -> owner
        ndict = rng.choice([1, 1, 2, 3])
        pool = ["k%d" % k for k in range(6)] + [0, 1, 17, "wf", "x y"]
        tuples = rng.random() < 0.2
        model = [set() for _ in range(ndict)]
        for _ in range(rng.randint(1, 5 if tier == "quick" else 12)):
            d = rng.randrange(ndict)
            x = rng.random()
            if x < 0.55 or not model[d]:
                fresh = rng.sample(pool, rng.randint(0, min(len(pool), 5)))
                writes = {str(r): [] for r in range(n)}
                for k in fresh:
                    val = None if rng.random() < 0.12 else gen_array(rng)
                    writes[str(rng.randrange(n))].append([k, val])
                dele = []
                if model[d] and rng.random() < 0.3:
                    dele = rng.sample(sorted(model[d], key=str), rng.randint(1, len(model[d])))
                    dele = [k for k in dele if k not in fresh]
                hist.append(["write", d, writes, dele, rng.choice(["writable", "with", "writable"]), rng.random() < 0.5])
                model[d] |= set(fresh)
                model[d] -= set(dele)
            elif x < 0.62:
                hist.append(["clear", d])
                model[d] = set()
            elif x < 0.7:
                # all processes build a dictionary from a local one
                writes = {str(r): [] for r in range(n)}
                fresh = rng.sample(pool, rng.randint(0, 4))
                for k in fresh:
                    writes[str(rng.randrange(n))].append([k, None if rng.random() < 0.1 else gen_array(rng)])
                hist.append(["from_dict", d, writes])
                model[d] = set(fresh)
            elif x < 0.75:
                hist.append(["misuse", d])
            # reads by every process, in its own order
            if rng.random() < 0.9:
                reads = {str(r): [rng.choice(sorted(model[d], key=str) or ["none"]) for _ in range(rng.randint(0, 6))] for r in range(n)}
                hist.append(["read", d, reads, rng.random() < 0.3])
            if rng.random() < 0.3:
                hist.append(["barrier"])
        if n > 1 and rng.random() < 0.1:
            hist.append(["duplicate", rng.randrange(ndict)])
        s["hist"] = hist
        s["ndict"] = ndict
        s["tuples"] = tuples
        return s

    def program(self, spec, rank, report, outs, state):
        from vayesta.mpi import RMA_Dict, mpi


        n = spec["size"]
        key = (lambda k: (k, 1)) if spec["tuples"] else (lambda k: k)
        dicts = [RMA_Dict(mpi) for _ in range(spec["ndict"])]
        model = [{} for _ in dicts]  # key -> (owner, value)
        dup = False
        for step, h in enumerate(spec["hist"]):
            op = h[0]
            if op == "barrier":
                if mpi.enabled:
                    mpi.world.Barrier()
                continue
            d = h[1]
            if op == "write":
                writes, dele, how, scribble = h[2:]
                dele = [k for k in dele if k in model[d]]
                held = []
                with dicts[d].writable() if how == "writable" else dicts[d]:
                    for k in dele:
                        del dicts[d][key(k)]
                    for k, a in writes[str(rank)]:
                        arr = None if a is None else make_array(a)
                        dicts[d][key(k)] = arr
                        held.append(arr)
                if scribble and mpi.enabled:
                    # the caller may reuse its arrays once the dictionary has been synchronised
                    for arr in held:
                        if arr is not None and arr.flags.writeable:
                            arr[...] = np.zeros((), dtype=arr.dtype)
                for k in dele:
                    model[d].pop(k)
                for r in range(n):
                    for k, a in writes[str(r)]:
                        model[d][k] = (r, None if a is None else make_array(a))
            elif op == "from_dict":
                if mpi.enabled:
                    dicts[d].clear()
                dicts[d] = mpi.create_rma_dict({key(k): None if a is None else make_array(a) for k, a in h[2][str(rank)]})
                model[d] = {}
                for r in range(n):
                    for k, a in h[2][str(r)]:
                        model[d][k] = (r, None if a is None else make_array(a))
            elif op == "clear":
                dicts[d].clear()
                model[d] = {}
            elif op == "misuse":
                try:
                    dicts[d][key("nope")] = np.zeros(2)
                except Exception:
                    pass
                else:
                    report("unsynchronised", "a write outside of a write phase was accepted")
            elif op == "read":
                reads, scribble = h[2][str(rank)], h[3]
                got = sorted(map(str, dicts[d].keys()))
                want = sorted(str(key(k)) for k in model[d])
                if got != want:
                    report("keys", "step %d: rank %d of %d sees the keys %s instead of %s" % (step, rank, n, got, want))
                if len(dicts[d]) != len(model[d]):
                    report("keys", "len is %d instead of %d" % (len(dicts[d]), len(model[d])))
                if key("never") in dicts[d] or any(key(k) not in dicts[d] for k in model[d]):
                    report("keys", "membership test is wrong")
                if "none" in reads or not model[d]:
                    try:
                        v = dicts[d][key("never")]
                    except KeyError:
                        pass
                    else:
                        report("ghost", "reading a key which was never stored gave %s" % WL.short(v))
                for k in reads:
                    if k not in model[d]:
                        continue
                    owner, want = model[d][k]
                    v = dicts[d][key(k)]
                    outs[rank].append(v)
                    dd = same(v, want)
                    if dd:
                        report(
                            "value",
                            "step %d: rank %d of %d read key %r (stored by rank %d as %s) and got %s"
                            % (step, rank, n, k, owner, WL.short(want), dd),
                        )
                    if mpi.enabled:
                        if want is not None and (
                            dicts[d].get_location(key(k)) != owner
                            or tuple(dicts[d].get_shape(key(k))) != want.shape
                            or dicts[d].get_dtype(key(k)) != want.dtype
                        ):
                            report("metadata", "step %d: location, shape or dtype of key %r are wrong" % (step, k))
                        if scribble and v is not None and v.size and v.flags.writeable:
                            v[...] = np.zeros((), dtype=v.dtype)  # the returned array belongs to the reader
            elif op == "duplicate":
                dup = True
                try:
                    with dicts[d].writable():
                        dicts[d][key("dup")] = np.full(3, float(rank))
                except W.SimError:
                    raise
                except Exception:
                    pass
                else:
                    # accepted: then every process has to see the same value
                    v = dicts[d][key("dup")]
                    if len({tuple(x) for x in mpi.world.allgather(v)}) != 1:
                        report("duplicate", "a key stored by several processes was accepted, and they read different values")
                return
        if not dup:
            for x in dicts:
                x.clear()
                if len(x):
                    report("clear", "keys are left after clear")

    def at_end(self, spec, w, report):
        if any(h[0] == "duplicate" for h in spec["hist"]):
            return
        leaked = [st.id for st in w.wins if len(st.freed) != spec["size"]]
        if leaked:
            report("leak", "%d of %d windows were not freed by all processes after clear" % (len(leaked), len(w.wins)))


# ------------------------------------------------------------------------------------------------ C05

SCALARS = [0, 1, -7, 2.5, 1.25 + 0.5j, True, 10**12]


class C05(CommCheck):
    id = "C05"
    rule = (
        "a run = one history of 1..14 helper calls (broadcast, reductions, decorated functions, routed calls, first-process-only "
        "calls) with generated payloads on 1..5 processes x scheduling and buffering policy x seeded schedule; non-trivial = at "
        "least one context switch; distinct = distinct global order of communication events (hash)"
    )

    @staticmethod
    def gen_obj(rng, depth=0):
        x = rng.random()
        if x < 0.45:
            return dict(arr=gen_array(rng))
        if x < 0.55:
            return dict(none=1)
        if x < 0.75 or depth:
            return dict(sc=rng.choice(["text", "", 0, 1.5, -3, 2**40, True]))
        return dict(tup=[C05.gen_obj(rng, 1) for _ in range(rng.randint(0, 3))])

    @staticmethod
    def make_obj(d):
        if "arr" in d:
            return make_array(d["arr"])
        if "none" in d:
            return None
        if "sc" in d:
            return d["sc"]
        return tuple(C05.make_obj(x) for x in d["tup"])

    @staticmethod
    def gen_num(rng):
        """Summable payload: same shape on every process, own seed per process."""
        if rng.random() < 0.4:
            return dict(sc=[rng.choice([rng.randint(-99, 99), rng.randint(-99, 99) / 4.0]) for _ in range(5)])
        a = gen_array(rng)
        a["dtype"] = rng.choice(["float64", "complex128", "int64", "float32"])
        return dict(arr=a)

    @staticmethod
    def make_num(d, rank):
        if "sc" in d:
            return d["sc"][rank]
        return make_array(dict(d["arr"], seed=(d["arr"]["seed"] + 7919 * rank) % 2**31))

    def spec(self, rng, i, tier):
        s = self.base(rng, i)
        n = s["size"]
        hist = []
        nf = rng.randint(1, 3)
        s["funcs"] = [
            dict(
                source=rng.choice(["call", "const"]),
                src=rng.randrange(n),
                dest=rng.choice([0, 0, rng.randrange(n)]),
                tag=rng.choice([None, None, 40 + k]),
            )
            for k in range(nf)
        ]
        for _ in range(rng.randint(1, 14)):
            k = rng.choice(["bcast", "bcast", "nreduce", "nreduce", "allreduce", "reduce", "master", "send", "send", "send"])
            if k == "bcast":
                hist.append(["bcast", self.gen_obj(rng), rng.choice([None, rng.randrange(n)]), self.gen_obj(rng)])
            elif k == "nreduce":
                hist.append(["nreduce", [self.gen_num(rng) for _ in range(rng.randint(1, 3))], rng.choice([None, None, rng.randrange(n)])])
            elif k == "allreduce":
                hist.append(["allreduce", self.gen_num(rng), rng.randint(1, 2)])
            elif k == "reduce":
                hist.append(["reduce", self.gen_num(rng), rng.choice([None, rng.randrange(n)]), rng.randint(1, 2)])
            elif k == "master":
                hist.append(["master", self.gen_obj(rng), rng.randint(1, 2)])
            else:
                # a burst of routed calls with changing owners, as a loop over fragments makes
                f = rng.randrange(nf)
                hist.append(["send", f, [[rng.randrange(n), self.gen_obj(rng)] for _ in range(rng.randint(1, 4))]])
        s["hist"] = hist
        return s

    def program(self, spec, rank, report, outs, state):
        from vayesta.mpi import RMA_Dict, mpi


        n = spec["size"]
        calls = []

        class Owner:
            def __init__(self, src):
                self.mpi_rank = src

        funcs = []
        for fd in spec["funcs"]:
            src = (lambda o, *a: o.mpi_rank) if fd["source"] == "call" else fd["src"]

            def body(o, x, extra=None):
                calls.append(x)
                return self.make_obj(x)

            funcs.append(mpi.with_send(source=src, dest=fd["dest"], tag=fd["tag"])(body))

        def check(step, what, got, want):
            outs[rank].append(got)
            dd = same(got, want)
            if dd:
                report("value:" + what, "step %d: %s on rank %d of %d returned %s" % (step, what, rank, n, dd))

        def total(d):
            acc = self.make_num(d, 0)
            for r in range(1, n):
                acc = acc + self.make_num(d, r)
            return acc

        for step, h in enumerate(spec["hist"]):
            if h[0] == "bcast":
                root = h[2] if h[2] is not None else 0
                obj = self.make_obj(h[1]) if rank == root else self.make_obj(h[3])
                if n == 1:
                    continue
                keep = self.make_obj(h[1])
                got = mpi.bcast(obj) if h[2] is None else mpi.bcast(obj, root=root)
                check(step, "bcast", got, keep)
            elif h[0] == "nreduce":
                if n == 1:
                    continue
                args = [self.make_num(d, rank) for d in h[1]]
                got = mpi.nreduce(*args, target=h[2])
                if h[2] is not None and rank != h[2]:
                    gots = got if isinstance(got, (tuple, list)) else [got]
                    if any(g is not None for g in gots):
                        report("value:nreduce", "step %d: reduction to rank %d returned a value on rank %d" % (step, h[2], rank))
                    continue
                want = [total(d) for d in h[1]]
                got = list(got) if len(h[1]) > 1 else [got]
                check(step, "nreduce", got, want)
            elif h[0] in ("allreduce", "reduce"):
                if h[0] == "allreduce":
                    f = mpi.with_allreduce()(lambda d: self.make_num(d, rank))
                    rep, root = h[2], None
                else:
                    kw = {} if h[2] is None else dict(root=h[2])
                    f = mpi.with_reduce(**kw)(lambda d: self.make_num(d, rank))
                    rep, root = h[3], h[2] or 0
                for _ in range(rep):
                    got = f(h[1])
                    if n == 1 or root is None or rank == root:
                        check(step, "with_" + h[0], got, total(h[1]))
                    elif got is not None:
                        report("value:with_reduce", "step %d: a value on rank %d which is not the root" % (step, rank))
            elif h[0] == "master":
                del calls[:]

                @mpi.only_master()
                def f(x):
                    calls.append(x)
                    return self.make_obj(x)

                for _ in range(h[2]):
                    got = f(h[1])
                    check(step, "only_master", got, self.make_obj(h[1]) if rank == 0 else None)
                if len(calls) != (h[2] if rank == 0 else 0):
                    report("once", "step %d: a call restricted to the first process ran %d times on rank %d" % (step, len(calls), rank))
            elif h[0] == "send":
                fd = spec["funcs"][h[1]]
                for src, obj in h[2]:
                    if fd["source"] == "const":
                        src = fd["src"]
                    del calls[:]
                    got = funcs[h[1]](Owner(src), obj)
                    want = self.make_obj(obj) if rank in (src, fd["dest"]) or n == 1 else None
                    check(step, "with_send", got, want)
                    if len(calls) != (1 if rank == src or n == 1 else 0):
                        report("once", "step %d: routed call ran %d times on rank %d (owner %d)" % (step, len(calls), rank, src))

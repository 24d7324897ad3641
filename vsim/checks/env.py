"""C13, C14, C15: the surroundings of a calculation (logging, clock, memory, random state, hashes) are not part of its result."""

import gc
import json
import logging
import os
import random
import re
import subprocess
import sys

import numpy as np

from .. import engine, solo, spmd, universe as U, workloads as WL, world as W
from ..disk import DISK, install
from ..memory import Memory
from .history import forked
from .parallel import dm_ops, energy_ops, is_uhf, random_config

LEVELS = [1, 2, 5, 10, 12, 15, 20, 25, 30, 40, 60]


def env_config(rng, weights):
    """A set-up from a wider range than the parallel checks use."""
    kind = rng.choice([k for k, n in weights.items() for _ in range(n)])
    if kind == "dmet":
        d = dict(cls="DMET", mf=rng.choice(["h4", "h4", "h6ring", "hub"]), solver=rng.choice(["CCSD", "MP2", "FCI"]), kind="dmet")
        d["frag"] = dict(kind="sao")
        if d["mf"] == "hub":
            d["solver"], d["frag"] = "FCI", dict(kind="site", atoms=[[0, 1], [2, 3], [4, 5]])
        if d["solver"] == "FCI":
            # The noise of FCI in the fitted correlation potential is amplified by every iteration
            d["opts"] = dict(oneshot=True)
        else:
            d["opts"] = rng.choice([dict(oneshot=True), dict(maxiter=2), dict(maxiter=3, diis=False)])
        d["bath"] = dict(bathtype="dmet")
        return d
    if kind == "edmet":
        return dict(cls="EDMET", mf="h2", solver="CCSD", kind="edmet", frag=dict(kind="sao"), opts=dict(oneshot=True), bath=dict(bathtype="dmet"))
    if kind == "screen":
        d = dict(cls="EWF", mf=rng.choice(["h4df", "h3udf"]), solver=rng.choice(["CCSD", "FCI"]), kind="screen", frag=dict(kind="iao"))
        d["bath"] = dict(threshold=1e-3)
        d["opts"] = dict(screening=rng.choice(["mrpa", "crpa"]))
        if d["mf"] == "h4df" and d["opts"]["screening"] == "mrpa" and rng.random() < 0.5:
            d["opts"]["ext_rpa_correction"] = rng.choice(["erpa", "cumulant"])
        return d
    if kind == "loop":
        d = random_config(rng, allow=("rhf", "uhf"), solvers=["CCSD", "CCSD", "FCI"])
        d["loop"] = rng.choice(["pdmet", "brueckner", "chempot"])
        if d["loop"] == "brueckner":
            d["solver"] = "CCSD"
        if d["mf"] in ("h5u", "h4t"):
            d["mf"], d["frag"] = "h4", dict(kind="iao")
        d["bath"] = dict(bathtype="dmet")
        d["kind"] = "loop"
        return d
    if kind == "df":
        d = random_config(rng, allow=("rhf", "uhf"))
        d["mf"] = rng.choice(["h4df", "h3udf"])
        d["frag"] = rng.choice([dict(kind="iao"), dict(kind="sao")])
        d["bath"] = rng.choice([dict(threshold=1e-3), dict(threshold=1e-5), dict(bathtype="full"), dict(bathtype="dmet")])
        return d
    if kind == "pbc2d":
        d = dict(cls="EWF", mf="pbc2d", kind="pbc2d", solver=rng.choice(["CCSD", "MP2", "FCI"]), frag=dict(kind=rng.choice(["iao", "sao"])))
        d["bath"] = rng.choice([dict(bathtype="dmet"), dict(threshold=1e-4), dict(bathtype="full")])
        return d
    if kind == "tccsd":
        d = random_config(rng, allow=("rhf",), solvers=["TCCSD", "CISD"])
        return d
    return random_config(rng, allow=(kind,))


def env_ops(rng, d, n):
    if d["cls"] == "DMET":
        pool = [["call", "make_rdm1", {}], ["call", "make_rdm2", {}], ["attr", "e_tot"], ["attr", "e_dmet"]]
    elif d["cls"] == "EDMET":
        pool = [["attr", "e_tot"], ["attr", "e_dmet"]]
    elif d["kind"] == "loop":
        # The loops end with an update of the mean field: amplitudes of the clusters belong to the one before
        pool = [["attr", "e_tot"], ["attr", "e_mf"], ["attr", "e_corr"], ["attr", "converged"]]
    elif d["kind"] == "screen":
        pool = [["attr", "e_tot"], ["call", "get_wf_corr_energy", {}], ["call", "get_dmet_energy", {}], ["attr", "e_corr"]]
    else:
        pool = energy_ops(rng, d) + dm_ops(rng, d, 1)
        if d["solver"] in ("CCSD", "TCCSD"):
            pool += [["call", "get_corrfunc", dict(kind=k)] for k in ("Sz,Sz", "N,N", "dN,dN")]
    ops = rng.sample(pool, min(len(pool), n))
    for op in ops:
        if len(op) > 2:
            op[2].pop("mpi_target", None)
    out = [["new", d], ["kernel"]] + ops
    if d.get("loop"):
        out.insert(1, ["loop", d["loop"]])
    if rng.random() < 0.4:
        out.insert(2 + bool(d.get("loop")), ["clusters"])
    if rng.random() < 0.3 and d["cls"] == "EWF" and not is_uhf(d):
        out.append(["pop"])
    if rng.random() < 0.3 and d["cls"] == "EWF":
        out.append(["text"])
    return out


def invariants(emb):
    """Numbers of the clusters which do not depend on the choice of basis."""
    out = []
    s = emb.get_ovlp()
    for x in emb.fragments:
        row = [x.id, str(x.name), bool(x.active), getattr(x.sym_parent, "id", None)]
        cs = x.c_frag if isinstance(x.c_frag, tuple) else (x.c_frag,)
        row += [c @ c.T for c in cs]
        if x._cluster is not None:
            c = x._cluster.c_active
            cs = c if isinstance(c, tuple) else (c,)
            row += [c @ c.T for c in cs]
        out.append(tuple(row))
    return tuple(out)


class EnvSession(WL.Session):
    loops = 2

    def do(self, op):
        if op[0] == "loop":
            if op[1] == "chempot":
                self.emb.optimize_chempot()
                return self.emb.opts.global_frag_chempot
            getattr(self.emb, op[1] + "_scmf")(maxiter=self.loops)
            return None
        if op[0] == "clusters":
            return invariants(self.emb)
        if op[0] == "pop":
            return self.emb.pop_analysis(np.asarray(self.emb.mf.make_rdm1()), write=False)
        if op[0] == "text":
            self.emb.print_results()
            return [str(x) for x in self.emb.fragments]
        return super().do(op)


class Env(engine.Check):
    sizes = [1]
    tol = 1e-8
    per_program = 5
    weights = dict(rhf=4, uhf=3, ring=1, pbc=1, latt=1, sec=1, df=1, dmet=1, loop=2, screen=1, tccsd=1, edmet=0, pbc2d=0)
    mfs = [k for k in WL.MF_SPECS if k != "pbc2d"]
    real = ["all of vayesta", "pyscf, numpy, scipy, ebcc"]

    def prepare(self, ctx):
        ctx.mfs = WL.MeanFields(self.mfs)

    def program(self, rng):
        d = env_config(rng, self.weights)
        return env_ops(rng, d, rng.randint(1, 4))

    def spec(self, rng, i, tier):
        prng = engine.stable_rng("prog", self.id, i // self.per_program, self.seed)
        ops = self.program(prng)
        return self.surroundings(rng, dict(ops=ops), tier)

    def refs(self, spec):
        return [dict(ops=spec["ops"])] if "ops" in spec else []

    def compute_ref(self, ref, ctx):
        """Each operation's result; an operation which is refused leaves the object as it was only by luck, so what follows it
        is judged only up to there."""
        with ctx.universes[1][0] as u:
            u.redirect_logs(ctx.scratch, 60)
            return self.execute(ctx, ref["ops"])

    def execute(self, ctx, ops, before=None, after=None, out=None):
        s = EnvSession(ctx.mfs, 0, serial=True)
        out = [] if out is None else out
        for i, op in enumerate(ops):
            if before is not None:
                before(i, op, s)
            try:
                r = WL.plain(s.do(op))
            except Exception as e:
                r = WL.OpError(e)
            out.append(r)
            if after is not None and after(i, op, r, s):
                break
            if isinstance(r, WL.OpError) and op[0] in ("new", "loop", "kernel"):
                break
        return out

    def tolerance(self, spec):
        d = spec["ops"][0][1]
        if d.get("loop") == "chempot" or d["cls"] == "DMET":
            return 1e-5 if d["solver"] != "FCI" else 2e-4
        if d["solver"] in ("FCI", "TCCSD"):
            return 3e-5 if not d.get("loop") else 2e-4
        return self.tol if not d.get("loop") else 1e-6

    @staticmethod
    def where(spec, op):
        d = spec["ops"][0][1]
        return dict(op=op[1] if op[0] in ("call", "attr") else op[0], cls=d["cls"], kind=d["kind"], solver=d["solver"], loop=d.get("loop"))

    def simplify(self, spec):
        if "ops" in spec:
            first = 3 if spec["ops"][0][1].get("loop") else 2
            for i in range(len(spec["ops"]) - 1, first - 1, -1):
                yield self.without(spec, i)

    def without(self, spec, i):
        out = dict(spec, ops=spec["ops"][:i] + spec["ops"][i + 1 :])
        for k in ("env",):
            if isinstance(spec.get(k), list):
                out[k] = spec[k][:i] + spec[k][i + 1 :]
        return out


# ------------------------------------------------------------------------------------------------ C13


class BadStream:
    """A terminal which has gone away."""

    def __init__(self, exc, bad=True):
        self.exc, self.bad = exc, bad

    def write(self, s):
        if self.bad:
            raise self.exc()

    def flush(self):
        self.write("")


CLOCKS = ["normal", "frozen", "back", "jump", "far"]


def set_clock(mode, seed):
    c = U.SERIAL_CLOCK
    c.hook = None
    c.step = 1e-6
    if mode == "frozen":
        c.step = 0.0
    elif mode == "back":
        c.step = -0.01
    elif mode == "far":
        c.step = 3.0e5
    elif mode == "jump":
        r = random.Random(seed)

        def hook(clock):
            clock.now += r.choice([0, 0, 1e-3, 7.0, -3600.0, 86400.0, -1e7, 1e9])

        c.hook = hook


class C13(Env):
    id = "C13"
    sizes = [1, 2, 3]
    quick_runs = 420
    quick_wall = 32
    thorough_runs = 40000
    thorough_wall = 1200
    weights = dict(rhf=4, uhf=3, ring=1, pbc=1, latt=1, sec=1, df=1, dmet=2, loop=2, screen=1, tccsd=1, edmet=0, pbc2d=0)
    rule = (
        "a run = a program (construction, kernel, queries, self-consistent loops) executed while the log level, the clock, the log files "
        "(open and write errors, short writes, closed streams, removed directories) and handlers change between operations; or the same on "
        "2 or 3 processes which share the error log; or an import of the package with command-line arguments; non-trivial = a fault fired "
        "or the level or clock was not the default; distinct = distinct program and surroundings, or distinct interleaving"
    )
    stub = ["clock (simulated)", "raw writes and opening of log files (pass through the fault plan)", "MPI library (simulated)"]
    assumptions = ["what the package prints besides its log (prints of libraries) is not judged"]

    def early(self):
        install()

    def surroundings(self, rng, spec, tier):
        u = rng.random()
        if u < 0.07:
            return self.argv_spec(rng)
        if u < 0.2:
            return self.mpi_spec(rng)
        env = []
        for _ in spec["ops"]:
            e = {}
            if rng.random() < 0.5 or not env:
                e["level"] = rng.choice(LEVELS)
            if rng.random() < 0.4:
                e["clock"] = [rng.choice(CLOCKS), rng.randrange(1 << 30)]
            if rng.random() < 0.35:
                e["plan"] = [
                    dict(kind=rng.choice(["open", "write", "write"]), n=rng.choice([0, 0, 1, 3, 10, 50]), what=rng.choice(["ENOSPC", "EIO", "EACCES", "short"]), last=rng.choice([0, 1, 10, 10**6]))
                    for _ in range(rng.choice([1, 1, 2]))
                ]
            if rng.random() < 0.2:
                e["act"] = rng.choice(["close", "rmdir", "mkdir-in-the-way", "none", "new_log", "stream"])
            if rng.random() < 0.1:
                e["errstate"] = rng.choice(["raise-none", "warn-error"])
            env.append(e)
        return dict(spec, mode="serial", env=env)

    def mpi_spec(self, rng):
        n = rng.choice([2, 2, 3])
        d = dict(cls="EWF", mf=rng.choice(["h2", "h4", "h3u"]), solver=rng.choice(["MP2", "CCSD"]), kind="rhf", bath=dict(bathtype="dmet"), frag=dict(kind="iao"))
        ops = [["new", d], ["kernel"]] + rng.sample([["call", "get_wf_energy", {}], ["call", "make_rdm1_demo", {}], ["attr", "e_tot"]], 2)
        return dict(mode="mpi", ops=ops, size=n, seed=rng.getrandbits(48), policy=spmd.random_policy(rng, n), level=rng.choice([60, 60, 20, 10, 1]), marks=rng.randrange(1 << 30))

    def argv_spec(self, rng):
        argv = []
        if rng.random() < 0.5:
            argv.append(rng.choice(["-v", "-vv", "-vvv", "--log-level=5", "--log-level=100", "-q"]))
        if rng.random() < 0.5:
            argv.append(rng.choice(["--log=", "--log=mine", "--log=a.txt"]))
        if rng.random() < 0.5:
            argv.append(rng.choice(["--errlog=", "--errlog=bad", "--errlog-level=10", "--errlog-level=40"]))
        if rng.random() < 0.3:
            argv.append(rng.choice(["--no-mpi", "--unknown=3", "input.dat"]))
        return dict(
            mode="argv",
            argv=argv,
            out=rng.choice([".", "new", "new/deep"]),
            stream=rng.choice([None, None, "BrokenPipeError", "ValueError"]),
            newlog=rng.choice([None, "second", "second"]),
            keep=rng.random() < 0.3,
            plan=[dict(kind=rng.choice(["open", "write"]), n=rng.choice([0, 1, 3]), what=rng.choice(["ENOSPC", "EACCES"]), last=10**6)] if rng.random() < 0.3 else [],
            level=rng.choice(LEVELS),
        )

    def refs(self, spec):
        if spec["mode"] == "argv":
            return []
        return [dict(ops=spec["ops"])]

    def run(self, spec, decisions, refs, ctx):
        DISK.start(os.path.join(ctx.scratch, "disk"))
        try:
            if spec["mode"] == "argv":
                return self.run_argv(spec, ctx)
            ref = refs[engine.key_of(self.refs(spec)[0])]
            if isinstance(ref, tuple) and ref and ref[0] == "ref-failed":
                return solo.outcome([], [], {"skipped:reference": 1}, "skip", nontrivial=False)
            if spec["mode"] == "mpi":
                return self.run_mpi(spec, decisions, ref, ctx)
            return self.run_serial(spec, ref, ctx)
        finally:
            DISK.stop()

    # ---- one process
    def run_serial(self, spec, ref, ctx):
        u = ctx.universes[1][0]
        viol, stats, errors = [], {}, []
        root_log = u.logging[0]
        lg = u.vayesta_logger()
        logs = DISK.path("logs")
        os.makedirs(logs, exist_ok=True)
        handlers = list(lg.handlers)
        np_err = np.geterr()
        t0 = U.SERIAL_CLOCK.now

        def lost(h, record):
            e = sys.exc_info()[1]
            if "simulated" in str(e) or isinstance(e, (BrokenPipeError, FileNotFoundError, IsADirectoryError, NotADirectoryError, PermissionError)):
                stats["record-lost-by-fault"] = stats.get("record-lost-by-fault", 0) + 1
                return
            if isinstance(e, ValueError) and "closed file" in str(e):
                return
            errors.append("%s(%s) in record %r %% %r of %s:%d" % (type(e).__name__, e, str(record.msg)[:80], str(record.args)[:80], os.path.basename(record.pathname), record.lineno))

        def before(i, op, s):
            e = spec["env"][i]
            DISK.arm([])
            if "level" in e:
                level[0] = e["level"]
                lg.setLevel(e["level"])
                stats["level:%d" % e["level"]] = 1
            if "clock" in e:
                set_clock(*e["clock"])
                stats["clock:" + e["clock"][0]] = 1
            act = e.get("act")
            if act:
                stats["act:" + act] = 1
            if act == "close":
                for h in lg.handlers:
                    h.close()
            elif act == "rmdir":
                for h in lg.handlers:
                    h.close()
                import shutil

                shutil.rmtree(logs, ignore_errors=True)
            elif act == "mkdir-in-the-way":
                import shutil

                shutil.rmtree(logs, ignore_errors=True)
                for h in lg.handlers:
                    h.close()
                    if isinstance(h, logging.FileHandler):
                        os.makedirs(h.baseFilename, exist_ok=True)
            elif act == "none":
                for h in list(lg.handlers):
                    lg.removeHandler(h)
            elif act == "new_log":
                sys.modules["vayesta"].new_log(os.path.join(logs, "other%d" % i))
            elif act == "stream":
                vlog = sys.modules["vayesta.core.vlog"]
                lg.addHandler(vlog.VStreamHandler(BadStream(BrokenPipeError), formatter=vlog.VFormatter(indent=True)))
            for h in lg.handlers:
                h.handleError = lambda record, h=h: lost(h, record)
            if e.get("errstate") == "raise-none":
                logging.raiseExceptions = False
            indent[0] = getattr(root_log, "indentLevel", None)
            DISK.arm(e.get("plan", []))

        def after(i, op, r, s):
            wh = self.where(spec, op)
            if DISK.fired:
                fired.append(repr(DISK.fired[:3]))
                for f in DISK.fired[:1]:
                    k = "fault:%s:%s" % (f[0], f[2])
                    stats[k] = stats.get(k, 0) + 1
            text = "%s at log level %r with %s" % (json.dumps(op)[:300], level[0], json.dumps(spec["env"][i]))
            if i >= len(ref):
                return True
            want = ref[i]
            if isinstance(r, WL.OpError) and not isinstance(want, WL.OpError):
                viol.append(dict(cls="error", text="%s raises %r" % (text, r), where=dict(wh, exc=r.type, site=r.site)))
            elif isinstance(r, WL.OpError):
                return op[0] in ("new", "loop", "kernel")
            else:
                dd = WL.diff(r, want, self.tolerance(spec))
                if dd:
                    viol.append(dict(cls="value", text="%s: %s" % (text, dd), where=wh))
            if errors:
                viol.append(dict(cls="record", text="%s: log record lost: %s" % (text, errors[0]), where=dict(wh, msg=errors[0][:60])))
            ind = getattr(root_log, "indentLevel", None)
            if ind != indent[0] and not isinstance(r, WL.OpError):
                viol.append(dict(cls="indent", text="%s: indentation of the log %r, was %r" % (text, ind, indent[0]), where=wh))
            return bool(viol)

        fired, level, indent, outs = [], [60], [0], []
        with u:
            u.redirect_logs(logs, 60)
            for h in lg.handlers:
                if isinstance(h, logging.FileHandler):
                    h.mode = "a"
            keep_raise = logging.raiseExceptions
            try:
                self.execute(ctx, spec["ops"], before, after, outs)
                # Once the disk works again, messages arrive
                DISK.arm([])
                if not viol:
                    e = self.arrives(u, lg, handlers, logs)
                    if e:
                        viol.append(dict(cls="silent", text="after the faults have ended: %s (history: %s)" % (e, json.dumps(spec["env"])), where=dict(op="log")))
            finally:
                logging.raiseExceptions = keep_raise
                set_clock("normal", 0)
                U.SERIAL_CLOCK.now = max(t0, min(U.SERIAL_CLOCK.now, t0 + 1e9))
                np.seterr(**np_err)
                root_log.indentLevel = 0
                for h in list(lg.handlers):
                    h.close()
                    lg.removeHandler(h)
                for h in handlers:
                    h.close()
                    h.stream = None
                    vars(h).pop("handleError", None)
                    lg.addHandler(h)
        nt = bool(fired) or any(e.get("level") not in (None, 60, 20) or e.get("clock", ["normal"])[0] != "normal" for e in spec["env"])
        stats["config:%s" % spec["ops"][0][1]["kind"]] = 1
        stats["operations"] = len(outs)
        return solo.outcome(viol, outs, stats, json.dumps([spec["ops"], spec["env"]]), nontrivial=nt, sample=dict(ops=spec["ops"], env=spec["env"], fired=fired[:5]))

    def arrives(self, u, lg, handlers, logs):
        """The file handlers which are still installed write again when they can."""
        import shutil

        lg.setLevel(20)
        todo = []
        for h in lg.handlers:
            if isinstance(h, logging.FileHandler):
                if os.path.isdir(h.baseFilename):
                    shutil.rmtree(h.baseFilename)
                os.makedirs(os.path.dirname(h.baseFilename), exist_ok=True)
                if h.stream is not None and not os.path.exists(h.baseFilename):
                    continue  # open, but removed: the messages go to the removed file
                todo.append(h)
        lg.error("simulated marker %d", 4711)
        for h in todo:
            try:
                with open(h.baseFilename) as f:
                    text = f.read()
            except FileNotFoundError:
                return "no file %s" % os.path.basename(h.baseFilename)
            n = len(re.findall(r"^.*\[ERROR\].*\|  .*simulated marker 4711$", text, re.M))
            if n != 1:
                return "a message arrived %d times in %s" % (n, os.path.basename(h.baseFilename))
        return None

    # ---- several processes
    def run_mpi(self, spec, decisions, ref, ctx):
        n = spec["size"]
        if any(isinstance(r, WL.OpError) for r in ref):
            ok = [i for i, r in enumerate(ref) if not isinstance(r, WL.OpError)]
            spec = dict(spec, ops=[spec["ops"][i] for i in ok])
            ref = [ref[i] for i in ok]
        logs = DISK.path("logs")
        os.makedirs(logs, exist_ok=True)
        outs = [[] for _ in range(n)]
        sent = [[] for _ in range(n)]

        def prog(rank):
            u = ctx.universes[n][rank]
            u.redirect_logs(logs, spec["level"])
            lg = u.vayesta_logger()
            r = random.Random(spec["marks"] + rank)
            s = WL.Session(ctx.mfs, rank)
            for i, op in enumerate(spec["ops"]):
                for k in range(r.choice([0, 1, 2, 5])):
                    m = "marker of %d: %d.%d" % (rank, i, k)
                    lg.critical(m) if spec["level"] <= 50 else lg.log(100, m)
                    sent[rank].append(m)
                    DISK.yield_point("log")
                outs[rank].append(WL.plain(s.do(op)))

        w = spmd.run_world(ctx, dict(spec, loglevel=60), decisions, prog)
        for u in ctx.universes[n]:
            for h in u.vayesta_logger().handlers:
                if isinstance(h, logging.FileHandler):
                    h.close()
                    h.stream = None
        viol = spmd.world_violations(w, self.where(spec, ["mpi"]))
        if not viol:
            for r in range(n):
                for i, op in enumerate(spec["ops"]):
                    dd = WL.diff(outs[r][i], ref[i], self.tolerance(spec)) if i < len(ref) and not isinstance(ref[i], WL.OpError) else None
                    if dd:
                        viol.append(dict(cls="value", text="%s on rank %d at log level %d: %s" % (json.dumps(op), r, spec["level"], dd), where=self.where(spec, op)))
            viol += self.judge_files(spec, logs, sent, n)
        return spmd.outcome(w, outs, viol, {"config:mpi": 1, "markers": sum(map(len, sent))}, sample=dict(size=n, ops=spec["ops"], level=spec["level"]))

    def judge_files(self, spec, logs, sent, n):
        viol = []
        seen = [[] for _ in range(n)]
        for name in sorted(os.listdir(logs)):
            with open(os.path.join(logs, name)) as f:
                lines = f.read().split("\n")
            if name.startswith("verr"):
                for l in lines:
                    m = re.search(r"marker of (\d+): (\S+)", l)
                    if m is None:
                        continue
                    p = re.match(r"^(\[\w+\])?\[MPI (\d+)\]\s*\|  marker of (\d+): \d+\.\d+$", l)
                    if p is None or p.group(2) != p.group(3):
                        viol.append(dict(cls="record", text="line %r of the common error log" % l, where=dict(op="log")))
                    else:
                        seen[int(p.group(2))].append(l[l.index("marker") :])
            else:
                m = re.search(r"mpi(\d+)", name)
                if m is None:
                    viol.append(dict(cls="record", text="log file %s has no rank in its name" % name, where=dict(op="log")))
                    continue
                r = int(m.group(1))
                got = [l[l.index("marker of") :] for l in lines if "marker of" in l]
                if got != sent[r]:
                    viol.append(dict(cls="record", text="log file %s has %r, but rank %d wrote %r" % (name, got, r, sent[r]), where=dict(op="log")))
        for r in range(n):
            if seen[r] != sent[r] and not viol:
                viol.append(dict(cls="record", text="the common error log has %r of rank %d, which wrote %r" % (seen[r], r, sent[r]), where=dict(op="log")))
        return viol

    # ---- import with arguments
    def run_argv(self, spec, ctx):
        res = forked(lambda: self.argv_child(spec, ctx))
        viol = [dict(cls=c, text="%s [%s]" % (t, json.dumps(spec)), where=dict(op="import", what=c)) for c, t in res]
        stats = {"config:argv": 1}
        return solo.outcome(viol, [], stats, json.dumps(spec), nontrivial=True, sample=spec)

    def argv_child(self, spec, ctx):
        viol = []
        cwd = DISK.path("cwd")
        os.makedirs(cwd)
        os.chdir(cwd)
        out, err = sys.stdout, sys.stderr
        sys.argv = ["sim"] + list(spec["argv"]) + ["-o", spec["out"]]
        # libraries were imported already by others: only the package is new
        mods = list(U.MODULES)
        exc = dict(BrokenPipeError=BrokenPipeError, ValueError=lambda: ValueError("I/O operation on closed file."))
        sys.stdout = sys.stderr = term = BadStream(exc[spec["stream"] or "ValueError"], False)
        try:
            u = U.Universe.__new__(U.Universe)
            u.size, u.rank, u.modules, u.logging, u.outdir, u._saved, u._depth = 1, 0, {}, None, None, None, 0
            u.rng = np.random.get_state()
            DISK.arm(spec["plan"])
            try:
                u.import_as(mods, list(sys.argv))
            except BaseException as e:
                return [("import", "import raises %r" % WL.OpError(e))]
            # The terminal goes away while the package is in use
            term.bad = bool(spec["stream"])
            with u:
                v = sys.modules["vayesta"]
                lg = u.vayesta_logger()
                logging.raiseExceptions = False
                try:
                    if spec["newlog"]:
                        v.new_log(spec["newlog"], remove_existing=not spec["keep"])
                    lg.setLevel(spec["level"])
                    emb = sys.modules["vayesta.ewf"].EWF(ctx.mfs.get("h2"), bath_options=dict(bathtype="dmet"))
                    with emb.iao_fragmentation() as f:
                        f.add_all_atomic_fragments()
                    e = emb.kernel()
                except BaseException as e:
                    return [("error", "calculation raises %r" % WL.OpError(e))]
                with ctx.universes[1][0] as u0:
                    u0.redirect_logs(ctx.scratch, 60)
                    emb = sys.modules["vayesta.ewf"].EWF(ctx.mfs.get("h2"), bath_options=dict(bathtype="dmet"))
                    with emb.iao_fragmentation() as f:
                        f.add_all_atomic_fragments()
                    want = emb.kernel()
                if abs(e - want) > 1e-8:
                    viol.append(("value", "energy %r, not %r" % (e, want)))
                DISK.arm([])
                lg.setLevel(20)
                lg.info("simulated information")
                lg.error("simulated failure")
                if not spec["plan"]:
                    viol += self.argv_files(spec, cwd)
        finally:
            sys.stdout, sys.stderr = out, err
            os.chdir("/")
        return viol

    def argv_files(self, spec, cwd):
        """The log files asked for are there and have the messages."""
        a = dict(x.lstrip("-").split("=", 1) for x in spec["argv"] if "=" in x)
        log = a.get("log", "vlog.txt")
        errlog = a.get("errlog", "verr.txt")
        base = os.path.join(cwd, spec["out"])
        txt = lambda x: x if x.endswith(".txt") else x + ".txt"
        want = {}
        if log and (not spec["newlog"] or spec["keep"]):
            want[os.path.join(base, txt(log))] = ["simulated information", "simulated failure"]
        if spec["newlog"]:
            want[os.path.join(cwd, txt(spec["newlog"]))] = ["simulated information", "simulated failure"]
        if errlog:
            lvl = int(a.get("errlog-level", 30))
            want[os.path.join(base, txt(errlog))] = (["simulated information"] if lvl <= 20 else []) + ["simulated failure"]
        out = []
        have = set()
        for d, _, files in os.walk(cwd):
            have |= {os.path.realpath(os.path.join(d, f)) for f in files}
        for p, msgs in want.items():
            p = os.path.realpath(p)
            if p not in have:
                out.append(("file", "there is no log file %s (only %r)" % (os.path.relpath(p, cwd), sorted(os.path.relpath(x, cwd) for x in have))))
                continue
            with open(p) as f:
                text = f.read()
            got = [m for m in re.findall(r"simulated \w+$", text, re.M)]
            if got != msgs:
                out.append(("file", "log file %s has the messages %r, not %r" % (os.path.relpath(p, cwd), got, msgs)))
        return out

    def simplify(self, spec):
        if spec["mode"] == "serial":
            yield from Env.simplify(self, spec)
            for i, e in enumerate(spec["env"]):
                for k in e:
                    yield dict(spec, env=spec["env"][:i] + [{a: b for a, b in e.items() if a != k}] + spec["env"][i + 1 :])
        elif spec["mode"] == "argv":
            for k, x in (("plan", []), ("stream", None), ("newlog", None), ("out", ".")):
                if spec[k] != x:
                    yield dict(spec, **{k: x})
            for i in range(len(spec["argv"])):
                yield dict(spec, argv=spec["argv"][:i] + spec["argv"][i + 1 :])


# ------------------------------------------------------------------------------------------------ C14


class C14(Env):
    id = "C14"
    quick_runs = 420
    quick_wall = 32
    thorough_runs = 40000
    thorough_wall = 1200
    weights = dict(rhf=2, uhf=3, ring=1, pbc=3, latt=1, sec=0, df=5, dmet=1, loop=1, screen=3, tccsd=1, edmet=1, pbc2d=3)
    mfs = list(WL.MF_SPECS)
    rule = (
        "a run = a program executed with simulated readings of the used memory, memory limits (of the mean field, of PySCF, and the ones "
        "written into the package) and partitions of the density-fitting integrals into blocks; non-trivial = a reading, a limit or a "
        "block partition took effect; distinct = distinct program and memory plan"
    )
    stub = ["readings of the used memory", "limits in bytes inside functions of the package (replaced in their code objects)", "block partition of the density-fitting loops", "clock (simulated)"]
    assumptions = ["a calculation may end with an error which names memory when the memory is too small; it must not end with another result"]

    def surroundings(self, rng, spec, tier):
        plan = {}
        if rng.random() < 0.7:
            plan["limit"] = rng.choice([1, 100, 1000, 10**4, 10**5, 10**6, rng.randint(1, 20000)])
        if rng.random() < 0.6:
            plan["used"] = [rng.choice([0, 1, 100, 3999, 4000, 4001, 1e6, 1e9]) for _ in range(rng.choice([1, 1, 2, 3, 7]))]
        if rng.random() < 0.5:
            plan["max"] = rng.choice([0, 1, 10, 1000, 4000, 16000, 1e6])
        if rng.random() < 0.4:
            plan["blkmin"] = rng.choice([1, 1, 2, 3])
        if rng.random() < 0.4:
            plan["config"] = rng.choice([1, 10, 100, 1000, 1e5])
        if rng.random() < 0.6:
            plan["blocks"] = rng.randrange(1 << 30)
        if rng.random() < 0.4:
            plan["blksize"] = rng.choice([1, 2, 3, 7, 50])
        return dict(spec, plan=plan)

    def run(self, spec, decisions, refs, ctx):
        ref = refs[engine.key_of(self.refs(spec)[0])]
        if isinstance(ref, tuple) and ref and ref[0] == "ref-failed":
            return solo.outcome([], [], {"skipped:reference": 1}, "skip", nontrivial=False)
        u = ctx.universes[1][0]
        viol, outs = [], []
        mem = Memory()
        plan = spec["plan"]

        class Fields:
            def get(self, name):
                mf = ctx.mfs.get(name)
                if plan.get("max") is not None:
                    mf.max_memory = plan["max"]
                return mf

        class Ctx:
            mfs = Fields()

        def after(i, op, r, s):
            wh = self.where(spec, op)
            if i >= len(ref):
                return True
            want = ref[i]
            text = "%s with %s" % (json.dumps(op)[:300], json.dumps(plan))
            if isinstance(r, WL.OpError):
                if isinstance(want, WL.OpError):
                    return op[0] in ("new", "loop", "kernel")
                if r.type in ("MemoryError", "NotImplementedError") or "memory" in r.text.lower():
                    mem.count("refused-for-memory")
                    return True
                viol.append(dict(cls="error", text="%s raises %r" % (text, r), where=dict(wh, exc=r.type, site=r.site)))
            else:
                dd = WL.diff(r, want, self.tolerance(spec))
                if dd:
                    viol.append(dict(cls="value", text="%s: %s" % (text, dd), where=wh))
            return bool(viol)

        with u:
            u.redirect_logs(ctx.scratch, 60)
            with mem.on(plan):
                self.execute(Ctx, spec["ops"], None, after, outs)
        stats = dict(mem.stats)
        stats["operations"] = len(outs)
        stats["config:%s" % spec["ops"][0][1]["kind"]] = 1
        for k in plan:
            stats["plan:" + k] = 1
        return solo.outcome(viol, outs, stats, json.dumps([spec["ops"], plan]), nontrivial=bool(mem.stats), sample=spec)

    def simplify(self, spec):
        yield from Env.simplify(self, spec)
        for k in spec["plan"]:
            yield dict(spec, plan={a: b for a, b in spec["plan"].items() if a != k})


# ------------------------------------------------------------------------------------------------ C15


class C15(Env):
    id = "C15"
    quick_runs = 320
    quick_wall = 32
    thorough_runs = 40000
    thorough_wall = 1200
    rule = (
        "a run = a program executed with other states of the global random generators (also changed between the operations), another "
        "layout of the heap (order of ids), another number of fragments and objects made before, or in a new process with another hash "
        "seed; non-trivial = every run; distinct = distinct program and surroundings"
    )
    stub = ["state of the global random generators", "hash seed of strings", "clock (simulated)"]
    assumptions = ["the FCI solver perturbs its initial guess with noise from the global generator by design; its results are compared to its convergence"]

    def surroundings(self, rng, spec, tier):
        if rng.random() < 0.06:
            return dict(spec, mode="process", hashseed=rng.randrange(1, 1 << 31), rng=rng.randrange(1 << 30))
        env = []
        for _ in spec["ops"]:
            env.append(dict(rng=rng.choice([None, 0, 1, rng.randrange(1 << 30)]), junk=rng.choice([0, 0, 1, 3000]), other=rng.random() < 0.1, gc=rng.random() < 0.3))
        return dict(spec, mode="serial", env=env)

    def run(self, spec, decisions, refs, ctx):
        ref = refs[engine.key_of(self.refs(spec)[0])]
        if isinstance(ref, tuple) and ref and ref[0] == "ref-failed":
            return solo.outcome([], [], {"skipped:reference": 1}, "skip", nontrivial=False)
        viol, outs, stats = [], [], {}

        def judge(i, op, r):
            wh = self.where(spec, op)
            if i >= len(ref):
                return True
            want = ref[i]
            text = "%s with %s" % (json.dumps(op)[:300], json.dumps({k: v for k, v in spec.items() if k != "ops"})[:600])
            if isinstance(r, WL.OpError):
                if isinstance(want, WL.OpError):
                    return op[0] in ("new", "loop", "kernel")
                viol.append(dict(cls="error", text="%s raises %r" % (text, r), where=dict(wh, exc=r.type, site=r.site)))
            elif not isinstance(want, WL.OpError):
                dd = WL.diff(r, want, self.tolerance(spec))
                if dd:
                    viol.append(dict(cls="value", text="%s: %s" % (text, dd), where=wh))
            return bool(viol)

        if spec["mode"] == "process":
            outs = self.other_process(spec, ctx)
            for i, r in enumerate(outs):
                if judge(i, spec["ops"][i], r):
                    break
            stats["other-process"] = 1
        else:
            hold = []

            def before(i, op, s):
                e = spec["env"][i]
                if e["rng"] is not None:
                    np.random.seed(e["rng"] % (1 << 32))
                    random.seed(e["rng"])
                    stats["random-state"] = stats.get("random-state", 0) + 1
                if e["junk"]:
                    r = random.Random(i)
                    hold.append([[object() for _ in range(r.randrange(20))] for _ in range(e["junk"])])
                    if r.random() < 0.5 and len(hold) > 1:
                        hold.pop(0)
                if e["gc"]:
                    gc.collect()
                if e["other"]:
                    WL.make_emb(ctx.mfs, dict(cls="EWF", mf="h2", solver="MP2", frag=dict(kind="iao"), bath=dict(bathtype="dmet"))).kernel()
                    stats["other-object"] = stats.get("other-object", 0) + 1

            u = ctx.universes[1][0]
            with u:
                u.redirect_logs(ctx.scratch, 60)
                self.execute(ctx, spec["ops"], before, lambda i, op, r, s: judge(i, op, r), outs)
        stats["operations"] = len(outs)
        stats["config:%s" % spec["ops"][0][1]["kind"]] = 1
        return solo.outcome(viol, outs, stats, json.dumps(spec), nontrivial=True, sample=spec)

    def other_process(self, spec, ctx):
        import pickle

        src = os.path.join(ctx.scratch, "ops.json")
        dst = os.path.join(ctx.scratch, "out.pickle")
        with open(src, "w") as f:
            json.dump(dict(ops=spec["ops"], rng=spec["rng"]), f)
        env = dict(os.environ, PYTHONHASHSEED=str(spec["hashseed"] % (1 << 32)), OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1")
        here = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
        env["PYTHONPATH"] = here
        p = subprocess.run(
            [sys.executable, "-c", "from vsim.checks import env; env.alone(%r, %r)" % (src, dst)], env=env, cwd=ctx.scratch, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, timeout=200
        )
        if p.returncode or not os.path.exists(dst):
            raise RuntimeError("process failed: %s" % p.stderr.decode()[-600:])
        with open(dst, "rb") as f:
            return pickle.load(f)


def alone(src, dst):
    """Entry point of another process."""
    import pickle

    with open(src) as f:
        j = json.load(f)
    c = C15()

    class Ctx:
        scratch = os.path.dirname(dst)

    ctx = Ctx()
    us = U.prepare([1], c.modules, ctx.scratch)
    ctx.mfs = WL.MeanFields([j["ops"][0][1]["mf"]])
    with us[1][0] as u:
        u.redirect_logs(ctx.scratch, 60)
        np.random.seed(j["rng"])
        out = c.execute(ctx, j["ops"])
    with open(dst, "wb") as f:
        pickle.dump(out, f)

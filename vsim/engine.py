"""Running simulated runs: one forked child per run, parallel search over seeds, minimisation, replay, evidence."""

import collections
import hashlib
import json
import os
import pickle
import random
import select
import shutil
import signal
import sys
import tempfile
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

NPROC = int(os.environ.get("VSIM_WORKERS", "0")) or min(8, os.cpu_count() or 1)


class HarnessError(Exception):
    """The machinery itself failed (neither a pass nor a violation)."""


# ------------------------------------------------------------------------------------------------ fork map


def _child(fn, item, wfd, scratch):
    code = 0
    try:
        signal.signal(signal.SIGINT, signal.SIG_IGN)
        devnull = os.open(os.devnull, os.O_WRONLY)
        os.dup2(devnull, 1)
        if not os.environ.get("VSIM_DEBUG"):
            os.dup2(devnull, 2)
        os.chdir(scratch)
        tempfile.tempdir = scratch
        try:
            out = ("ok", fn(item, scratch))
        except BaseException as e:  # harness failure
            out = ("harness", "%s: %s\n%s" % (type(e).__name__, e, traceback.format_exc()))
        data = pickle.dumps(out, protocol=pickle.HIGHEST_PROTOCOL)
        with os.fdopen(wfd, "wb") as f:
            f.write(data)
    except BaseException:
        code = 3
    finally:
        os._exit(code)


def fork_map(fn, items, scratch_root, nproc=None, timeout=150.0, deadline=None, on_result=None):
    """Run fn(item, scratch) in a forked child for every item. Yields nothing; calls on_result(index, status, value).
    status: 'ok', 'harness', 'timeout', 'died'.  Stops launching after `deadline` (time.monotonic()).
    If on_result returns True, stops early."""
    nproc = nproc or NPROC
    it = iter(enumerate(items))
    live = {}
    stop = False
    exhausted = False
    n_done = 0
    while True:
        while not stop and not exhausted and len(live) < nproc:
            if deadline is not None and time.monotonic() > deadline:
                exhausted = True
                break
            try:
                i, item = next(it)
            except StopIteration:
                exhausted = True
                break
            scratch = tempfile.mkdtemp(prefix="run%d_" % i, dir=scratch_root)
            r, w = os.pipe()
            sys.stdout.flush()
            sys.stderr.flush()
            pid = os.fork()
            if pid == 0:
                os.close(r)
                for fd in list(live):
                    os.close(fd)
                _child(fn, item, w, scratch)
            os.close(w)
            live[r] = dict(pid=pid, i=i, t0=time.monotonic(), buf=[], scratch=scratch)
        if not live:
            break
        ready, _, _ = select.select(list(live), [], [], 0.5)
        for fd in ready:
            chunk = os.read(fd, 1 << 20)
            if chunk:
                live[fd]["buf"].append(chunk)
                continue
            c = live.pop(fd)
            os.close(fd)
            _, st = os.waitpid(c["pid"], 0)
            try:
                status, val = pickle.loads(b"".join(c["buf"]))
            except Exception:
                status, val = "died", "child exit status %r" % (st,)
            shutil.rmtree(c["scratch"], ignore_errors=True)
            n_done += 1
            if on_result(c["i"], status, val):
                stop = True
        now = time.monotonic()
        for fd, c in list(live.items()):
            if now - c["t0"] > timeout or stop:
                os.kill(c["pid"], signal.SIGKILL)
                os.waitpid(c["pid"], 0)
                os.close(fd)
                live.pop(fd)
                shutil.rmtree(c["scratch"], ignore_errors=True)
                if not stop:
                    if on_result(c["i"], "timeout", "no result after %.0f s" % timeout):
                        stop = True
    return n_done


def run_one(fn, item, scratch_root, timeout=150.0):
    box = []
    fork_map(fn, [item], scratch_root, nproc=1, timeout=timeout, on_result=lambda i, s, v: box.append((s, v)))
    return box[0]


# ------------------------------------------------------------------------------------------------ check driver


def build_lib(repo=os.environ.get("VSIM_REPO", "/repo")):
    """Bring the C library up to date with its sources (same steps as the repository's build; ignored by git)."""
    import subprocess

    b = os.path.join(repo, "build", "cmake")
    env = dict(os.environ, PATH="/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin")
    if not os.path.isdir(os.path.join(repo, "vayesta", "libs")):
        return
    for cmd in (
        ["cmake", "-S", os.path.join(repo, "vayesta", "libs"), "-B", b, "-DCMAKE_C_COMPILER=/usr/bin/gcc",
         "-DCOMPILER_SUPPORTS_MARCH_NATIVE=OFF", "-DCMAKE_POLICY_VERSION_MINIMUM=3.5"],
        ["cmake", "--build", b],
    ):
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=env, timeout=300)
        if r.returncode != 0:
            raise HarnessError("building the C library failed:\n" + r.stdout.decode(errors="replace")[-2000:])


def stable_rng(*parts):
    return random.Random(hashlib.sha256(repr(parts).encode()).hexdigest())


def key_of(obj):
    return hashlib.sha1(json.dumps(obj, sort_keys=True).encode()).hexdigest()[:16]


class Check:
    """One property's check. Subclasses define the workload, fault space and oracle."""

    id = None
    sizes = [1]
    modules = None
    technique = "seeded deterministic simulation with fault injection"
    level = "exploration"
    quick_runs = 200
    thorough_runs = 5000
    quick_wall = 60
    thorough_wall = 1500
    run_timeout = 150.0
    rule = ""
    assumptions = []
    real = []
    stub = []

    def early(self):
        """Before the package is imported."""

    def prepare(self, ctx):
        pass

    def spec(self, rng, i, tier):
        raise NotImplementedError

    def refs(self, spec):
        """Serial reference computations needed: list of JSON-able specs."""
        return []

    def compute_ref(self, ref, ctx):
        raise NotImplementedError

    def run(self, spec, decisions, refs, ctx):
        """Execute. Returns dict(violations=[{cls,text}], decisions=[...], stats={}, digest=str, nontrivial=bool,
        simtime=float, key=str)"""
        raise NotImplementedError

    def simplify(self, spec):
        """Candidate simpler specs (for minimisation)."""
        return []


class Ctx:
    def __init__(self, check, scratch):
        self.check = check
        self.scratch = scratch
        self.universes = {}
        self.data = {}
        self.refs = {}


def _run_child(args, scratch):
    check, ctx, spec, decisions, refs = args
    ctx.scratch = scratch
    return check.run(spec, decisions, refs, ctx)


def _ref_child(args, scratch):
    check, ctx, ref = args
    ctx.scratch = scratch
    return check.compute_ref(ref, ctx)


class Driver:
    def __init__(self, check, seed, tier, verbose=True):
        self.check, self.seed, self.tier = check, seed, tier
        check.seed = seed
        self.t0 = time.monotonic()
        self.root = tempfile.mkdtemp(prefix="vsim_%s_" % check.id, dir=os.environ.get("VSIM_TMP", "/tmp"))
        self.ctx = Ctx(check, self.root)
        self.verbose = verbose
        self.hangs = 0

    def say(self, *a):
        if self.verbose:
            print("[%7.1fs]" % (time.monotonic() - self.t0), *a, flush=True)

    def close(self):
        shutil.rmtree(self.root, ignore_errors=True)

    def prepare(self):
        from . import universe as U

        build_lib()
        sys.dont_write_bytecode = False
        sys.pycache_prefix = os.path.join(self.root, "pyc")
        self.check.early()
        self.ctx.universes = U.prepare(self.check.sizes, self.check.modules, outdir=self.root)
        self.check.prepare(self.ctx)
        self.say("prepared (world sizes %s)" % (self.check.sizes,))

    # ---- references
    def need_refs(self, specs):
        todo = collections.OrderedDict()
        for s in specs:
            for r in self.check.refs(s):
                k = key_of(r)
                if k not in self.ctx.refs and k not in todo:
                    todo[k] = r
        if not todo:
            return
        keys, refs = list(todo), list(todo.values())
        errs = []

        def on(i, status, val):
            if status == "ok":
                self.ctx.refs[keys[i]] = val
            else:
                errs.append((refs[i], status, val))

        fork_map(
            _ref_child,
            ((self.check, self.ctx, r) for r in refs),
            self.root,
            timeout=self.check.run_timeout,
            on_result=on,
        )
        if errs:
            for ref, status, val in errs:
                self.ctx.refs[key_of(ref)] = ("ref-failed", status, val)

    def refs_for(self, spec):
        return {key_of(r): self.ctx.refs[key_of(r)] for r in self.check.refs(spec)}

    def run_spec(self, spec, decisions=None):
        self.need_refs([spec])
        return self._finish(
            run_one(
                _run_child,
                (self.check, self.ctx, spec, decisions, self.refs_for(spec)),
                self.root,
                timeout=self.check.run_timeout,
            )
        )

    def _finish(self, sv):
        status, val = sv
        if status == "ok":
            return val
        if status == "timeout":
            return dict(
                violations=[dict(cls="hang", text="the run made no progress: " + val)],
                decisions=None,
                stats={},
                digest="hang",
                nontrivial=True,
                simtime=0.0,
                key="hang",
            )
        if status == "died":
            return dict(
                violations=[dict(cls="crash", text="the interpreter died: " + val)],
                decisions=None,
                stats={},
                digest="crash",
                nontrivial=True,
                simtime=0.0,
                key="crash",
            )
        raise HarnessError(val)

    # ---- search
    def search(self, nruns, wall, known):
        check = self.check
        res = dict(
            runs=0,
            keys=set(),
            nontrivial=0,
            stats=collections.Counter(),
            simtime=0.0,
            digests=hashlib.sha256(),
            samples=[],
            violations=[],
            known=collections.OrderedDict(),
            digest_list={},
        )
        deadline = self.t0 + wall
        specs = [check.spec(stable_rng(self.seed, check.id, i), i, self.tier) for i in range(nruns)]
        chunk = 256 if self.tier == "thorough" else 1024
        for base in range(0, nruns, chunk):
            part = specs[base : base + chunk]
            if time.monotonic() > deadline:
                break
            self.need_refs(part)
            self.say("references ready (%d)" % len(self.ctx.refs))
            timeouts = []

            def on(i, status, val, base=base, part=part):
                if status == "timeout":
                    timeouts.append(i)
                    return len(timeouts) >= 3
                out = self._finish((status, val))
                out["i"] = base + i
                self._account(res, part[i], out, known)
                return len(res["violations"]) >= 3

            fork_map(
                _run_child,
                ((check, self.ctx, s, None, self.refs_for(s)) for s in part),
                self.root,
                timeout=check.run_timeout,
                deadline=deadline,
                on_result=on,
            )
            for i in timeouts[:1]:  # confirm a hang alone, with twice the time
                st = run_one(
                    _run_child,
                    (check, self.ctx, part[i], None, self.refs_for(part[i])),
                    self.root,
                    timeout=2 * check.run_timeout,
                )
                out = self._finish(st)
                out["i"] = base + i
                self._account(res, part[i], out, known)
            if res["violations"]:
                break
        return res

    def _account(self, res, spec, out, known):
        res["runs"] += 1
        res["stats"].update(out.get("stats") or {})
        res["simtime"] += out.get("simtime") or 0.0
        res["digest_list"][out["i"]] = out.get("digest")
        if out.get("nontrivial"):
            res["keys"].add(out.get("key"))
        if out.get("sample") is not None and len(res["samples"]) < 4:
            res["samples"].append(out["sample"])
        fresh = []
        for v in out["violations"]:
            hit = match_known(known, self.check.id, v, spec)
            if hit is not None:
                res["known"].setdefault(hit["id"], hit)
                res["stats"]["known:" + hit["id"]] += 1
            else:
                fresh.append(v)
        if fresh:
            res["violations"].append((spec, out, fresh))

    # ---- minimisation
    def minimise(self, spec, out, cls, known, budget=120.0):
        t_end = time.monotonic() + budget
        best = (spec, out["decisions"], out)

        def fails(s, d):
            o = self.run_spec(s, d)
            ok = any(
                v["cls"] == cls and match_known(known, self.check.id, v, s) is None for v in o["violations"]
            )
            return o if ok else None

        if out["decisions"] is None:
            return best
        # confirm that it replays
        o = fails(spec, out["decisions"])
        if o is None:
            return None
        best = (spec, o["decisions"], o)
        # 1. simpler specs
        progress = True
        while progress and time.monotonic() < t_end:
            progress = False
            for cand in self.check.simplify(best[0]):
                if time.monotonic() > t_end:
                    break
                for dec in (best[1], []):
                    o = fails(cand, dec)
                    if o is not None:
                        best = (cand, o["decisions"], o)
                        progress = True
                        break
                if progress:
                    break
        # 2. truncate / zero decisions
        spec_, dec, o_ = best
        dec = _strip(dec)
        for cut in (0, len(dec) // 4, len(dec) // 2):
            if time.monotonic() > t_end:
                break
            o = fails(spec_, dec[:cut])
            if o is not None:
                dec, o_ = _strip(dec[:cut]), o
                break
        size = max(1, len([d for d in dec if d]) // 2)
        while size >= 1 and time.monotonic() < t_end:
            nz = [i for i, d in enumerate(dec) if d]
            changed = False
            for k in range(0, len(nz), size):
                if time.monotonic() > t_end:
                    break
                cand = list(dec)
                for i in nz[k : k + size]:
                    cand[i] = 0
                cand = _strip(cand)
                o = fails(spec_, cand)
                if o is not None:
                    dec, o_, changed = cand, o, True
                    break
            if not changed:
                size //= 2
        return (spec_, dec, o_)


def _strip(dec):
    dec = list(dec)
    while dec and dec[-1] == 0:
        dec.pop()
    return dec


# ------------------------------------------------------------------------------------------------ known findings


def load_known():
    path = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(path):
        return []
    with open(path) as f:
        return json.load(f)["findings"]


def _subset(pat, obj):
    """pat is contained in obj: dicts by key, a list pattern means 'one of'."""
    if isinstance(pat, dict):
        return isinstance(obj, dict) and all(k in obj and _subset(v, obj[k]) for k, v in pat.items())
    if isinstance(pat, list):
        return obj in pat
    return pat == obj


def match_known(known, pid, v, spec):
    for k in known:
        if k.get("status") != "known" or pid not in k["properties"]:
            continue
        if v["cls"] not in k["classes"]:
            continue
        if _subset(k.get("where", {}), v.get("where", {})):
            return k
    return None


# ------------------------------------------------------------------------------------------------ entry point


def main(check, argv):
    import argparse

    ap = argparse.ArgumentParser()
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"), choices=["quick", "thorough"])
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    ap.add_argument("--replay")
    ap.add_argument("--runs", type=int)
    ap.add_argument("--wall", type=float)
    ap.add_argument("--digest", help="write the per-run digests to this file (determinism proof)")
    ap.add_argument("--only", type=int, help="execute only run number N, verbosely")
    ap.add_argument("--no-evidence", action="store_true")
    ap.add_argument("--all", action="store_true", help="report all classes, without minimising")
    a = ap.parse_args(argv)
    print("VSIM property=%s tier=%s seed=%d" % (check.id, a.tier, a.seed), flush=True)
    d = Driver(check, a.seed, a.tier)
    try:
        if a.replay:
            return replay(d, a.replay)
        d.prepare()
        if a.only is not None:
            spec = check.spec(stable_rng(a.seed, check.id, a.only), a.only, a.tier)
            print(json.dumps(spec, indent=1))
            out = d.run_spec(spec)
            dec = out.pop("decisions")
            print(json.dumps({k: v for k, v in out.items()}, indent=1, default=repr)[:6000])
            print("decisions", len(dec or []), (dec or [])[:50])
            return 0
        return do_search(d, a)
    except HarnessError as e:
        print("HARNESS-ERROR property=%s\n%s" % (check.id, e), flush=True)
        return 2
    finally:
        d.close()


def do_search(d, a):
    check = d.check
    known = load_known()
    nruns = a.runs or (check.quick_runs if a.tier == "quick" else check.thorough_runs)
    wall = a.wall or (check.quick_wall if a.tier == "quick" else check.thorough_wall)
    if a.all:
        known_ = known
        allv = collections.OrderedDict()
        orig = d._account

        def acc(res, spec, out, known):
            orig(res, spec, out, known)
            for s, o, fresh in res["violations"]:
                for v in fresh:
                    w = v.get("where", {})
                    k = "%s | %s | %s" % (v["cls"], w.get("site"), w.get("op"))
                    allv.setdefault(k, []).append((o["i"], v["text"]))
            res["violations"].clear()

        d._account = acc
        res = d.search(nruns, wall, known_)
        for c, lst in allv.items():
            print("== %s  x%d  runs %s" % (c, len(lst), [x[0] for x in lst[:12]]))
            print("     ", lst[0][1][:1500])
        print("runs", res["runs"], "stats", dict(res["stats"]), "distinct", len(res["keys"]))
        return 0
    res = d.search(nruns, wall, known)
    d.say("%d runs, %d distinct non-trivial" % (res["runs"], len(res["keys"])))
    if a.digest:
        with open(a.digest, "w") as f:
            json.dump({str(k): v for k, v in sorted(res["digest_list"].items())}, f, indent=0)
    rc = 0
    nviol = 0
    for hit in res["known"].values():
        print("KNOWN-FINDING: property=%s %s" % (check.id, hit["what"]))
    if res["runs"] == 0:
        raise HarnessError("no run was executed")
    if res["violations"]:
        res["violations"].sort(key=lambda x: x[1]["i"])
        spec, out, fresh = res["violations"][0]
        nviol = len(res["violations"])
        v = fresh[0]
        print("run %d violates: [%s] %s" % (out["i"], v["cls"], v["text"]))
        m = d.minimise(spec, out, v["cls"], known)
        if m is None:
            # does not reproduce: the machinery is not deterministic for this run
            again = [d.run_spec(spec, None) for _ in range(3)]
            if all(any(x["cls"] == v["cls"] for x in o["violations"]) for o in again):
                m = (spec, None, again[0])
            else:
                raise HarnessError("violation did not replay: %r" % (v,))
        path = write_replay(d, m, v["cls"], known)
        print("VIOLATION property=%s replay=%s" % (check.id, path), flush=True)
        rc = 1
    if not a.no_evidence:
        write_evidence(d, res, nviol)
    return rc


def write_replay(d, m, cls, known):
    spec, dec, out = m
    v = next(x for x in out["violations"] if x["cls"] == cls)
    os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
    path = os.path.join(VERIF, "replays", "%s-seed%d-%s.json" % (d.check.id, d.seed, key_of([spec, dec])))
    with open(path, "w") as f:
        json.dump(
            dict(
                property=d.check.id,
                seed=d.seed,
                spec=spec,
                decisions=dec,
                violation=v,
                faults={k: n for k, n in (out.get("stats") or {}).items() if k.startswith("fault:")},
                trace=out.get("trace"),
                how="python check.py %s --replay %s" % (d.check.id, path),
            ),
            f,
            indent=1,
            default=repr,
        )
    print("minimised: [%s] %s" % (v["cls"], v["text"]))
    return path


def replay(d, path):
    with open(path) as f:
        r = json.load(f)
    d.prepare()
    out = d.run_spec(r["spec"], r["decisions"])
    want = r["violation"]["cls"]
    for v in out["violations"]:
        print("[%s] %s" % (v["cls"], v["text"]))
    if any(v["cls"] == want for v in out["violations"]):
        print("VIOLATION property=%s replay=%s" % (d.check.id, path), flush=True)
        return 1
    print("replay did not reproduce the violation %r" % want)
    return 0


def write_evidence(d, res, nviol):
    check = d.check
    wall = time.monotonic() - d.t0
    st = dict(res["stats"])
    faults = {k[6:]: v for k, v in st.items() if k.startswith("fault:")}
    ev = dict(
        property=check.id,
        tier=d.tier,
        seed=d.seed,
        level=check.level,
        coverage=dict(
            evaluations=res["runs"],
            distinct_nontrivial=len(res["keys"]),
            rule=check.rule,
            samples=res["samples"] or ["(none)"],
            runs_per_hour=round(res["runs"] / wall * 3600, 1),
            seeds="VERIF_SEED=%d, run i uses the generator seeded with (VERIF_SEED, property, i)" % d.seed,
            simulated_seconds=round(res["simtime"], 3),
            faults_injected=faults,
            probes={k: v for k, v in st.items() if not k.startswith("fault:")},
            references=len(d.ctx.refs),
            components_real=check.real,
            components_stubbed=check.stub,
        ),
        assumptions=check.assumptions,
        wall_s=round(wall, 2),
        violations=nviol,
    )
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", check.id + ".json"), "w") as f:
        json.dump(ev, f, indent=1, default=repr)

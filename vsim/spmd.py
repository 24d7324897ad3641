"""Shared machinery of the checks which run one program on several simulated MPI processes."""

import hashlib

import numpy as np

from . import engine, workloads as WL, world as W
from .choice import Chooser


def random_policy(rng, size):
    p = dict(
        sched=rng.choice(["uniform", "uniform", "sticky", "prio", "starve"]),
        p_sync_coll=rng.choice([0.0, 0.3, 0.3, 1.0]),
        p_sync_send=rng.choice([0.0, 0.5, 0.5, 1.0]),
        p_defer_rma=rng.choice([0.0, 0.5, 1.0]),
        p_reorder=rng.choice([0.0, 0.3, 1.0]),
    )
    if p["sched"] == "starve":
        p["victim"] = rng.randrange(size)
    return p


def serial_reference(ctx, ops, setup=None, mf_hook=None):
    """Results of the program run serially: list of plain values (shorter if an operation failed)."""
    u = ctx.universes[1][0]
    skip = {}
    while True:
        out = []
        with u:
            u.redirect_logs(ctx.scratch, 60)
            s = WL.Session(ctx.mfs, 0, serial=True, mf_hook=mf_hook)
            if setup is not None:
                setup(s)
            for i, op in enumerate(ops):
                if i in skip:
                    out.append(skip[i])
                    continue
                try:
                    out.append(WL.plain(s.do(op)))
                except Exception as e:
                    # not supported serially: leave this operation out of the program
                    skip[i] = WL.OpError(e)
                    if op[0] in ("new", "kernel"):
                        return out + [skip[i]]
                    break
            else:
                return out


def run_world(ctx, spec, decisions, prog, max_steps=200000):
    """Run prog(rank) on spec['size'] ranks. Returns the World."""
    n = spec["size"]
    us = ctx.universes[n]
    for u in us:
        u.redirect_logs(ctx.scratch, spec.get("loglevel", 60))
    ch = Chooser(seed=spec["seed"]) if decisions is None else Chooser(replay=decisions)
    w = W.World(n, us, ch, spec.get("policy"), max_steps=max_steps)
    w.run(prog)
    return w


def digest(w, outs):
    h = hashlib.sha256()
    h.update(repr(w.ch.log).encode())
    h.update(repr(w.events).encode())
    for o in outs:
        for r in o:
            _feed(h, r)
    return h.hexdigest()[:24]


def _feed(h, r):
    if isinstance(r, np.ndarray):
        h.update(np.ascontiguousarray(r).tobytes())
    elif isinstance(r, (tuple, list)):
        for x in r:
            _feed(h, x)
    else:
        h.update(repr(r).encode())


def interleaving_key(w):
    """Distinct interleavings: the order in which the ranks' communication events happened."""
    return hashlib.sha1(repr([(e[0], e[1]) for e in w.events]).encode()).hexdigest()[:16]


def outcome(w, outs, violations, extra_stats=None, sample=None, key=None, nontrivial=None):
    stats = {k: v for k, v in w.stats.items()}
    stats["steps"] = w.steps
    stats["context-switches"] = w.switches
    for k, v in w.ch.counts.items():
        stats["decision:" + k] = v
    stats.update(extra_stats or {})
    return dict(
        violations=violations,
        decisions=list(w.ch.log),
        stats=stats,
        digest=digest(w, outs),
        nontrivial=(w.switches > 0) if nontrivial is None else nontrivial,
        simtime=w.now,
        key=key or interleaving_key(w),
        sample=sample,
        trace=[list(map(str, e)) for e in w.events[-60:]],
    )


def world_violations(w, where):
    """Violations seen by the simulator itself, errors first."""
    out = []
    for r in range(w.size):
        e = w.errors[r]
        if e is not None:
            site = W._tb_site(e)
            out.append(
                dict(
                    cls="error",
                    text="rank %d of %d raised %s: %s (in %s)" % (r, w.size, type(e).__name__, str(e)[:300], site),
                    where=dict(where, exc=type(e).__name__, site=site),
                )
            )
    if w.violation is not None:
        out.append(dict(cls=w.violation[0], text=w.violation[1], where=dict(where)))
    return out

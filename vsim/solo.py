"""Runs without a simulated MPI world: one universe, faults from the plan of the run."""

import hashlib

from . import spmd


def digest(*parts):
    h = hashlib.sha256()
    for p in parts:
        spmd._feed(h, p)
    return h.hexdigest()[:24]


def outcome(violations, results, stats, key, nontrivial=True, simtime=0.0, decisions=(), sample=None, trace=()):
    return dict(
        violations=violations,
        decisions=list(decisions),
        stats=stats,
        digest=digest(list(results), sorted(stats.items()), [v["text"] for v in violations]),
        nontrivial=nontrivial,
        simtime=simtime,
        key=hashlib.sha1(repr(key).encode()).hexdigest()[:16],
        sample=sample,
        trace=[list(map(str, t)) for t in trace],
    )

"""The single source of nondeterminism of a simulated run.

Every decision the simulator takes (who runs next, whether a send is buffered, when a remote write
becomes visible, where a fault lands, ...) is one call of ``Chooser.choose(n, kind)``.  A run is a pure
function of (code, spec, decision list).  Decision 0 is always the "plain" alternative (the current rank
keeps running, buffered send, no fault), so that a decision list can be minimised by zeroing entries.
"""

import random


class Chooser:
    def __init__(self, seed=None, replay=None, policy=None):
        self.rng = random.Random(seed) if replay is None else None
        self.replay = list(replay) if replay is not None else None
        self.policy = policy or {}
        self.pos = 0
        self.log = []
        self.counts = {}

    def choose(self, n, kind, weights=None):
        """Pick an integer in [0, n)."""
        if n <= 1:
            return 0
        if self.replay is not None:
            v = self.replay[self.pos] % n if self.pos < len(self.replay) else 0
        elif weights is not None:
            v = self.rng.choices(range(n), weights=weights)[0]
        else:
            v = self.rng.randrange(n)
        self.pos += 1
        self.log.append(v)
        if v:
            self.counts[kind] = self.counts.get(kind, 0) + 1
        return v

    def coin(self, p, kind):
        """True with probability p."""
        if p <= 0:
            return False
        return bool(self.choose(2, kind, weights=(1 - p, p)))

"""The single source of every random decision of a simulated run.

A Chooser is a pure function of (seed) or of (a recorded list of choices).  Every
decision - program parameters, scheduling, message semantics, faults - is one call of
``pick``; the value 0 is by convention the simplest decision (keep running the same rank,
inject nothing, the smallest parameter), which is what makes recorded choice lists
shrinkable: zeroing or deleting entries yields simpler runs.
"""
import random


class Chooser:
    def __init__(self, seed=None, recorded=None, pins=None):
        self._rng = random.Random(seed) if recorded is None else None
        self._rec = recorded
        self._pos = 0
        self.trace = []          # (value) of each choice, in order
        self.labels = []         # the label of each choice, in order
        self._pins = pins or {}  # label -> forced value

    @property
    def replaying(self):
        return self._rec is not None

    def _raw(self, n, draw, label):
        if label in self._pins:
            v = self._pins[label]
        elif self._rec is not None:
            v = self._rec[self._pos] if self._pos < len(self._rec) else 0
        else:
            v = draw(self._rng)
        self._pos += 1
        if v < 0 or v >= n:
            v = 0 if n <= 0 else v % n
        self.trace.append(v)
        self.labels.append(label)
        return v

    def pick(self, n, label=''):
        """An integer in [0, n)."""
        if n <= 1:
            return 0
        return self._raw(n, lambda r: r.randrange(n), label)

    def coin(self, p, label=''):
        """True with probability p; False is the simple choice."""
        if p <= 0:
            return False
        return bool(self._raw(2, lambda r: 1 if r.random() < p else 0, label))

    def choice(self, seq, label=''):
        return seq[self.pick(len(seq), label)]

    def weighted(self, pairs, label=''):
        """pairs: [(weight, value), ...], first is the simplest."""
        tot = sum(w for w, _ in pairs)

        def draw(r):
            x = r.random() * tot
            for i, (w, _) in enumerate(pairs):
                x -= w
                if x < 0:
                    return i
            return len(pairs) - 1
        return pairs[self._raw(len(pairs), draw, label)][1]

    def uniform(self, a, b, label='', steps=1000):
        return a + (b - a) * self.pick(steps + 1, label) / steps

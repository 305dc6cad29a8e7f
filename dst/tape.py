"""The single source of choice: every decision of a run is a small integer drawn here.

Recording: values come from a PRNG seeded with a string.  Replaying: values come from a list (values
out of range are clamped, a list that is too short continues with zeros).  0 is always the simplest
choice, so deleting and zeroing entries of the list simplifies the run.
"""
import random


class Tape:
    __slots__ = ("rng", "src", "pos", "rec")

    def __init__(self, seed=None, values=None):
        self.rng = random.Random(seed) if values is None else None
        self.src = values
        self.pos = 0
        self.rec = []

    def below(self, n):
        """Uniform integer in [0, n)."""
        if n <= 1:
            return 0
        if self.rng is not None:
            v = int(self.rng.random() * n)
        else:
            p = self.pos
            self.pos = p + 1
            v = self.src[p] if p < len(self.src) else 0
            if v >= n:
                v = n - 1
        self.rec.append(v)
        return v

    def chance(self, p):
        """True with probability p (recorded as 0/1)."""
        if self.rng is not None:
            v = 1 if self.rng.random() < p else 0
        else:
            q = self.pos
            self.pos = q + 1
            v = self.src[q] if q < len(self.src) else 0
            v = 1 if v else 0
        self.rec.append(v)
        return v == 1

    def pick(self, seq):
        return seq[self.below(len(seq))]

    def weighted(self, pairs):
        """pairs: [(weight, value), ...]; the first pair should be the simplest."""
        total = 0
        for w, _ in pairs:
            total += w
        if self.rng is not None:
            r = self.rng.random() * total
            i = 0
            for i, (w, _) in enumerate(pairs):
                r -= w
                if r < 0:
                    break
        else:
            p = self.pos
            self.pos = p + 1
            i = self.src[p] if p < len(self.src) else 0
            if i >= len(pairs):
                i = len(pairs) - 1
        self.rec.append(i)
        return pairs[i][1]

    def between(self, a, b):
        """Uniform integer in [a, b]."""
        return a + self.below(b - a + 1)

    def subset(self, seq, p):
        return [x for x in seq if self.chance(p)]

    def shuffle(self, seq):
        """In-place Fisher-Yates; all zeros leaves the order unchanged."""
        for i in range(len(seq) - 1):
            j = i + self.below(len(seq) - i)
            seq[i], seq[j] = seq[j], seq[i]
        return seq

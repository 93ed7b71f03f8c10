"""Every outcome of random draws: depth-first search over a script of choices."""
import contextlib
import itertools
import random

import numpy as np


class Cut(BaseException):
    """The bound on the number of draws is reached."""


class Oracle:
    def __init__(self, script=(), limit=None, fair=False):
        self.script = list(script)
        self.trail = []          # (chosen, number of alternatives)
        self.prob = 1.0
        self.limit = limit
        self.fair = fair         # beyond the limit: go on with a fixed sequence that visits all alternatives instead of stopping
        self.spin = 0
        self.mix = 1

    def pick(self, n, probs=None):
        if n <= 0:
            raise ValueError("nothing to choose from")
        k = len(self.trail)
        if k < len(self.script):
            c = self.script[k]
        elif self.limit is not None and k >= self.limit:
            if not self.fair:
                raise Cut()
            self.spin += 1
            if self.spin > 5000:
                raise Cut()
            self.mix = (self.mix * 6364136223846793005 + 1442695040888963407) % 2 ** 64
            c = (self.mix >> 33) % n
            self.trail.append((c, 1))
            return c
        else:
            c = 0
        self.trail.append((c, n))
        self.prob *= probs[c] if probs else 1.0 / n
        return c

    def following(self):
        """Script of the next execution or None."""
        t = self.trail
        for k in range(len(t) - 1, -1, -1):
            if k >= len(self.script) and t[k][1] == 1:
                continue
            if t[k][0] + 1 < t[k][1]:
                return [c for c, _ in t[:k]] + [t[k][0] + 1]
        return None


@contextlib.contextmanager
def draws(o, geometric=3):
    """Replace the draws of random and numpy.random by choices of o."""
    def randrange(a, b=None, step=1):
        r = range(a) if b is None else range(a, b, step)
        return r[o.pick(len(r))]

    def sample(pop, k, **kw):
        pop = list(pop)
        if not 0 <= k <= len(pop):
            raise ValueError("Sample larger than population or is negative")
        out = []
        for _ in range(k):
            out.append(pop.pop(o.pick(len(pop))))
        return out

    def shuffle(x):
        y = sample(list(x), len(x))
        for i, v in enumerate(y):
            x[i] = v

    def geo(p, size=None):
        assert size is None
        pr = [p * (1 - p) ** i for i in range(geometric - 1)]
        return 1 + o.pick(geometric, pr + [1 - sum(pr)])

    def choices(pop, weights=None, *, cum_weights=None, k=1):
        assert weights is None and cum_weights is None
        return [pop[o.pick(len(pop))] for _ in range(k)]
    new = {(random, "randint"): lambda a, b: randrange(a, b + 1), (random, "randrange"): randrange,
           (random, "choice"): lambda s: s[o.pick(len(s))], (random, "sample"): sample, (random, "shuffle"): shuffle,
           (random, "choices"): choices,
           (np.random, "geometric"): geo, (np.random, "shuffle"): shuffle,
           (np.random, "randint"): lambda a, b=None, size=None, dtype=int: randrange(a, b)}
    old = {k: getattr(*k) for k in new}
    for (m, n), f in new.items():
        setattr(m, n, f)
    try:
        yield
    finally:
        for (m, n), f in old.items():
            setattr(m, n, f)


def upto(alphabet, n):
    for k in range(n + 1):
        yield from itertools.product(alphabet, repeat=k)

"""Everything an answer must not depend on, decided by the simulator: the random streams, the clock, uninitialised memory."""
import random
import time

import numpy as np

UNIFORM = ("rand", "random", "random_sample", "ranf", "sample")


class Noise(object):
    """with Noise(seed): global random states, wall and cpu clocks and the contents of np.empty come from the seed"""

    def __init__(self, seed):
        self.r = random.Random(seed)
        self.seed = seed
        self.now = self.r.uniform(1e9, 2e9)
        self.reads = 0
        self.fills = 0

    def clock(self):
        self.reads += 1
        self.now += self.r.choice([0.0, 1e-6, 0.3, 40.0, 4000.0])
        if self.r.random() < 0.1:
            self.now -= self.r.choice([1.0, 3600.0])        # the clock is set back
        return self.now

    def junk(self, a):
        if a.size and a.dtype.kind in "fiub":
            self.fills += 1
            v = self.r.choice([0, 1, 3, 77])
            if a.dtype.kind == "f":
                v = self.r.choice([np.nan, 1e300, -7.5, 0.0, 1e-300])
            a[...] = v
        return a

    def __enter__(self):
        self.saved = []
        self.state = (np.random.get_state(), random.getstate())
        np.random.seed(self.seed % (1 << 32))
        random.seed(self.seed)

        def put(o, k, v):
            self.saved.append((o, k, getattr(o, k)))
            setattr(o, k, v)
        for k in ("time", "monotonic", "perf_counter", "process_time"):
            put(time, k, self.clock)
        for k in ("time_ns", "monotonic_ns", "perf_counter_ns", "process_time_ns"):
            put(time, k, lambda: int(self.clock() * 1e9))
        e0, l0 = np.empty, np.empty_like
        put(np, "empty", lambda *a, **k: self.junk(e0(*a, **k)))
        put(np, "empty_like", lambda *a, **k: self.junk(l0(*a, **k)))
        return self

    def __exit__(self, *a):
        for o, k, v in reversed(self.saved):
            setattr(o, k, v)
        np.random.set_state(self.state[0])
        random.setstate(self.state[1])
        return False


def states():
    s = np.random.get_state()
    return (s[1].tobytes(), s[2], s[3], s[4]), hash(random.getstate())


class Draws(object):
    """with Draws(kind, value): the uniform numbers handed out are chosen adversarially"""

    def __init__(self, kind, value, seed):
        self.kind, self.value = kind, value
        self.r = np.random.Generator(np.random.PCG64(seed))
        self.count = 0

    def fill(self, n):
        self.count += n
        top = 1.0 - 2.0 ** -53
        if self.kind == "zero":
            return np.zeros(n)
        if self.kind == "one":
            return np.full(n, top)
        if self.kind == "edge":
            v = min(max(self.value, 0.0), top)
            return self.r.choice([v, min(np.nextafter(v, 2.0), top), max(np.nextafter(v, -1.0), 0.0)], n)
        if self.kind == "extremes":
            return self.r.choice([0.0, top, 2.0 ** -53], n)
        return self.r.random(n)

    def __enter__(self):
        self.saved = [(k, getattr(np.random, k)) for k in UNIFORM + ("uniform",)]

        def shaped(shape):
            if shape is None or shape == ():
                return float(self.fill(1)[0])
            s = tuple(int(q) for q in np.atleast_1d(shape))
            return self.fill(int(np.prod(s))).reshape(s)
        for k in UNIFORM:
            if k == "rand":
                setattr(np.random, k, lambda *d: shaped(d))
            else:
                setattr(np.random, k, lambda size=None: shaped(size))
        setattr(np.random, "uniform", lambda low=0.0, high=1.0, size=None: low + (np.asarray(high) - low) * shaped(size))
        return self

    def __exit__(self, *a):
        for k, v in self.saved:
            setattr(np.random, k, v)
        return False

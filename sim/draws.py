"""Adversarial random stream: the generator functions the library draws from, with scheduled degenerate draws."""
import random

_real = {}


class Draws:
    """faults: list of [draw index, kind]; kinds: zero, low, high, repeat, one, minus."""

    def __init__(self, ctx, faults=()):
        self.ctx, self.faults, self.n, self.last = ctx, {f[0]: f[1] for f in faults}, 0, None
        self.on = True

    def install(self):
        inst = random._inst
        for name in ("randrange", "randint", "sample", "choice"):
            _real.setdefault(name, getattr(random, name))

        def randrange(start, stop=None, step=1):
            v = _real["randrange"](start, stop, step) if stop is not None else _real["randrange"](start)
            lo, hi = (0, start) if stop is None else (start, stop)
            return self.twist(v, lo, hi - 1, step)

        def randint(a, b):
            return self.twist(_real["randint"](a, b), a, b)

        def sample(population, k, **kw):
            out = _real["sample"](population, k, **kw)
            kind = self.next()
            if kind in ("low", "zero", "one"):
                self.ctx.fault("draw-first-sample")
                out = list(population)[:k]
            elif kind in ("high", "repeat", "minus"):
                self.ctx.fault("draw-last-sample")
                out = list(population)[-k:][::-1]
            return out
        random.randrange, random.randint, random.sample = randrange, randint, sample
        inst  # the instance itself keeps its methods: state advances exactly as without faults
        return self

    def next(self):
        i, self.n = self.n, self.n + 1
        return self.faults.get(i) if self.on else None

    def twist(self, v, lo, hi, step=1):
        kind = self.next()
        w = v
        if kind and step == 1:
            if kind == "zero":
                w = 0
            elif kind == "one":
                w = 1
            elif kind == "minus":
                w = -1
            elif kind == "low":
                w = lo
            elif kind == "high":
                w = hi
            elif kind == "repeat" and self.last is not None:
                w = self.last
            w = min(max(w, lo), hi)
            self.ctx.fault("draw-" + kind)
        self.last = w
        return w


KINDS = ("zero", "zero", "low", "high", "repeat", "repeat", "one", "minus")


def gen_faults(rng, horizon, rate=None):
    """Swarm style: a per-run rate and subset of kinds, sometimes a burst of equal draws."""
    kinds = rng.sample(KINDS, rng.randint(1, 3))
    rate = rng.choice((0.02, 0.1, 0.3)) if rate is None else rate
    out = [[i, rng.choice(kinds)] for i in range(horizon) if rng.random() < rate]
    if rng.random() < 0.4:
        start, kind = rng.randrange(horizon), rng.choice(KINDS)
        out += [[i, kind] for i in range(start, start + rng.choice((2, 4, 8, 16)))]
    return out

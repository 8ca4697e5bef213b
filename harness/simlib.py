"""Scripted random sources for the simulators, and helpers shared by the simulator checks.

A scripted source is passed through the public API as a deterministic ('D') distribution whose value
is a Script object; inside `scripted()` the deterministic distribution asks the Script for its next
value instead of returning the object.  So the k-th arrival interval / service time that the simulator
asks for is the k-th number of the generated case, whatever RNG calls the simulator makes.
"""
import contextlib
import math

from hypothesis import strategies as st

from .core import Discard, ScriptExhausted, Violation, require, require_close

PHI = 0.6180339887498949
FAR = 1.0e6


def jitter(i, salt=0.0):
    """A deterministic irrational-ish offset in (0, 1e-3): makes simultaneous events impossible."""
    x = (i + 1) * PHI + salt * 0.7548776662466927 + (i + 1) ** 2 * 0.0001414213562
    return (x - math.floor(x)) * 1e-3 + 1e-6


def times(ints, salt, unit=0.125):
    return [v * unit + jitter(i, salt) for i, v in enumerate(ints)]


class Script:
    """Hands out the scripted values in order, then `after` for ever (with a hard stop)."""

    def __init__(self, values, after=FAR, name="source", slack=2000):
        self.values = list(values)
        self.after = after
        self.i = 0
        self.name = name
        self.slack = slack

    def draw(self):
        i = self.i
        self.i += 1
        if i < len(self.values):
            return self.values[i]
        if i > len(self.values) + self.slack:
            raise ScriptExhausted(f"{self.name} asked for {i} values, {len(self.values)} scripted")
        if self.after is None:
            raise ScriptExhausted(f"{self.name} ran out after {i} values")
        return self.after + jitter(i, 9.5)


@contextlib.contextmanager
def scripted():
    from most_queue import rand_distribution as rd
    old_init, old_gen = rd.Det_dist.__init__, rd.Det_dist.generate
    old_static = rd.Det_dist.__dict__["generate_static"]

    def init(self, b, *a, **k):
        if isinstance(b, Script):
            self.b = b
            self.params = b
            self.type = "D"
        else:
            old_init(self, b, *a, **k)

    def gen(self):
        if isinstance(self.b, Script):
            return self.b.draw()
        return old_gen(self)

    def static(b, *a, **k):
        if isinstance(b, Script):
            return b.draw()
        return old_static.__func__(b, *a, **k)

    old_exp = rd.Exp_dist.__init__, rd.Exp_dist.generate

    def exp_init(self, mu, *a, **k):
        if isinstance(mu, Script):
            self.params = mu
            self.type = "M"
            self.verif_script = mu
        else:
            old_exp[0](self, mu, *a, **k)

    def exp_gen(self):
        s = getattr(self, "verif_script", None)
        return s.draw() if s is not None else old_exp[1](self)

    rd.Exp_dist.__init__, rd.Exp_dist.generate = exp_init, exp_gen
    rd.Det_dist.__init__, rd.Det_dist.generate = init, gen
    rd.Det_dist.generate_static = staticmethod(static)
    try:
        yield
    finally:
        rd.Det_dist.__init__, rd.Det_dist.generate = old_init, old_gen
        rd.Det_dist.generate_static = old_static
        rd.Exp_dist.__init__, rd.Exp_dist.generate = old_exp


def raw_moments(xs, num=3):
    n = len(xs)
    if n == 0:
        return [0.0] * num
    return [math.fsum(x ** (k + 1) for x in xs) / n for k in range(num)]


def state_fractions(events, T, width):
    """events: list of (time, +1/-1); fraction of [0, T] spent with j jobs, j < width."""
    ev = sorted(e for e in events if e[0] <= T + 1e-12)
    out = [0.0] * width
    t, n = 0.0, 0
    for time, d in ev:
        out[n] += time - t
        t = time
        n += d
    out[n] += T - t
    return [x / T for x in out]


def ints(lo, hi, min_size, max_size):
    return st.lists(st.integers(lo, hi), min_size=min_size, max_size=max_size)


def check_ties(ts, eps=1e-9):
    s = sorted(ts)
    for a, b in zip(s, s[1:]):
        if b - a < eps:
            raise Discard("simultaneous events")


def compare_p(p, expected, what="state probabilities", atol=1e-9):
    require(len(p) >= len(expected), f"{what}: only {len(p)} values")
    for j, x in enumerate(expected):
        require_close(p[j], x, f"{what} p[{j}]", rtol=1e-8, atol=atol)
    rest = math.fsum(p[len(expected):])
    require_close(rest, 0.0, f"{what}: mass above p[{len(expected) - 1}]", atol=atol)


__all__ = ["Script", "scripted", "times", "ints", "raw_moments", "state_fractions", "check_ties", "compare_p",
           "jitter", "FAR", "Violation", "Discard", "require", "require_close"]

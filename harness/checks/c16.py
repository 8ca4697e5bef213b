"""C16: M/H2/n with warm-up, cooling and delayed cooling (Takahashi-Takami solvers) against a direct solution of the same chain."""
import math

import numpy as np
from hypothesis import strategies as st

from ..core import Discard, run_or_discard, Sub, require, require_close, require_close_seq
from ..markov import build_levels, solve_levels
from .c15 import channels, conv, service

PROPERTY = "C16"
RULE = ("service, warm-up, cooling and delay moments of gamma laws and random phase mixtures with means 1/8..8 services, 1-6 channels, loads "
        "1/16..13/16 (up to 2 with a buffer of 0..10 places), time units 1e-3..1e3; the level chain with the fitted phases is solved by level "
        "reduction, waiting times by first passage for every state an accepted arrival can see")
ASSUMPTIONS = ["the two-phase fits are judged by C01; fits with a rate of negative real part or a negative tail are discarded",
               "levels: cases where the exact probability above the requested number of levels exceeds 1e-11 are discarded",
               "waiting moments: compared with tolerance 1e-4 (1e-2 with complex phases) of the moment",
               "with complex phases at most 5 channels, and cases on which the iteration does not converge within 3 s of CPU time are discarded"]


class Model:
    """off -> (arrival) warm-up -> service -> [delay -> cooling ->] off; jobs wait during cooling and warm-up."""

    def __init__(self, n, l, serv, warm=None, cold=None, delay=None, first=None):
        self.n, self.l = n, l
        self.y, self.mu = serv
        self.warm, self.cold, self.delay, self.first = warm, cold, delay, first

    def serving(self, k):
        m = min(k, self.n)
        out = [("S", i) for i in range(m + 1)]
        if self.first:
            out = [("F", j, i) for j in range(2) for i in range(m)] + out
        return out

    def states(self, k):
        if k == 0:
            return ["off"] + [("D", j) for j in range(2) if self.delay] + [("C", j) for j in range(2) if self.cold]
        return ([("W", j) for j in range(2) if self.warm] + self.serving(k) + [("C", j) for j in range(2) if self.cold])

    def rates(self, cap):
        return lambda k, s: self._rates(k, s, self.l if cap is None or k < cap else 0)

    def _rates(self, k, s, l):
        n, y, mu = self.n, self.y, self.mu
        if s == "off":
            kind, law = ("F", self.first) if self.first else ("W", self.warm)
            for j in range(2):
                yield 1, (kind, j, 0) if kind == "F" else (kind, j), l * law[0][j]
        elif s[0] == "D":
            for i in range(2):
                yield 1, ("S", i), l * y[i]
                yield 0, ("C", i), self.delay[1][s[1]] * self.cold[0][i]
        elif s[0] == "C":
            r = self.cold[1][s[1]]
            yield k + 1, s, l
            if k == 0:
                yield 0, "off", r
            else:
                for j in range(2):
                    yield k, ("W", j), r * self.warm[0][j]
        elif s[0] == "W":
            yield k + 1, s, l
            m = min(k, n)
            for i in range(m + 1):
                yield k, ("S", i), self.warm[1][s[1]] * math.comb(m, i) * y[0] ** (m - i) * y[1] ** i
        else:
            *head, i = s
            make = lambda i: tuple(head) + (i,)
            m = min(k, n) - (1 if s[0] == "F" else 0)     # ordinary services in progress
            if k < n:
                yield k + 1, make(i), l * y[0]
                yield k + 1, make(i + 1), l * y[1]
            else:
                yield k + 1, s, l
            if s[0] == "F":
                r = self.first[1][s[1]]
                if k <= n:
                    yield (k - 1, ("S", i), r) if k > 1 else (0, "off", r)
                else:
                    for j in range(2):
                        yield k - 1, ("S", i + j), r * y[j]
            for kind, count in ((0, m - i), (1, i)):
                if not count:
                    continue
                r = count * mu[kind]
                if k > n:
                    for j in range(2):
                        yield k - 1, make(i - kind + j), r * y[j]
                elif k > 1:
                    yield k - 1, make(i - kind), r
                elif self.delay:
                    for j in range(2):
                        yield 0, ("D", j), r * self.delay[0][j]
                elif self.cold:
                    for j in range(2):
                        yield 0, ("C", j), r * self.cold[0][j]
                else:
                    yield 0, "off", r

    def solve(self, top):
        index, up, down, local = build_levels(self.states, self.rates(top), top)
        return index, solve_levels(up, down, local)

    def waits(self, index, Y, accepted_levels):
        """First three moments of the time from arrival to start of service, seen by accepted arrivals."""
        n = self.n
        silent = Model(n, 0.0, (self.y, self.mu), self.warm, self.cold, self.delay, self.first)
        ix, _, down, local = build_levels(silent.states, silent.rates(None), n + 1)
        ix = ix[n + 1]
        size = len(ix)
        T, down = -local[n + 1] + np.zeros((size, size)), down[n + 1]
        serving = np.array([s[0] in "SF" for s in ix])
        # no services needed any more: only cooling and warm-up remain
        h = [np.ones(size, complex)]
        T0 = T.copy()
        T0[serving] = 0
        T0[serving, serving] = 1
        for r in (1, 2, 3):
            rhs = r * h[r - 1]
            rhs[serving] = 0
            h.append(np.linalg.solve(T0, rhs))
        w = np.zeros(3)
        acc = sum(Y[k].sum().real for k in accepted_levels)
        for k in accepted_levels:
            if k >= n:
                new = [np.ones(size, complex)]
                for r in (1, 2, 3):
                    rhs = down @ h[r] + r * new[r - 1]
                    new.append(np.linalg.solve(T, rhs))
                h = new
            for s, i in index[k].items():
                for r in (1, 2, 3):
                    if s == "off":
                        v = 0 if self.first else sum(self.warm[0][j] * h[r][ix["W", j]] for j in range(2))
                    elif s[0] == "D" or (k < n and s[0] in "SF"):
                        v = 0
                    else:
                        v = h[r][ix[s]]
                    w[r - 1] += (Y[k][i] * v).real / acc
        return list(w)


def law(case, name):
    b, y, mu, odd = service(case[name])
    m = case[name].get("mean", 8) / 8
    return [x * m ** (i + 1) for i, x in enumerate(b)], (y, [x / m for x in mu]), odd


def scaled_moments(b, unit):
    return [x * unit ** (i + 1) for i, x in enumerate(b)]


def prepare(case, names):
    laws = {name: law(case, name) for name in names}
    odd = any(x[2] for x in laws.values())
    n = case["n"]
    if "service" in laws:
        n = channels(n, laws["service"][1][0], laws["service"][2])
    return laws, odd, n


def levels(case, n, model):
    if case["buffer"] is not None:
        return n + case["buffer"], n + case["buffer"], {"buffer": case["buffer"]}, model.solve(n + case["buffer"])
    N = case["N"] + n
    index, Y = model.solve(2 * N + 60)
    if sum(abs(y.sum()) for y in Y[N:]) > 1e-11:
        raise Discard("too few levels")
    return N, 2 * N + 60, {"N": N}, (index, Y)


def compare(q, model, index, Y, b, what, odd, cap, unit, kw, first=None):
    rtol = 1e-2 if odd else 1e-4
    tight = 3e-3 if odd else 1e-5
    P = [y.sum().real for y in Y]
    if min(P) < -1e-9:
        raise Discard("the fitted laws give negative probabilities")
    p = list(q.get_p())
    require(len(p) <= len(P), f"{what}: {len(p)} probabilities, {len(P)} states")
    for k in range(len(p)):
        require_close(p[k], P[k], f"{what}: p[{k}]", rtol=tight, atol=tight * 1e-2)
    require_close(sum(p), 1.0, f"{what}: sum of the probabilities", rtol=1e-9)
    part = {}
    for k in range(len(Y)):
        for s, i in index[k].items():
            key = s if s == "off" else s[0]
            part[key] = part.get(key, 0) + Y[k][i].real
    for key, name in (("off", "get_idle_prob"), ("C", "get_cold_prob"), ("W", "get_warmup_prob"), ("D", "get_cold_delay_prob")):
        if key in part and hasattr(q, name):
            require_close(getattr(q, name)().real, part[key], f"{what}: {name}", rtol=tight * 3, atol=tight)
    W = model.waits(index, Y, range(cap if cap is not None else len(Y)))
    got = [x / unit ** (i + 1) for i, x in enumerate(q.get_w())]
    require(not any(isinstance(x, complex) and x.imag for x in got), f"{what}: complex waiting moments")
    for k in range(3):
        require_close(got[k], W[k], f"{what}: waiting moment {k + 1}", rtol=rtol * (k + 1), atol=tight * 1e-1)
    if not odd and not first and "dtype" not in kw:
        # the Laplace transform of the waiting time (up to the constant of those who do not wait), in the time unit of the model
        h = 1e-3 / (1 + W[0])
        f, f0 = q.calc_w_pls(1j * h / unit), q.calc_w_pls(0.0)
        require_close(-f.imag / h, W[0], f"{what}: waiting moment 1 from calc_w_pls", rtol=1e-4, atol=1e-5)
        require_close(2 * (f0 - f).real / h ** 2, W[1], f"{what}: waiting moment 2 from calc_w_pls", rtol=1e-3, atol=1e-5)
    V = conv(W, b)
    if first is not None:       # the job that finds the system off is served by the special law, without waiting
        acc = sum(P[:cap]) if cap is not None else 1.0
        V = [V[k] + P[0] / acc * (first[k] - b[k]) for k in range(3)]
    got = [x / unit ** (i + 1) for i, x in enumerate(q.get_v())]
    require_close_seq(got, V, f"{what}: sojourn moments", rtol=rtol * 2)
    return P, W


def test_warm(case):
    from most_queue.theory.m_h2_h2warm import Mh2h2Warm
    laws, odd, n = prepare(case, ("service", "warm"))
    b, serv, _ = laws["service"]
    bw, warm, _ = laws["warm"]
    l = n * case["rho"] / 16
    only = case["first"]
    model = Model(n, l, serv, None if only else warm, first=warm if only else None)
    cap, top, kw, (index, Y) = levels(case, n, model)
    unit = 10.0 ** case["unit"]
    what = f"M/H2/{n} with {'special first service' if only else 'warm-up'}, {kw}, load {case['rho']}/16, b={b}, warm={bw}"
    if not odd and case["f8"]:
        kw["dtype"] = "f8"
    q = Mh2h2Warm(l / unit, scaled_moments(b, unit), scaled_moments(bw, unit), n, accuracy=1e-6 if odd else 1e-9, is_only_first=only, **kw)
    run_or_discard(q.run) if odd else q.run()
    P, W = compare(q, model, index, Y, b, what, odd, cap if case["buffer"] is not None else None, unit, kw, bw if only else None)
    if n == 1 and case["buffer"] is None and not only:
        # Pollaczek-Khinchine plus the decomposition for a set-up time: a check of the reference itself
        f = [math.factorial(k) * sum(serv[0][i] / serv[1][i] ** k for i in range(2)) for k in (1, 2)]
        t = [math.factorial(k) * sum(warm[0][i] / warm[1][i] ** k for i in range(2)) for k in (1, 2)]
        want = l * f[1] / (2 * (1 - l * f[0])) + (2 * t[0] + l * t[1]) / (2 * (1 + l * t[0]))
        if not odd:
            require_close(W[0], want.real, f"{what}: reference mean wait", rtol=1e-7)
    return n > 1


def test_cold(case):
    from most_queue.theory.mgn_with_h2_delay_cold_warm import MGnH2ServingColdWarmDelay
    laws, odd, n = prepare(case, ("service", "warm", "cold", "delay"))
    b, serv, _ = laws["service"]
    l = n * case["rho"] / 16
    model = Model(n, l, serv, laws["warm"][1], laws["cold"][1], laws["delay"][1])
    cap, top, kw, (index, Y) = levels(case, n, model)
    unit = 10.0 ** case["unit"]
    what = f"M/H2/{n} with warm-up, cooling and delay, {kw}, load {case['rho']}/16, " + ", ".join(f"{k}={v[0]}" for k, v in laws.items())
    if not odd and case["f8"]:
        kw["dtype"] = "f8"
    kw["stable_w_pls"] = case["stable"]
    q = MGnH2ServingColdWarmDelay(l / unit, scaled_moments(b, unit), *(scaled_moments(laws[k][0], unit) for k in ("warm", "cold", "delay")), n,
                                  accuracy=1e-6 if odd else 1e-9, **kw)
    run_or_discard(q.run) if odd else q.run()
    compare(q, model, index, Y, b, what, odd, cap if case["buffer"] is not None else None, unit, kw)
    return n > 1


def test_markov(case):
    from most_queue.theory.mmn_with_h2_cold_and_h2_warmup import MMn_H2warm_H2cold
    laws, odd, n = prepare(case, ("warm", "cold"))
    l = n * case["rho"] / 16
    b = [1.0, 2.0, 6.0]
    model = Model(n, l, ([1.0, 0.0], [1.0, 1.0]), laws["warm"][1], laws["cold"][1])
    cap, top, kw, (index, Y) = levels(case, n, model)
    unit = 10.0 ** case["unit"]
    what = f"M/M/{n} with warm-up and cooling, {kw}, load {case['rho']}/16, " + ", ".join(f"{k}={v[0]}" for k, v in laws.items())
    if not odd and case["f8"]:
        kw["dtype"] = "f8"
    q = MMn_H2warm_H2cold(l / unit, 1 / unit, scaled_moments(laws["warm"][0], unit), scaled_moments(laws["cold"][0], unit), n,
                          accuracy=1e-7 if odd else 1e-9, **kw)
    run_or_discard(q.run) if odd else q.run()
    compare(q, model, index, Y, b, what, odd, cap if case["buffer"] is not None else None, unit, kw)
    return n > 1


phases = st.lists(st.tuples(st.integers(1, 9), st.integers(1, 4), st.integers(1, 40)), min_size=1, max_size=3)
moments = {"gamma": st.one_of(st.integers(2, 16), st.integers(2, 96), st.just(0)), "phases": phases}
serv = st.fixed_dictionaries(moments)
side = st.fixed_dictionaries({**moments, "mean": st.one_of(st.integers(1, 24), st.integers(1, 64))})
common = {"n": st.integers(1, 6), "unit": st.integers(-3, 3), "N": st.integers(60, 160), "f8": st.booleans()}


@st.composite
def cases(draw, **extra):
    c = {k: draw(v) for k, v in {**common, **extra}.items()}
    c["buffer"] = draw(st.one_of(st.none(), st.none(), st.integers(0, 10)))
    c["rho"] = draw(st.integers(1, 13) if c["buffer"] is None else st.integers(1, 32))
    return c


SUBS = [
    Sub("warm", cases(service=serv, warm=side, first=st.booleans()), test_warm, 250, rule="more than one channel"),
    Sub("cold", cases(service=serv, warm=side, cold=side, delay=side, stable=st.booleans()), test_cold, 250, rule="more than one channel"),
    Sub("markov", cases(warm=side, cold=side), test_markov, 250, rule="more than one channel"),
]

"""C15: the Takahashi-Takami solver of M/H2/n and M/H2/n/R against a direct solution of the same chain."""
import math

import numpy as np
from hypothesis import strategies as st

from ..core import Discard, run_or_discard, Sub, require, require_close, require_close_seq
from ..markov import build_levels, solve_levels
from .c01 import gamma_moments, scaled
from .c10 import mixture_moments

PROPERTY = "C15"
RULE = ("service moments of gamma laws and of random mixtures of Erlang phases (coefficient of variation 0.35..3, complex two-phase fits "
        "included), 1-8 channels, loads 1/16..15/16 (up to 2 with a buffer of 0..12 or more than 150 places), time units 1e-3..1e3; the level chain "
        "with the fitted phases is solved directly by level reduction; the waiting time with a buffer by first passage of the queue ahead")
ASSUMPTIONS = ["the two-phase fit itself is judged by C01; moments whose fit has a rate with negative real part or a negative tail are discarded", "levels: cases where the exact probability above the requested number of levels exceeds 1e-11 are discarded",
               "the iteration is run with accuracy 1e-10 (1e-6 with complex phases) and compared with tolerance 1e-4 (3e-3); the default accuracy with 2e-3 in every probability",
               "at most 8 channels (with complex or signed phases at most 5, and weights to the power of n below 1e5): beyond that the algorithm is numerically unstable"]


def h2_states(n):
    return lambda k: list(range(min(k, n) + 1))       # number of busy channels in the second phase


def h2_rates(n, l, y, mu, top):
    def rates(k, i):
        m = min(k, n)
        if k < top:
            if k < n:
                yield k + 1, i, l * y[0]
                yield k + 1, i + 1, l * y[1]
            else:
                yield k + 1, i, l
        a, b = (m - i) * mu[0], i * mu[1]
        if k <= n:
            if i < m:
                yield k - 1, i, a
            if i:
                yield k - 1, i - 1, b
        else:
            if i < m:
                yield k - 1, i, a * y[0]
                yield k - 1, i + 1, a * y[1]
            if i:
                yield k - 1, i - 1, b * y[0]
                yield k - 1, i, b * y[1]
    return rates


def mh2n(n, l, y, mu, top):
    index, up, down, local = build_levels(h2_states(n), h2_rates(n, l, y, mu, top), top)
    return solve_levels(up, down, local)


def service(case):
    """Moments with mean one and their two-phase parameters."""
    from most_queue.rand_distribution import H2_dist
    if case["gamma"]:
        a = case["gamma"] / 16
        b = gamma_moments(a, a, 3)
    else:
        b = mixture_moments([(w, r, mean / 8) for w, r, mean in case["phases"]], 3)
        b = scaled(b, 1 / b[0])
    if not 0.35 < math.sqrt(max(b[1] - 1, 0)) < 3:
        raise Discard("far shape")
    if abs(b[2] / (1.5 * b[1] ** 2) - 1) < 1e-3 and abs(b[1] - 2) > 1e-3:
        raise Discard("a phase of zero length")
    p = H2_dist.get_params_clx(b)
    y, mu = [p[0], 1 - p[0]], [p[1], p[2]]
    if not all(np.isfinite([complex(z).real for z in y + mu])) or min(abs(z) for z in mu) < 1e-3 or max(abs(z) for z in mu) > 1e3:
        raise Discard("degenerate fit")
    if min(complex(z).real for z in mu) < 0:
        raise Discard("no stable two-phase law has these moments")
    slow = min((0, 1), key=lambda i: mu[i].real)
    if abs(complex(y[0]).imag) == 0 and complex(y[slow]).real < 0:
        raise Discard("the fitted two-phase law is not a distribution: its tail is negative")
    return b, y, mu, max(abs(complex(z).imag) for z in y + mu) > 0 or min(complex(z).real for z in y) < 0


def channels(n, y, odd):
    if odd:
        n = min(n, 5)
        if max(abs(z) for z in y) ** n > 1e5:
            raise Discard("ill-conditioned signed weights")
    return n


def moments_from(p, n, l):
    return [sum(math.perm(j, i) * p[n + j] for j in range(i, len(p) - n)) / l ** i for i in (1, 2, 3)]


def conv(w, b):
    return [w[0] + b[0], w[1] + 2 * w[0] * b[0] + b[1], w[2] + 3 * w[1] * b[0] + 3 * w[0] * b[1] + b[2]]


def run(n, l, b, unit, acc, **kw):
    from most_queue.theory.mgn_tt import MGnCalc
    q = MGnCalc(n, l / unit, [x * unit ** (i + 1) for i, x in enumerate(b)], accuracy=acc, **kw)
    run_or_discard(q.run) if acc > 1e-9 else q.run()
    p = list(q.get_p())
    w = [x / unit ** (i + 1) for i, x in enumerate(q.get_w())]
    v = [x / unit ** (i + 1) for i, x in enumerate(q.get_v())]
    return q, p, w, v


def compare(q, p, w, v, P, Y, W, b, n, l, what, rtol, odd):
    """Everything the solver reports against the reference."""
    scale = rtol * 1e-2
    require(len(p) <= len(P) or max(map(abs, p[len(P):])) == 0, f"{what}: {len(p)} probabilities, {len(P)} states")
    for k in range(min(len(p), len(P))):
        require_close(p[k], P[k], f"{what}: p[{k}]", rtol=rtol, atol=scale)
    require_close(sum(p), 1.0, f"{what}: sum of the probabilities", rtol=1e-9)
    for k in range(3):
        require_close(w[k], W[k], f"{what}: waiting moment {k + 1}", rtol=rtol * 2, atol=scale * (k + 1))
    require_close_seq(v, conv(W, b), f"{what}: sojourn moments", rtol=rtol * 2)
    for k in range(min(len(q.Y), len(Y), 40)):
        got = np.ravel(q.Y[k])
        require(len(got) == len(Y[k]), f"{what}: {len(got)} microstates on level {k}, {len(Y[k])} expected")
        require_close(got.sum().real, p[k], f"{what}: sum of the microstates of level {k}", rtol=1e-6, atol=1e-12)
        if odd:
            continue      # complex microstates may be large and cancel
        for i in range(len(got)):
            require_close(got[i], Y[k][i], f"{what}: microstate {k},{i}", rtol=rtol * 10, atol=scale * 10)


def test_infinite(case):
    b, y, mu, odd = service(case)
    n = channels(case["n"], y, odd)
    l = n * case["rho"] / 16
    N = case["N"] + n
    top = 2 * N + 100
    Y = mh2n(n, l, y, mu, top)
    P = [z.sum().real for z in Y]
    if sum(map(abs, P[N:])) > 1e-11:
        raise Discard("too few levels")
    if min(P) < -1e-9:
        raise Discard("the fitted law gives negative probabilities")
    what = f"M/H2/{n}, load {case['rho']}/16, b={b}"
    W = moments_from(P, n, l)
    unit = 10.0 ** case["unit"]
    q, p, w, v = run(n, l, b, unit, 1e-6 if odd else 1e-10, N=N)
    compare(q, p, w, v, P, Y, W, b, n, l, what, 3e-3 if odd else 1e-5, odd)
    f = [math.factorial(k) * sum(y[i] / mu[i] ** k for i in range(2)) for k in (1, 2, 3)]
    require_close(f[0], b[0], f"{what}: mean of the fitted law", rtol=0.2)
    if n == 1:
        rho = l * f[0]
        w1 = l * f[1] / (2 * (1 - rho))
        pk = [w1, 2 * w1 ** 2 + l * f[2] / (3 * (1 - rho))]
        for k in range(2):
            require_close(w[k], pk[k].real, f"{what}: Pollaczek-Khinchine moment {k + 1}", rtol=1e-6)
    # work conservation: the mean number of busy channels
    busy = sum(min(k, n) * x for k, x in enumerate(p))
    require_close(busy, (l * f[0]).real, f"{what}: mean number of busy channels", rtol=3e-3 if odd else 1e-4)
    return n > 1


def waits_finite(n, y, mu, Y, cap):
    """First passage of the queue ahead of an accepted arrival, as one absorbing chain."""
    L = cap - n
    if L <= 0:
        return [0.0] * 3
    st_ = [(m, i) for m in range(1, L + 1) for i in range(n + 1)]
    ix = {s: k for k, s in enumerate(st_)}
    Q = np.zeros((len(st_), len(st_)), complex)
    for (m, i), k in ix.items():
        a, b = (n - i) * mu[0], i * mu[1]
        Q[k, k] -= a + b
        if m > 1:
            for j, r in ((i, a * y[0] + b * y[1]), (i + 1, a * y[1]), (i - 1, b * y[0])):
                if 0 <= j <= n:
                    Q[k, ix[m - 1, j]] += r
    start = np.zeros(len(st_), complex)
    for k in range(n, cap):
        for i in range(n + 1):
            start[ix[k - n + 1, i]] = Y[k][i]
    acc = 1 - Y[cap].sum().real
    out, vec = [], np.ones(len(st_), complex)
    for r in (1, 2, 3):
        vec = np.linalg.solve(-Q, vec) * r
        out.append((start @ vec).real / acc)
    return out


def test_finite(case):
    b, y, mu, odd = service(case)
    n = channels(case["n"], y, odd)
    l = n * case["rho"] / 16
    R = case["buffer"]
    Y = mh2n(n, l, y, mu, n + R)
    P = [z.sum().real for z in Y]
    if min(P) < -1e-9:
        raise Discard("the fitted law gives negative probabilities")
    W = waits_finite(n, y, mu, Y, n + R)
    what = f"M/H2/{n}/{R}, load {case['rho']}/16, b={b}"
    q, p, w, v = run(n, l, b, 10.0 ** case["unit"], 1e-6 if odd else 1e-10, buffer=R)
    compare(q, p, w, v, P, Y, W, b, n, l, what, 3e-3 if odd else 1e-5, odd)
    acc = 1 - p[n + R]
    queue = sum(max(k - n, 0) * x for k, x in enumerate(p))
    if not odd:
        require_close(queue, l * acc * w[0], f"{what}: Little's law", rtol=1e-4, atol=1e-5)
    return R > 0 and n > 1


def test_default(case):
    """Default number of levels and accuracy: the result is within a percent."""
    b, y, mu, odd = service(case)
    n = channels(case["n"], y, odd)
    l = n * min(case["rho"], 13) / 16
    Y = mh2n(n, l, y, mu, 400)
    P = [z.sum().real for z in Y]
    if sum(map(abs, P[145:])) > 1e-8 or min(P) < -1e-9:
        raise Discard("too few levels")
    from most_queue.theory.mgn_tt import MGnCalc
    unit = 10.0 ** case["unit"]
    q = MGnCalc(n, l / unit, [x * unit ** (i + 1) for i, x in enumerate(b)])
    run_or_discard(q.run) if odd else q.run()
    p = q.get_p()
    what = f"M/H2/{n} with default settings, load {l / n:.4f}, b={b}"
    require(len(p) == 150, f"{what}: {len(p)} probabilities")
    for k in range(150):
        require_close(p[k], P[k], f"{what}: p[{k}]", rtol=0, atol=2e-3)
    W = moments_from(P, n, l)
    got = q.get_w()
    for k in range(3):
        require_close(got[k] / unit ** (k + 1), W[k], f"{what}: waiting moment {k + 1}", rtol=0.02 * (k + 1), atol=2e-3)
    return n > 1


def e2_rates(n, l, top):
    """Erlang-2 service with unit mean: state = number of busy channels in the second stage."""
    def rates(k, i):
        m = min(k, n)
        if k < top:
            yield k + 1, i, l
        if i < m:
            yield k, i + 1, 2 * (m - i)
        if i:
            yield k - 1, i - 1, 2 * i
    return rates


def exact(law, n, l, top):
    """P(k in the system), k <= top, for exponential or Erlang-2 service with unit mean."""
    if law == "exp":
        x = [1.0]
        for k in range(top):
            x.append(x[-1] * l / min(k + 1, n))
        return np.array(x) / sum(x)
    index, up, down, local = build_levels(h2_states(n), e2_rates(n, l, top), top)
    return np.array([float(np.real(y).sum()) for y in solve_levels(up, down, local)])


def test_special(case):
    """Exponential and Erlang-2 services: the two-phase fit is degenerate there and perturbed; the results must still be right."""
    from most_queue.theory.mgn_tt import MGnCalc
    n, unit = case["n"], 4.0 ** case["unit"]
    b = {"exp": [1.0, 2.0, 6.0], "erl": [1.0, 1.5, 3.0]}[case["law"]]
    b = [x * (1 + case["jitter"] * 1e-5 * k * (k + 1) / 2) for k, x in enumerate(b)]
    l = n * case["rho"] / 32
    buffer = case["buffer"]
    kw = {} if buffer is None else {"buffer": buffer}
    what = f"M/{case['law']}/{n}{'' if buffer is None else f'/{n + buffer}'}, load {case['rho']}/32, b={b}, unit {unit}"
    calc = MGnCalc(n, l / unit, scaled(b, unit), N=150, **kw)
    calc.run()
    top = 1500 if buffer is None else n + buffer
    P = exact(case["law"], n, l, top)
    got = [complex(x).real for x in calc.get_p()]
    for k in range(min(len(P), len(got), 120)):
        require_close(got[k], P[k], f"{what}: p[{k}]", rtol=0, atol=2e-3)
    lost = 0 if buffer is None else P[-1]
    w = sum((k - n) * P[k] for k in range(n, len(P))) / (l * (1 - lost))
    require_close(complex(calc.get_w()[0]).real / unit, w, f"{what}: mean waiting time", rtol=0.01, atol=1e-3)
    return n > 1


def test_binom(case):
    from most_queue.theory.mgn_tt import MGnCalc
    a = [x / 16 for x in case["a"]]
    b = [x / 16 for x in case["b"]]
    got = MGnCalc.binom_calc(a, b, case["num"])
    require(len(got) == case["num"], f"{len(got)} moments, asked for {case['num']}")
    require_close_seq(got, conv(a, b)[:case["num"]], "moments of a sum")
    return case["num"] > 1


phases = st.lists(st.tuples(st.integers(1, 9), st.integers(1, 4), st.integers(1, 40)), min_size=1, max_size=3)
serv = {"gamma": st.one_of(st.just(0), st.integers(2, 128)), "phases": phases}
infinite = st.fixed_dictionaries({**serv, "n": st.integers(1, 8), "rho": st.integers(1, 15), "unit": st.integers(-3, 3),
                                  "N": st.integers(40, 200)})
finite = st.fixed_dictionaries({**serv, "n": st.integers(1, 8), "rho": st.integers(1, 32), "unit": st.integers(-3, 3),
                                "buffer": st.one_of(st.integers(0, 12), st.integers(0, 12), st.integers(0, 12), st.integers(13, 60))})
default = st.fixed_dictionaries({**serv, "n": st.integers(1, 8), "rho": st.integers(1, 13), "unit": st.integers(-3, 3)})
binom = st.fixed_dictionaries({"a": st.lists(st.integers(0, 99), min_size=3, max_size=3), "b": st.lists(st.integers(0, 99), min_size=3, max_size=3),
                               "num": st.integers(1, 3)})
special = st.fixed_dictionaries({"law": st.sampled_from(["exp", "erl"]), "n": st.integers(1, 8), "rho": st.integers(1, 29), "unit": st.integers(-3, 3),
                                 "jitter": st.one_of(st.just(0), st.integers(-30, 30)),
                                 "buffer": st.one_of(st.none(), st.none(), st.integers(0, 30))})
SUBS = [
    Sub("special", special, test_special, 40, rule="more than one channel"),
    Sub("infinite", infinite, test_infinite, 120, rule="more than one channel"),
    Sub("finite", finite, test_finite, 160, rule="a queue and more than one channel",
        explicit=[{"gamma": 0, "phases": [(1, 1, 4), (1, 1, 12)], "n": 2, "rho": 16, "unit": 0, "buffer": 160},
                  {"gamma": 32, "phases": [(1, 1, 8)], "n": 1, "rho": 20, "unit": 0, "buffer": 0}]),
    Sub("default", default, test_default, 30, rule="more than one channel"),
    Sub("binom", binom, test_binom, 80, rule="more than the mean"),
]

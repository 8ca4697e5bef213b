"""C14: M/M/n/r, finite-source M/M/1, M^X/M/1 and M/M/1 with impatience against the generator of their Markov chain."""
import math

import numpy as np
from hypothesis import strategies as st

from ..core import Discard, Sub, require, require_close, require_close_seq
from ..markov import gth

PROPERTY = "C14"
RULE = ("rates over time units 1e-4..1e4, all sizes and batch distributions; the generator of the chain is solved by elimination without "
        "subtractions, waiting times are built from the states seen by accepted arrivals")
ASSUMPTIONS = ["up to 40 channels, 40 places, 40 sources; batch chains are truncated where the tail is below 1e-12"]


def rising(i, k):
    """i (i+1) ... (i+k-1): k-th moment of i exponential services of rate 1."""
    return float(math.prod(range(i, i + k))) if k else 1.0


def conv(w, b):
    return [w[0] + b[0], w[1] + 2 * w[0] * b[0] + b[1], w[2] + 3 * w[1] * b[0] + 3 * w[0] * b[1] + b[2]]


def exp_moments(mu):
    return [math.factorial(k) / mu ** k for k in (1, 2, 3)]


def seq(got, want, what, rtol=1e-8, atol=1e-13):
    require(len(got) == len(want), f"{what}: {len(got)} values, {len(want)} expected")
    require_close_seq(got, want, what, rtol=rtol, atol=atol)


def test_mmnr(case):
    from most_queue.theory.mmnr_calc import MMnr_calc as C
    n, r = case["n"], case["r"]
    unit = 10.0 ** case["unit"]
    mu = 1 / unit
    lam = n * case["rho"] / 16 * mu
    Q = np.zeros((n + r + 1, n + r + 1))
    for i in range(n + r):
        Q[i, i + 1] = lam * unit
        Q[i + 1, i] = min(i + 1, n) * mu * unit
    p = gth(Q)
    what = f"M/M/{n}/{r}, load {case['rho']}/16"
    seq(C.get_p(lam, mu, n, r), p, what + ": p")
    require_close(C.getPI(lam, mu, n, r), p[-1], what + ": loss probability", rtol=1e-8)
    qf = [sum(math.perm(i, k) * p[n + i] for i in range(r + 1)) for k in range(1, 6)]
    require_close(C.getQ(lam, mu, n, r), qf[0], what + ": mean queue", rtol=1e-8)
    k = case["num"]
    seq(C.get_qs(lam, mu, n, r, k), qf[:k], what + ": factorial moments of the queue")
    acc = 1 - p[-1]
    w = [sum(p[n + i] * rising(i + 1, j) for i in range(r)) / (n * mu) ** j / acc for j in range(1, 6)]
    got = C.get_w(lam, mu, n, r, k)
    require(len(got) == k, what + f": {len(got)} waiting moments, asked for {k}")
    for j in range(k):
        require_close(got[j] / unit ** (j + 1), w[j] / unit ** (j + 1), what + f": waiting moment {j + 1}", rtol=1e-8, atol=1e-13)
    b = exp_moments(mu)
    v = conv(w, b)
    got = C.get_v(lam, mu, n, r)
    require_close_seq([x / unit ** (j + 1) for j, x in enumerate(got)], [x / unit ** (j + 1) for j, x in enumerate(v)],
                      what + ": sojourn moments", rtol=1e-8)
    N = float(np.dot(np.arange(n + r + 1), p))
    require_close(got[0] * lam * acc, N, what + ": Little's law", rtol=1e-8)
    return r > 0 and n > 1


def test_engset(case):
    from most_queue.theory.engset_model import Engset
    m = case["m"]
    unit = 10.0 ** case["unit"]
    lam, mu = case["lam"] / 16 / unit, 1 / unit
    Q = np.zeros((m + 1, m + 1))
    for i in range(m):
        Q[i, i + 1] = (m - i) * lam * unit
        Q[i + 1, i] = mu * unit
    p = gth(Q)
    what = f"finite source, m={m}, lam/mu={case['lam']}/16"
    e = Engset(lam, mu, m)
    seq(e.get_p(), p, what + ": p")
    N = float(np.dot(np.arange(m + 1), p))
    Qm = N - (1 - p[0])
    eff = lam * (m - N)
    require_close(e.get_N(), N, what + ": mean number", rtol=1e-8)
    require_close(e.get_Q(), Qm, what + ": mean queue", rtol=1e-7, atol=1e-12)
    require_close(e.get_kg(), (m - N) / m, what + ": availability", rtol=1e-7)
    require_close(e.get_lamD(), eff, what + ": effective rate", rtol=1e-7, atol=0)
    pi = [(m - i) * p[i] / (m - N) for i in range(m)]
    w = [sum(pi[i] * rising(i, k) for i in range(m)) / mu ** k for k in (1, 2, 3)]
    v = conv(w, exp_moments(mu))
    require_close(e.get_w1() / unit, w[0] / unit, what + ": mean wait", rtol=1e-7, atol=1e-11)
    require_close(e.get_v1() / unit, v[0] / unit, what + ": mean sojourn", rtol=1e-7)
    for name, got, want in (("waiting", e.get_w(), w), ("sojourn", e.get_v(), v)):
        require(len(got) == 3, f"{what}: {len(got)} {name} moments")
        for k in range(3):
            require_close(got[k] / unit ** (k + 1), want[k] / unit ** (k + 1), f"{what}: {name} moment {k + 1}", rtol=1e-7, atol=1e-11)
    s = case["s"] / 16 / unit
    require_close(e.ws(s, p[0], N), sum(pi[i] * (mu / (mu + s)) ** i for i in range(m)), what + ": transform of the wait", rtol=1e-7)
    return m > 2


def test_batch(case):
    from most_queue.theory.batch_mm1 import BatchMM1
    unit = 10.0 ** case["unit"]
    wts = case["batch"]
    if sum(wts) == 0 or wts[-1] == 0:
        wts = wts + [1]
    pr = [x / sum(wts) for x in wts]
    mean = sum((i + 1) * x for i, x in enumerate(pr))
    mu = 1.0
    lam = case["rho"] / 32 / mean
    # level-crossing, independent of the code: truncated generator, solved densely
    M = 60 + int(len(pr) * 16 / (1 - case["rho"] / 32))
    if M > 900:
        raise Discard("tail too long for the reference")
    Q = np.zeros((M + 1, M + 1))
    for i in range(M + 1):
        for k, x in enumerate(pr):
            Q[i, min(M, i + k + 1)] += lam * x
        if i:
            Q[i, i - 1] = mu
        Q[i, i] = 0
    p = gth(Q)
    if p[-1] > 1e-11:
        raise Discard("tail too long for the reference")
    q = BatchMM1(lam / unit, mu / unit, list(pr))
    what = f"M^X/M/1, batches {pr}"
    got = q.get_p()
    for i, x in enumerate(got):
        require_close(x, p[i] if i <= M else 0.0, f"{what}: p[{i}]", rtol=1e-7, atol=1e-10)
    require_close(sum(got), 1.0, what + ": sum of the probabilities", rtol=1e-7)
    N = float(np.dot(np.arange(M + 1), p))
    rho = lam * mean / mu
    require_close(q.get_N(), N, what + ": mean number", rtol=1e-6)
    require_close(q.get_Q(), N - rho, what + ": mean queue", rtol=1e-6, atol=1e-7)
    require_close(q.get_w1(), (N - rho) / (lam / unit * mean), what + ": mean wait", rtol=1e-6, atol=1e-7 * unit)
    require_close(q.get_v1(), N / (lam / unit * mean), what + ": mean sojourn", rtol=1e-6)
    require_close(q.calc_l(), mean, what + ": mean batch", rtol=1e-9)
    mom = q.calc_l_moments()
    seq(mom, [mean, sum((i + 1) ** 2 * x for i, x in enumerate(pr))], what + ": batch moments", rtol=1e-9)
    Ls = q.calc_L()
    for i in range(len(pr)):
        require_close(Ls[i], sum(pr[i:]), what + f": P(batch > {i})", rtol=1e-9, atol=1e-12)
    num = case["pnum"]
    few = BatchMM1(lam / unit, mu / unit, list(pr), p_num=num).get_p()
    require(len(few) == min(num, len(got)), what + f": {len(few)} probabilities, asked for {num}")
    return len(pr) > 1


def test_impatience(case):
    from most_queue.theory import impatience_calc as m
    unit = 10.0 ** case["unit"]
    mu = case["mu"] / 16
    gamma = case["gamma"] / 16
    lam = mu + case["i"] * gamma if case["peak"] else case["lam"] / 16
    what = f"M/M/1 with impatience, l={lam}, mu={mu}, gamma={gamma}"
    M = int(max(0, (lam - mu) / gamma) + 60 + 12 * math.sqrt(lam / gamma) + 30 / min(1, gamma / mu * 4 + 1))
    while True:
        Q = np.zeros((M + 1, M + 1))
        for i in range(M):
            Q[i, i + 1] = lam
            Q[i + 1, i] = mu + i * gamma
        p = gth(Q)
        if p[-1] < 1e-16:
            break
        M = 2 * M
        if M > 1500:
            raise Discard("tail too long for the reference")
    l, u, g = lam / unit, mu / unit, gamma / unit
    require_close(m.get_p0(l, u, g), p[0], what + ": p0", rtol=1e-6)
    got = m.get_p(l, u, g)
    for i in range(max(len(got), len(p))):
        require_close(got[i] if i < len(got) else 0.0, p[i] if i < len(p) else 0.0, f"{what}: p[{i}]", rtol=1e-6, atol=1e-9)
    N = float(np.dot(np.arange(M + 1), p))
    Qm = N - (1 - p[0])
    require_close(m.get_N(l, u, g), N, what + ": mean number", rtol=1e-6)
    require_close(m.get_Q(l, u, g), Qm, what + ": mean queue", rtol=1e-6, atol=1e-8)
    require_close(m.get_w1(l, u, g) / unit, Qm / lam, what + ": mean wait", rtol=1e-6, atol=1e-8)
    require_close(m.get_v1(l, u, g) / unit, N / lam, what + ": mean sojourn", rtol=1e-6)
    # conservation: served + impatient = arrived
    require_close((1 - got[0]) * u + g * m.get_Q(l, u, g), l, what + ": conservation of jobs", rtol=1e-6)
    return lam > mu


units = st.integers(-4, 4)
SUBS = [
    Sub("mmnr", st.fixed_dictionaries({"n": st.integers(1, 40), "r": st.integers(0, 40), "rho": st.integers(1, 48), "unit": units, "num": st.integers(1, 5)}),
        test_mmnr, quick=1500, thorough=40000, rule="non-trivial = several channels and a buffer"),
    Sub("engset", st.fixed_dictionaries({"m": st.integers(1, 40), "lam": st.integers(1, 80), "unit": units, "s": st.integers(0, 64)}), test_engset,
        quick=1500, thorough=40000, rule="non-trivial = three or more sources"),
    Sub("batch", st.fixed_dictionaries({"batch": st.lists(st.integers(0, 6), min_size=1, max_size=7), "rho": st.integers(1, 30), "unit": units,
                                        "pnum": st.integers(1, 30)}), test_batch, quick=600, thorough=15000, rule="non-trivial = random batch size"),
    Sub("impatience", st.fixed_dictionaries({"lam": st.integers(1, 400), "mu": st.integers(1, 60), "gamma": st.integers(1, 60), "unit": units,
                                             "peak": st.booleans(), "i": st.integers(0, 60)}), test_impatience, quick=1000, thorough=30000,
        rule="non-trivial = more arrivals than the server can serve"),
]

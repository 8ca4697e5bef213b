"""C11: M/G/1 and M/G/1 with a different first service after idleness."""
import math

import numpy as np
from hypothesis import strategies as st
from scipy import integrate, special as sc, stats

from ..core import Discard, Sub, require, require_close, require_close_seq
from .c01 import gamma_moments, scaled
from .c10 import mixture_moments

PROPERTY = "C11"
RULE = ("service moments of random Erlang mixtures, loads 1/64..63/64, time units 1e-4..1e4; moments compared with the compound "
        "geometric form of the waiting time, state probabilities with the positive level-crossing recursion of the embedded chain "
        "with independently computed arrival counts (negative binomial, Poisson sums, quadrature)")
ASSUMPTIONS = ["the warm-up model is judged for gamma service and first-service times, of which the code uses two moments"]


def service(case, num):
    return mixture_moments([(w, r, mean / 8) for w, r, mean in case["phases"]], num)


def test_moments(case):
    from most_queue.theory import mg1_calc as m
    nb = case["nb"]
    b = scaled(service(case, nb), 10.0 ** case["unit"])
    rho = case["rho"] / 64
    lam = rho / b[0]
    num = case["num"]
    keep = list(b)
    k = min(nb - 1, num)
    # W = rho-geometric number of residual services
    R = [b[i + 1] / ((i + 2) * b[0]) for i in range(nb - 1)]
    W = [1.0]
    for i in range(1, k + 1):
        W.append(rho / (1 - rho) * sum(math.comb(i, j) * W[j] * R[i - j - 1] for j in range(i)))
    got = m.get_w(lam, b, num) if case["explicit"] else m.get_w(lam, b)
    if not case["explicit"]:
        k = min(nb - 1, 3)
        W += [None] * (k + 1 - len(W))
        for i in range(1, k + 1):
            W[i] = rho / (1 - rho) * sum(math.comb(i, j) * W[j] * R[i - j - 1] for j in range(i))
    require(len(got) == k, f"{len(got)} waiting moments of {k}")
    require_close_seq(got, W[1:k + 1], "waiting moments", rtol=1e-9, atol=0)
    v = m.get_v(lam, b, num) if case["explicit"] else m.get_v(lam, b)
    B = [1.0] + b
    V = [sum(math.comb(i, j) * W[j] * B[i - j] for j in range(i + 1)) for i in range(1, min(k, 3) + 1)]
    require_close_seq(v, V, "sojourn moments", rtol=1e-9, atol=0)
    require(b == keep, "service moments changed")
    return k > 2


def level_crossing(q, qbar, q0bar=None):
    """Stationary embedded chain, unnormalised: p[i+1] q[0] = p0 Q0bar[i] + sum_{j=1..i} p[j] Qbar[i-j+1]."""
    n = len(qbar)
    q0bar = qbar if q0bar is None else q0bar
    p = np.zeros(n)
    p[0] = 1.0
    for i in range(n - 1):
        p[i + 1] = (p[0] * q0bar[i] + np.dot(p[1:i + 1], qbar[i:0:-1])) / q[0]
    return p


def counts(kind, lam, m, cv, num):
    """Independent P(k arrivals during a service), k < num, and the upper tails."""
    k = np.arange(num)
    if kind == "Gamma":
        al = 1 / cv ** 2
        mu = al / m
        return stats.nbinom.pmf(k, al, mu / (mu + lam)), stats.nbinom.sf(k, al, mu / (mu + lam))
    if kind == "Uniform":
        h = m * cv * math.sqrt(3)
        a, b = lam * (m - h), lam * (m + h)
        # integral of the Poisson pmf = difference of gamma distribution functions
        q = (sc.gammainc(k + 1, b) - sc.gammainc(k + 1, a)) / (b - a)
    else:
        al = 1 + math.sqrt(1 + 1 / cv ** 2)
        K = (al - 1) * m / al
        z = lam * K
        q = []
        for j in k:
            # substitution t = K e^u: density al exp(-al u)
            f = lambda u: al * math.exp(-al * u + stats.poisson.logpmf(j, z * math.exp(u)))
            c = max(0.0, math.log((j + 1) / z))
            q.append(integrate.quad(f, 0, c, epsabs=1e-14, epsrel=1e-11, limit=200)[0] +
                     integrate.quad(f, c, c + 3, epsabs=1e-14, epsrel=1e-11, limit=200)[0])
        q = np.array(q)
    return q, 1 - np.cumsum(q)


def test_p(case):
    from most_queue.theory import mg1_calc as m
    kind = case["kind"]
    cv = case["cv"] / 32
    unit = 10.0 ** case["unit"]
    rho = case["rho"] / 64
    num = case["num"]
    if kind == "Uniform":
        cv = min(cv, 0.57)
    elif kind == "Pa":
        cv = max(cv, 0.12)
        al = 1 + math.sqrt(1 + 1 / cv ** 2)
        if case["cv"] % 4 == 0:
            al = max(3.0, float(round(al)))
            cv = 1 / math.sqrt(al * (al - 2))
    b = [unit, unit * unit * (1 + cv * cv)]
    if kind != "Pa":
        num = 5 * num // 2
    q, qb = counts(kind, rho, 1.0, cv, num)
    p = level_crossing(q, qb) * (1 - rho)
    if case["default"] and kind == "Gamma":
        got = m.get_p(rho / unit, list(b))
        require(len(got) == 100, f"{len(got)} probabilities by default")
    else:
        got = m.get_p(rho / unit, list(b), num, dist_type=kind)
        require(len(got) == num, f"{len(got)} probabilities, asked for {num}")
    tol = 1e-7 if kind != "Gamma" else 1e-10
    for i in range(min(len(got), num)):
        require_close(got[i], p[i], f"{kind} service: p[{i}]", rtol=1e-6 if i < 15 else 1, atol=tol)
    require(min(got) > -1e-6 and sum(got) < 1 + 1e-6, f"{kind}: {min(got)} .. sum {sum(got)} are no probabilities")
    return num > 5 and kind != "Gamma" or num > 20


def gamma_counts(lam, mean, cv, num):
    return counts("Gamma", lam, mean, cv, num)


def test_warm(case):
    from most_queue.theory import mg1_warm_calc as m
    unit = 10.0 ** case["unit"]
    rho = case["rho"] / 64
    cv, cvw, mw = case["cv"] / 32, case["cvw"] / 32, case["warm"] / 16
    b = scaled([1.0, 1 + cv * cv], unit)
    bw = scaled([mw, mw * mw * (1 + cvw * cvw)], unit)
    if case["extra"]:
        b = scaled(gamma_moments(1 / cv ** 2, 1 / cv ** 2, 4), unit)
    got = m.get_v(rho / unit, list(b), list(bw))
    # exact: same decomposition with moments, W | busy from regenerative argument, through the transform series in mpmath
    num = 700
    while True:
        q, qb = gamma_counts(rho, 1.0, cv, num)
        qw, qwb = gamma_counts(rho, mw, cvw, num)
        p = level_crossing(q, qb, qwb)
        k = np.arange(num, dtype=float)
        if p[-1] * num ** 4 < 1e-10 * np.dot(p, k * (k - 1) * (k - 2)):
            break
        num *= 2
        if num > 6000:
            raise Discard("tail too long for the reference")
    p /= p.sum()
    fact = [np.dot(p, k), np.dot(p, k * (k - 1)), np.dot(p, k * (k - 1) * (k - 2))]
    want = [fact[i] / (rho / unit) ** (i + 1) for i in range(3)]
    require_close_seq(got, want, "sojourn moments with warm-up", rtol=1e-6, atol=0)
    if case["same"]:
        from most_queue.theory import mg1_calc
        c = scaled(gamma_moments(1 / cv ** 2, 1 / cv ** 2, 4), unit)
        require_close_seq(m.get_v(rho / unit, list(c), list(c)), mg1_calc.get_v(rho / unit, c), "equal first service: M/G/1", rtol=1e-7, atol=0)
    return mw != 1 or cvw != cv


phase = st.tuples(st.integers(1, 9), st.integers(1, 6), st.integers(1, 60))
mix = st.lists(phase, min_size=1, max_size=3)
units = st.integers(-4, 4)
SUBS = [
    Sub("moments", st.fixed_dictionaries({"phases": mix, "unit": units, "rho": st.integers(1, 63), "nb": st.integers(2, 7), "num": st.integers(1, 6),
                                          "explicit": st.booleans()}), test_moments, quick=3000, thorough=60000,
        rule="non-trivial = three or more moments"),
    Sub("p", st.fixed_dictionaries({"kind": st.sampled_from(["Gamma", "Uniform", "Pa"]), "unit": units, "rho": st.integers(2, 62), "cv": st.integers(3, 80),
                                    "num": st.integers(1, 40), "default": st.booleans()}), test_p, quick=500, thorough=12000,
        rule="non-trivial = more than 5 (20 for gamma) probabilities"),
    Sub("warm", st.fixed_dictionaries({"unit": units, "rho": st.integers(2, 56), "cv": st.integers(8, 56), "cvw": st.integers(8, 56),
                                       "warm": st.integers(1, 160), "extra": st.booleans(), "same": st.booleans()}), test_warm,
        quick=300, thorough=8000, rule="non-trivial = the first service differs"),
]

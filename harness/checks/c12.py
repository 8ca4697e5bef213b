"""C12: GI/M/1 and GI/M/n against the embedded chain built by uniformisation."""
import math

import numpy as np
from hypothesis import strategies as st
from scipy import integrate, stats

from ..core import Discard, Sub, require, require_close, require_close_seq
from .c01 import gamma_moments, scaled
from .c10 import mixture_moments

PROPERTY = "C12"
RULE = ("interarrival moments of random Erlang mixtures (gamma density with polynomial) or of a Pareto distribution, 1-8 channels, loads "
        "1/32..29/32, time units 1e-4..1e4; compared with the stationary vector of the truncated chain embedded at arrivals, whose "
        "transition matrix is built by uniformisation of the death process")
ASSUMPTIONS = ["gamma input is given by 3 or 4 moments; the approximating density may be signed, then the same signed chain is the reference "
               "(discarded when its fixed-point equation has no unique stable root)",
               "more probabilities than channels are requested; at most 8 channels"]


def gamma_poly(a):
    """Own fit: base gamma and polynomial from the moment equations (normalised time unit)."""
    d = a[1] - a[0] ** 2
    v = a[0] / d
    al = v * a[0]
    n = len(a)
    base = [1.0] + gamma_moments(v, al, 2 * n + 1)
    A = np.array([[base[i + j] for j in range(n + 1)] for i in range(n + 1)])
    return v, al, np.linalg.solve(A, np.array([1.0] + list(a)))


class Input:
    def __init__(self, case):
        self.kind = case["kind"]
        if self.kind == "Gamma":
            f = mixture_moments([(w, r, mean / 8) for w, r, mean in case["phases"]], case["num_a"])
            f = scaled(f, 1 / f[0])
            if case["exact"]:
                cv2 = f[1] - 1
                f = gamma_moments(1 / cv2, 1 / cv2, case["num_a"])
            self.cv = math.sqrt(f[1] - 1)
            if not 0.3 < self.cv < 2:
                raise Discard("far shape")
            self.v, self.al, self.g = gamma_poly(f)
        else:
            self.cv = max(case["cv"], 4) / 32
            self.a = 1 + math.sqrt(1 + 1 / self.cv ** 2)
            if case["cv"] % 4 == 0:
                self.a = max(3.0, float(round(self.a)))
                self.cv = 1 / math.sqrt(self.a * (self.a - 2))
            self.K = (self.a - 1) / self.a
            f = [1.0, 1 + self.cv ** 2, 1.0, 1.0][:case["num_a"]]
        self.f = f

    def lst(self, s):
        if self.kind == "Gamma":
            return sum(g * math.exp(math.lgamma(self.al + i) - math.lgamma(self.al)) * self.v ** self.al / (self.v + s) ** (self.al + i)
                       for i, g in enumerate(self.g))
        z = self.K * s
        f = lambda u: self.a * math.exp(-self.a * u - z * math.exp(u))
        return integrate.quad(f, 0, 2, epsabs=1e-14, epsrel=1e-12)[0] + integrate.quad(f, 2, 60 / self.a + 2, epsabs=1e-14, epsrel=1e-12)[0]

    def counts(self, rate, num):
        """Integrals of the Poisson(rate t) probabilities over the interarrival law."""
        k = np.arange(num)
        if self.kind == "Gamma":
            return sum(g * math.exp(math.lgamma(self.al + i) - math.lgamma(self.al)) / self.v ** i *
                       stats.nbinom.pmf(k, self.al + i, self.v / (self.v + rate)) for i, g in enumerate(self.g))
        z = rate * self.K
        # composite Gauss-Legendre in u = log(t/K): density a exp(-a u)
        top = math.log(num / z) + 1.0 if num > z else 1.0
        x, w = np.polynomial.legendre.leggauss(20)
        edges = np.linspace(0, max(top, 0.5), 61)
        u = np.concatenate([(lo + hi) / 2 + (hi - lo) / 2 * x for lo, hi in zip(edges, edges[1:])])
        ww = np.concatenate([(hi - lo) / 2 * w for lo, hi in zip(edges, edges[1:])])
        t = z * np.exp(u)
        dens = self.a * np.exp(-self.a * u) * ww
        return stats.poisson.pmf(k[:, None], t[None, :]) @ dens


def embedded(inp, n, mu):
    """Stationary vector seen by arrivals (time unit: mean interarrival time 1)."""
    rate = n * mu
    # decay of the tail
    f = lambda w: inp.lst(rate * (1 - w))
    grid = [i / 200 for i in range(200)]
    vals = [f(w) - w for w in grid]
    sign = [(i, vals[i], vals[i + 1]) for i in range(199) if vals[i] * vals[i + 1] <= 0]
    if len(sign) != 1 or vals[0] <= 0:
        if not (vals[0] <= 1e-9 and not sign):
            raise Discard("approximating density has no unique root")
        w = max(vals[0], 0)
    else:
        lo, hi = grid[sign[0][0]], grid[sign[0][0] + 1]
        for _ in range(60):
            mid = (lo + hi) / 2
            lo, hi = (mid, hi) if f(mid) > mid else (lo, mid)
        w = (lo + hi) / 2
    h = 1e-4
    if abs(f(w + h) - f(max(w - h, 0))) / (h + min(w, h)) > 0.97:
        raise Discard("fixed point is not attracting")
    M = n + (int(math.log(1e-13) / math.log(w)) + 3 if w > 1e-6 else 4)
    if M > 420:
        raise Discard("tail too long for the reference")
    K = int(3 * M + 60)
    a = inp.counts(rate, K)
    # Horner: P = sum_k a_k U^k, the mass beyond K empties the system
    die = np.minimum(np.arange(M + 2), n) / n
    P = np.zeros((M + 2, M + 2))
    tail = 1 - a.sum()
    P[:, 0] = tail
    for k in range(K - 1, -1, -1):
        # X <- U X + a_k I ; (U X)[i] = die_i X[i-1] + (1-die_i) X[i]
        Q = (1 - die)[:, None] * P
        Q[1:] += die[1:, None] * P[:-1]
        P = Q
        P[np.arange(M + 2), np.arange(M + 2)] += a[k]
    # arrival finds j: state j + 1, then deaths
    T = P[1:, :M + 1].copy()          # from j = 0..M to 0..M
    T[M, :] = P[M + 1, :M + 1]
    T[M, M] += P[M + 1, M + 1]
    A = T.T - np.eye(M + 1)
    A[0, :] = 1
    B = np.zeros(M + 1)
    B[0] = 1
    return np.linalg.solve(A, B), w


def reference(inp, n, mu):
    pi, w = embedded(inp, n, mu)
    M = len(pi) - 1
    p = np.array([0.0] + [pi[i - 1] / (min(i, n) * mu) for i in range(1, M + 1)])
    p[0] = 1 - p[1:].sum() - pi[M] / (n * mu)
    j = np.arange(n, M + 1) - n + 1.0
    wq = [float(np.dot(pi[n:], np.prod([j + i for i in range(k)], axis=0))) / (n * mu) ** k for k in (1, 2, 3)]
    b = [math.factorial(k) / mu ** k for k in (1, 2, 3)]
    v = [wq[0] + b[0], wq[1] + 2 * wq[0] * b[0] + b[1], wq[2] + 3 * wq[1] * b[0] + 3 * wq[0] * b[1] + b[2]]
    return pi, p, wq, v, b


def compare_list(got, want, what, num, rtol=1e-6, atol=1e-8):
    require(len(got) == num, f"{what}: {len(got)} values, asked for {num}")
    for i, g in enumerate(got):
        require_close(g, want[i] if i < len(want) else 0.0, f"{what}[{i}]", rtol=rtol, atol=atol)


def test_gim1(case):
    from most_queue.theory import gi_m_1_calc as m
    inp = Input(case)
    unit = 10.0 ** case["unit"]
    rho = case["rho"] / 32
    mu = 1 / rho
    pi, p, w, v, b = reference(inp, 1, mu)
    a = scaled(inp.f, unit)
    keep = list(a)
    mu /= unit
    num = case["num"]
    kw = {"approx_distr": inp.kind}
    compare_list(m.get_pi(a, mu, num=num, **kw), pi, f"{inp.kind}/M/1: arrival probabilities", num)
    compare_list(m.get_p(a, mu, num=num, **kw), p, f"{inp.kind}/M/1: state probabilities", num)
    gv = m.get_v(a, mu, **kw)
    gw = m.get_w(a, mu, **kw)
    for k in range(3):
        require_close(gv[k] / unit ** (k + 1), v[k], f"{inp.kind}/M/1: sojourn moment {k + 1}", rtol=1e-5)
        require_close(gw[k] / unit ** (k + 1), w[k], f"{inp.kind}/M/1: waiting moment {k + 1}", rtol=1e-5, atol=1e-7 * b[k])
    nm = case["nm"]
    require_close_seq(m.get_w(a, mu, nm, **kw), gw[:nm], f"{inp.kind}/M/1: first {nm} waiting moments", rtol=1e-9, atol=0)
    require_close_seq(m.get_v(a, mu, nm, **kw), gv[:nm], f"{inp.kind}/M/1: first {nm} sojourn moments", rtol=1e-9, atol=0)
    # Little's law of the returned distribution
    if pi[min(len(pi) - 1, 95)] < 1e-12:
        full = m.get_p(a, mu, **kw)
        require_close(sum(full), 1.0, "sum of the state probabilities", rtol=1e-7)
        require_close(sum(i * x for i, x in enumerate(full)), gv[0] / unit, "Little's law", rtol=1e-6)
        require_close(sum(m.get_pi(a, mu, **kw)), 1.0, "sum of the arrival probabilities", rtol=1e-7)
    require(a == keep, "moments changed")
    return inp.kind == "Pa" or not case["exact"]


def test_gimn(case):
    from most_queue.theory import gi_m_1_calc as m1, gi_m_n_calc as m
    inp = Input(case)
    unit = 10.0 ** case["unit"]
    n = case["n"]
    mu = 32 / case["rho"] / n
    pi, p, w, v, b = reference(inp, n, mu)
    a = scaled(inp.f, unit)
    keep = list(a)
    mu /= unit
    num = n + 1 + case["num"]
    kw = {"approx_distr": inp.kind}
    # the default stopping rule of the fixed point (1e-10) is amplified when n(1 - w) is close to an integer
    tol = {"rtol": 1e-4, "atol": 3e-5}
    if inp.kind == "Gamma" and case["fine"]:
        kw["e"] = 1e-13
        tol = {"rtol": 1e-5, "atol": 1e-7}
    compare_list(m.get_pi(a, mu, n, num=num, **kw), pi, f"{inp.kind}/M/{n}: arrival probabilities", num, **tol)
    compare_list(m.get_p(a, mu, n, num=num, **kw), p, f"{inp.kind}/M/{n}: state probabilities", num, **tol)
    gw, gv = m.get_w(a, mu, n, **kw), m.get_v(a, mu, n, **kw)
    require(len(gw) == 3 and len(gv) == 3, "three moments expected")
    for k in range(3):
        require_close(gw[k] / unit ** (k + 1), w[k], f"{inp.kind}/M/{n}: waiting moment {k + 1}", rtol=tol["rtol"], atol=tol["atol"] * b[k])
        require_close(gv[k] / unit ** (k + 1), v[k], f"{inp.kind}/M/{n}: sojourn moment {k + 1}", rtol=1e-5)
    if n == 1:
        compare_list(m.get_p(a, mu, 1, num=num, **kw), m1.get_p(a, mu, num=num, **kw), "one channel against GI/M/1", num)
        require_close_seq(gv, m1.get_v(a, mu, **kw), "one channel against GI/M/1: sojourn", rtol=1e-5, atol=0)
    require(a == keep, "moments changed")
    return n > 1


phase = st.tuples(st.integers(1, 9), st.integers(1, 6), st.integers(1, 60))
base = {"kind": st.sampled_from(["Gamma", "Pa"]), "phases": st.lists(phase, min_size=1, max_size=3), "num_a": st.sampled_from([3, 4]),
        "exact": st.booleans(), "cv": st.integers(4, 64), "unit": st.integers(-4, 4), "rho": st.integers(1, 29), "num": st.integers(2, 40)}
SUBS = [
    Sub("gim1", st.fixed_dictionaries({**base, "nm": st.integers(1, 3)}), test_gim1, quick=400, thorough=8000,
        rule="non-trivial = Pareto input or a gamma density that needs its polynomial"),
    Sub("gimn", st.fixed_dictionaries({**base, "n": st.integers(1, 8), "fine": st.booleans()}), test_gimn, quick=400, thorough=8000,
        rule="non-trivial = several channels"),
]

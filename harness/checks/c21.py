"""C21: fork-join and split-join: moments of maxima, order statistics, response time approximations."""
import contextlib
import io
import math
from fractions import Fraction as Q

import numpy as np
from hypothesis import strategies as st
from scipy import special

from ..core import Discard, Sub, require, require_close, require_close_seq
from .c01 import scaled

PROPERTY = "C21"
RULE = ("maxima of 1-10 independent Erlang, hyperexponential, exponential and gamma times by log-time quadrature of the exact distribution "
        "(and by exact inclusion-exclusion for exponential mixtures), start delays 0..4 means fixed and random, time units 1e-4..1e4; two-branch exact "
        "formula, published formulas in rational arithmetic, order statistic identities over all k, independent-branch maximum of M/G/1 times")
ASSUMPTIONS = ["the distribution fitted to the moments is that of C01: the inputs are moments of members of the fitted family",
               "delays of random length: the sum of a service time and i delays is represented by the gamma distribution of its two moments, as documented",
               "delays up to 4 mean service times (quadrature panels double in length)",
               "get_v1_fj_invar_sj and get_v_fj_invar_tt are not claimed (their intended scheme cannot be told from the code)"]


def quiet(fn):
    with contextlib.redirect_stdout(io.StringIO()):
        return fn()


S = np.linspace(math.log(1e-7), math.log(1e5), 30001)
T = np.exp(S)


def by_tail(tail, num, scale):
    """Moments from the complementary distribution on a logarithmic grid; tail takes an array of times."""
    t = T * scale
    y = tail(t)
    h = S[1] - S[0]
    return [(T[0] ** k + float(h * k * np.sum(y * T ** k))) * scale ** k for k in range(1, num + 1)]


def gamma_cdf(alpha, mu, t):
    return special.gammainc(alpha, np.maximum(mu * t, 0.0))


def family(case):
    """(moments of the unit-mean law, its distribution function, name)"""
    kind = case["kind"]
    if kind == "E":
        r = case["r"]
        return [math.prod(range(r, r + k)) / r ** k for k in range(1, 5)], lambda t: gamma_cdf(r, r, t), f"Erlang {r}"
    if kind == "M":
        return [float(math.factorial(k)) for k in range(1, 5)], lambda t: gamma_cdf(1, 1, t), "exponential"
    if kind == "H":
        y, a, b = case["y"] / 64, case["a"] / 8, case["b"] / 8
        m = y / a + (1 - y) / b
        a, b = a * m, b * m
        f = [math.factorial(k) * (y / a ** k + (1 - y) / b ** k) for k in range(1, 5)]
        if f[1] - 1 < 1.1:
            raise Discard("nearly exponential")
        return f, lambda t: -y * np.expm1(-a * t) - (1 - y) * np.expm1(-b * t), f"H2 y={y}, mu={a}, {b}"
    al = case["alpha"] / 8
    return [math.prod(al + j for j in range(k)) / al ** k for k in range(1, 3)], lambda t: gamma_cdf(al, al, t), f"gamma {al}"


def test_max(case):
    from most_queue.theory.fj_calc import get_1ambda_max, getMaxMoments
    n, c = case["n"], 10.0 ** case["unit"]
    f, cdf, name = family(case)
    f = f[:case["len"]] if case["kind"] != "G" else f
    b = scaled(f, c)
    keep = list(b)
    num = case["num"]
    got = quiet(lambda: getMaxMoments(n, b, num) if num else getMaxMoments(n, b))
    require(b == keep, "the list of moments given by the caller was changed")
    require(len(got) == (min(num, len(b)) if num else len(b)), f"number of moments {len(got)} for num={num}, {len(b)} given")
    if len(f) == 2 and case["kind"] != "G":
        al = 1 / (f[1] - 1)
        cdf = lambda t: gamma_cdf(al, al, t)
    want = by_tail(lambda t: -np.expm1(n * np.log(np.maximum(cdf(t), 1e-300))), len(got), 1.0)
    what = f"maximum of {n} {name} times of mean {c:g}, moments {num} from {len(b)}"
    require_close_seq([float(x) / c ** (k + 1) for k, x in enumerate(got)], want, what, rtol=2e-4)
    if n == 1:
        require_close_seq([float(x) for x in got], b[:len(got)], what, rtol=2e-4)
    ro = case["ro"] / 64
    if case["kind"] != "M" or len(b) > 2:
        require_close(float(quiet(lambda: get_1ambda_max(b, n, ro))) * c * want[0], ro, f"{what}: load of the split-join queue with get_1ambda_max", rtol=2e-4)
    return n > 1 and case["unit"] != 0


def test_mixture(case):
    """Exact: inclusion-exclusion over phases with rational rates."""
    from most_queue.theory.fj_calc import getMaxMoments
    n = case["n"]
    y, a, b = Q(case["y"], 64), Q(case["a"], 8), Q(case["b"], 8)
    f = [math.factorial(k) * (y / a ** k + (1 - y) / b ** k) for k in range(1, 5)]
    if f[1] / f[0] ** 2 - 1 < Q(11, 10):
        raise Discard("nearly exponential")
    want = []
    for k in range(1, 4):
        s = Q(0)
        for i in range(1, n + 1):
            for j in range(i + 1):
                s += (-1) ** (i + 1) * math.comb(n, i) * math.comb(i, j) * y ** j * (1 - y) ** (i - j) / (j * a + (i - j) * b) ** k
        want.append(float(math.factorial(k) * s))
    got = quiet(lambda: getMaxMoments(n, [float(x) for x in f], 3))
    require_close_seq([float(x) for x in got], want, f"maximum of {n} H2 times y={y}, rates {a}, {b}", rtol=1e-6)
    return n > 1


def test_delta(case):
    from most_queue.theory.fj_calc import getMaxMomentsDelta
    n, c = case["n"], 10.0 ** case["unit"]
    al = case["alpha"] / 8
    f = [math.prod(al + j for j in range(k)) / al ** k for k in range(1, 5)]
    b = scaled(f, c)
    d = case["delta"] / 16
    kw = {"num": case["num"]} if case["num"] else {}
    if case["random"]:
        da = case["dalpha"] / 8
        dm = [math.prod(da + j for j in range(k)) / da ** k * d ** k for k in range(1, 4)]
        delta = scaled(dm, c)
        parts = []
        for i in range(n):
            m, v = 1 + i * d, f[1] - 1 + i * (dm[1] - dm[0] ** 2)
            parts.append((m * m / v, m / v))
        cdf = lambda t: np.prod([gamma_cdf(x, y, t) for x, y in parts], axis=0)
    else:
        delta = d * c
        cdf = lambda t: np.prod([gamma_cdf(al, al, t - i * d) for i in range(n)], axis=0)
    keep = (list(b), list(delta) if case["random"] else delta)
    got = quiet(lambda: getMaxMomentsDelta(n, b, delta=delta, **kw) if d or case["random"] or case["pass0"] else getMaxMomentsDelta(n, b, **kw))
    require((b, delta) == keep, "an argument was changed")
    require(len(got) == (case["num"] or 3), f"number of moments: {len(got)}")
    want = by_tail(lambda t: 1 - cdf(t), len(got), 1.0)
    what = f"maximum of {n} gamma {al} times of mean {c:g} started with delays {delta}"
    require_close_seq([float(x) / c ** (k + 1) for k, x in enumerate(got)], want, what, rtol=(3e-3 if al >= 1 else 1.5e-2) if d else 3e-4)
    return n > 1 and d > 0


def harmonic(n):
    return sum((Q(1, i) for i in range(1, n + 1)), Q(0))


def heavy(n):
    """Varma and Makowski's heavy traffic constant."""
    s = Q(0)
    for r in range(1, n + 1):
        s -= (-1) ** r * math.comb(n, r) * sum(Q(math.perm(r, m), m * r ** (m + 1)) for m in range(1, r + 1))
    return s


def order_weights(n, k):
    """Mean of the k-th smallest of n exchangeable times as a combination of the means of the maxima of i of them: i -> weight."""
    return {i: Q((-1) ** (i - k) * math.comb(i - 1, k - 1) * math.comb(n, i)) for i in range(k, n + 1)}


def test_response(case):
    import most_queue.theory.fj_calc as fj
    n, c = case["n"], 10.0 ** case["unit"]
    rho = Q(case["rho"], 2048)
    mu = Q(case["mu"], 8)
    l = rho * mu
    lf, mf = float(l) / c, float(mu) / c
    what = f"n={n}, load {float(rho):.4f}, mu={mf:g}"
    one = 1 / (mu - l)
    two = (Q(3, 2) - rho / 8) * one
    nelson = {i: (harmonic(i) / Q(3, 2) + Q(4, 11) * (1 - harmonic(i) / Q(3, 2)) * rho) * (12 - rho) / 8 * one for i in range(2, n + 1)}
    nelson[1] = one
    varma = {i: (harmonic(i) + (heavy(i) - harmonic(i)) * rho) * one for i in range(1, n + 1)}
    require_close(fj.get_v1_fj2(lf, mf) / c, float(two), f"{what}: two branches", rtol=1e-10)
    require_close(fj.get_v1_fj_varma(lf, mf, n) / c, float(varma[n]), f"{what}: Varma and Makowski", rtol=1e-7)
    if n > 1:
        require_close(fj.get_v1_fj_nelson_tantawi(lf, mf, n) / c, float(nelson[n]), f"{what}: Nelson and Tantawi", rtol=1e-10)
    vm = (harmonic(n) + rho / (2 * (1 - rho)) * (sum(1 / (i - rho) for i in range(1, n + 1))
                                                + (1 - 2 * rho) * sum(1 / (i * (i - rho)) for i in range(1, n + 1)))) / mu
    require_close(fj.get_v1_fj_varki_merchant(lf, mf, n) / c, float(vm), f"{what}: Varki and Merchant", rtol=1e-10)
    if n == 2:
        for f in ("get_v1_fj_varma", "get_v1_fj_nelson_tantawi", "get_v1_fj_invar"):
            require_close(getattr(fj, f)(lf, mf, 2) / c, float(two), f"{what}: {f} is exact for two branches", rtol=1e-9)
    # constants
    require_close(fj.get_Hn(n), float(harmonic(n)), f"harmonic number {n}", rtol=1e-12)
    require_close(fj.get_V(n), float(heavy(n)), f"get_V({n})", rtol=1e-8)
    got = {"varma": [fj.get_v1_varma_nk(lf, mf, n, k) / c for k in range(1, n + 1)],
           "nelson": [fj.get_v1_fj_nelson_nk(lf, mf, n, k) / c for k in range(1, n + 1)]}
    for name, base in (("varma", varma), ("nelson", nelson)):
        for k in range(1, n + 1):
            w = order_weights(n, k)
            want = float(sum(w[i] * base[i] for i in w))
            require_close(got[name][k - 1], want, f"{what}: {name}, {k} of {n}", rtol=1e-6, atol=1e-7 * float(base[n]))
        require_close(sum(got[name]), float(n * one), f"{what}: {name}: sum over k", rtol=1e-6)
    # light traffic: order statistics of n exponential times
    if rho < Q(1, 1000):
        for k in range(1, n + 1):
            require_close(got["varma"][k - 1], float((harmonic(n) - harmonic(n - k)) / mu), f"{what}: light traffic, {k} of {n}", rtol=2e-2)
    # scaled by the mean time in M/M/n with as slow channels
    r = case["r"]
    v = {}
    for m in (2, n):
        p = [1.0]
        for j in range(1, m + r + 1):
            p.append(p[-1] * float(rho) * m / min(j, m))
        s = sum(p)
        v[m] = sum(j * x for j, x in enumerate(p)) / s / (float(l) * (1 - p[-1] / s))
    require_close(fj.get_v1_fj_invar(lf, mf, n, r=r) / c, float(two) * v[n] / v[2], f"{what}, r={r}: invariant relation", rtol=1e-7)
    return n > 2 and case["unit"] != 0


def test_branches(case):
    """Independent branches: every branch is an M/G/1 queue."""
    from most_queue.theory.fj_calc import get_v_fj_max, getMaxMoments
    n, c = case["n"], 10.0 ** case["unit"]
    f, _, name = family(case)
    l = case["rho"] / 128
    d = 1 - l
    w = [l * f[1] / 2 / d]
    w.append(2 * w[0] ** 2 + l * f[2] / 3 / d)
    w.append((l / d) * (f[3] / 4 + f[2] * w[0] + 1.5 * f[1] * w[1]))
    v = [w[0] + f[0], w[1] + 2 * w[0] * f[0] + f[1], w[2] + 3 * w[1] * f[0] + 3 * w[0] * f[1] + f[2]]
    cv2 = v[1] / v[0] ** 2 - 1
    if abs(cv2 - 1) < 1e-3 and case["kind"] != "M":
        raise Discard("nearly exponential sojourn")
    got = [float(x) for x in quiet(lambda: get_v_fj_max(l / c, scaled(f, c), n))]
    what = f"fork-join by independent branches, n={n}, {name} services of mean {c:g}, load {l}"
    require(len(got) == 2, f"{what}: {len(got)} moments")
    if case["kind"] == "M":
        h = sum(1 / i for i in range(1, n + 1))
        h2 = sum(1 / i ** 2 for i in range(1, n + 1)) + h * h
        require_close_seq([x / c ** (k + 1) for k, x in enumerate(got)], [h / d, h2 / d ** 2], what, rtol=1e-3)
    elif cv2 > 1.0:
        # three moments are enough for a two-phase fit, independent of the code when it exists
        p = fit2(v)
        if p is None:
            raise Discard("no two-phase law with these moments")
        y, a, b = p
        want = by_tail(lambda t: -np.expm1(n * np.log(np.maximum(-y * np.expm1(-a * t) - (1 - y) * np.expm1(-b * t), 1e-300))), 2, 1.0)
        require_close_seq([x / c ** (k + 1) for k, x in enumerate(got)], want, what, rtol=1e-3)
    else:
        r = 1 / cv2
        if abs(r - math.floor(r) - 0.5) < 0.01:
            raise Discard("between two Erlang orders")
        r = max(1, math.floor(r + 0.5))
        want = by_tail(lambda t: -np.expm1(n * np.log(np.maximum(gamma_cdf(r, r / v[0], t), 1e-300))), 2, 1.0)
        require_close_seq([x / c ** (k + 1) for k, x in enumerate(got)], want, what, rtol=1e-3)
    return n > 1


def fit2(v):
    """H2 law by its three moments, or None."""
    m1, m2, m3 = v[0], v[1] / 2, v[2] / 6
    # roots x of x^2 - s x + q with  m2 = s m1 - q, m3 = s m2 - q m1
    det = m2 - m1 * m1
    s = (m3 - m1 * m2) / det
    q = s * m1 - m2
    disc = s * s / 4 - q
    if disc <= 1e-9 or q <= 1e-9:
        return None
    x1, x2 = s / 2 + math.sqrt(disc), s / 2 - math.sqrt(disc)
    y = (m1 - x2) / (x1 - x2)
    if not 1e-6 < y < 1 - 1e-6:
        return None
    return y, 1 / x1, 1 / x2


units = st.sampled_from([0, 0, -4, -2, -1, 1, 2, 4])
law = {"kind": st.sampled_from(["E", "H", "M", "G"]), "r": st.integers(1, 30), "y": st.integers(1, 60), "a": st.integers(1, 24), "b": st.integers(1, 80),
       "alpha": st.integers(2, 120)}

SUBS = [
    Sub("max", st.fixed_dictionaries({**law, "n": st.integers(1, 10), "unit": units, "len": st.integers(2, 4), "num": st.sampled_from([None, 1, 2, 3, 4]),
                                      "ro": st.integers(1, 63)}), test_max, 300, rule="several branches, time unit not 1"),
    Sub("mixture", st.fixed_dictionaries({k: law[k] for k in ("y", "a", "b")} | {"n": st.integers(1, 8)}), test_mixture, 150, rule="several branches"),
    Sub("delta", st.fixed_dictionaries({"alpha": st.integers(4, 120), "dalpha": st.integers(2, 120), "n": st.integers(1, 6), "unit": units,
                                        "num": st.sampled_from([None, 1, 2, 3, 4]), "delta": st.integers(0, 64), "random": st.booleans(), "pass0": st.booleans()})
        .filter(lambda c: c["delta"] or not c["random"]), test_delta, 100, rule="several branches with a delay"),
    Sub("response", st.fixed_dictionaries({"n": st.integers(1, 12), "rho": st.one_of(st.integers(1, 122 * 16), st.just(1)), "mu": st.integers(1, 80),
                                           "unit": units, "r": st.integers(1, 120)}), test_response, 500, rule="more than two branches, time unit not 1"),
    Sub("branches", st.fixed_dictionaries({**law, "kind": st.sampled_from(["E", "H", "M"]), "n": st.integers(1, 10), "unit": units, "rho": st.integers(2, 112)}),
        test_branches, 150, rule="several branches"),
]

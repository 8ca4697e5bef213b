"""C02: density, distribution function, tail, residual life and gamma helpers."""
import math

import mpmath as mp
from hypothesis import strategies as st
from scipy import integrate as si
from scipy import special as sc

from ..core import Discard, Sub, require, require_close, require_close_seq

PROPERTY = "C02"
RULE = ("parameters over time units 1e-4..1e4 and arguments before, inside and after the support; compared with independently "
        "written closed forms (scipy.special / mpmath) and with each other")
ASSUMPTIONS = ["Erlang orders at most 40", "lower incomplete gamma with a negative first argument at least 0.01 away from its poles; "
               "the density of the gamma distribution is not judged at exactly t = 0"]


class Fam:
    """Reference cdf / pdf of a family with parameters derived from the case."""

    def __init__(self, case):
        from most_queue import rand_distribution as rd
        s = 10.0 ** case["unit"]
        a, b, c = case["a"] / 16, case["b"] / 16, case["c"] / 64
        self.unit = s
        fam = case["family"]
        self.fam = fam
        if fam == "U":
            mean, h = b * s, max(c, 1 / 64) * b * s
            self.lo, self.hi = mean - h, mean + h
            self.mean = mean
            self.cdf = lambda t: min(max((t - self.lo) / (2 * h), 0.0), 1.0)
            self.pdf = lambda t: 1 / (2 * h) if self.lo < t < self.hi else 0.0
            D = rd.Uniform_dist
            self.f = {"pdf": lambda t: D.get_pdf(mean, h, t), "cdf": lambda t: D.get_cdf(mean, h, t),
                      "tail": lambda t: D.get_tail(mean, h, t)}
        elif fam == "H":
            p = [c, a / s, b / s]
            self.lo, self.hi = 0.0, math.inf
            self.mean = c / p[1] + (1 - c) / p[2]
            self.cdf = lambda t: 0.0 if t < 0 else -(c * math.expm1(-p[1] * t) + (1 - c) * math.expm1(-p[2] * t))
            self.pdf = lambda t: 0.0 if t < 0 else c * p[1] * math.exp(-p[1] * t) + (1 - c) * p[2] * math.exp(-p[2] * t)
            D = rd.H2_dist
            self.f = {"pdf": lambda t: D.get_pdf(p, t), "cdf": lambda t: D.get_cdf(p, t), "tail": lambda t: D.get_tail(p, t)}
        elif fam == "Pa":
            al, k = a, b * s
            self.lo, self.hi = k, math.inf
            self.mean = 2 * k
            self.cdf = lambda t: 0.0 if t <= k else -math.expm1(al * math.log(k / t))
            self.pdf = lambda t: 0.0 if t < k else al / t * math.exp(al * math.log(k / t))
            D = rd.Pareto_dist
            self.f = {"pdf": lambda t: D.get_pdf(t, al, k), "cdf": lambda t: D.get_cdf((al, k), t),
                      "tail": lambda t: D.get_tail((al, k), t)}
        elif fam == "E":
            r, mu = case["a"] % 40 + 1, b / s
            self.lo, self.hi = 0.0, math.inf
            self.mean = r / mu
            self.cdf = lambda t: 0.0 if t <= 0 else float(sc.gammainc(r, mu * t))
            self.pdf = None
            D = rd.Erlang_dist
            self.f = {"cdf": lambda t: D.get_cdf((r, mu), t), "tail": lambda t: D.get_tail((r, mu), t)}
        else:
            mu, al = b / s, a * (4 if case["c"] > 48 else 1)
            self.lo, self.hi = 0.0, math.inf
            self.mean = al / mu
            self.cdf = lambda t: 0.0 if t <= 0 else float(sc.gammainc(al, mu * t))
            self.pdf = lambda t: 0.0 if t <= 0 else mu * math.exp((al - 1) * math.log(mu * t) - mu * t - math.lgamma(al))
            D = rd.Gamma
            self.f = {"pdf": lambda t: (D.get_pdf if case["c"] % 2 else D.get_f)(mu, al, t), "cdf": lambda t: D.get_cdf(mu, al, t)}
            self.par = (mu, al)


def test_dist(case):
    F = Fam(case)
    ts = sorted([F.mean * x / 32 for x in case["t"]] + [F.lo, -F.mean / 3] + ([F.hi, 1.5 * F.hi] if F.hi < math.inf else []))
    prev = -1.0
    inside = 0
    for t in ts:
        edge = abs(t - F.lo) <= 1e-9 * F.mean or abs(t - F.hi) <= 1e-9 * F.mean
        want = F.cdf(t)
        got = F.f["cdf"](t)
        require_close(got, want, f"{F.fam} cdf at t/mean={t / F.mean:g}", rtol=1e-8, atol=1e-11 if not edge else 1e-6)
        require(got >= prev - 1e-10, f"{F.fam} cdf falls to {got} at t/mean={t / F.mean:g} after {prev}")
        require(-1e-10 <= got <= 1 + 1e-10, f"{F.fam} cdf is {got}")
        prev = got
        if "tail" in F.f:
            require_close(F.f["tail"](t), 1 - want, f"{F.fam} tail at t/mean={t / F.mean:g}", rtol=1e-8, atol=1e-11 if not edge else 1e-6)
        if "pdf" in F.f and not edge:
            require_close(F.f["pdf"](t) * F.unit, F.pdf(t) * F.unit, f"{F.fam} density at t/mean={t / F.mean:g} (unit scaled)",
                          rtol=1e-7, atol=1e-9)
        if 1e-6 < want < 1 - 1e-6:
            inside += 1
    return inside >= 2


def test_reported(case):
    """The moments a family reports are those of its distribution function (integrals of k t^(k-1) times the tail)."""
    from most_queue import rand_distribution as rd
    F = Fam(case)
    s, n = F.unit, case["num"]
    a, b, c = case["a"] / 16, case["b"] / 16, case["c"] / 64
    fn = rd.Uniform_dist.calc_theory_moments
    if F.fam == "U":
        got, exist = fn(F.mean, (F.hi - F.lo) / 2, n), n
    elif F.fam == "H":
        got, exist = rd.H2_dist.calc_theory_moments(c, a / s, b / s, n), n
    elif F.fam == "E":
        got, exist = rd.Erlang_dist.calc_theory_moments(case["a"] % 40 + 1, b / s, n), n
    elif F.fam == "Gamma":
        got, exist = rd.Gamma.calc_theory_moments(*F.par, n), n
    else:
        got, exist = rd.Pareto_dist.calc_theory_moments(a, b * s, n), sum(a > k for k in range(1, n + 1))
    require(len(got) == exist, f"{F.fam}: {exist} of the first {n} moments exist, {len(got)} reported ({case})")
    for k in range(1, exist + 1):
        if F.fam == "Pa":                   # t = K / u: the tail is u^a, known exactly, the integral is algebraic
            want = F.lo ** k * (1 + k / (a - k))
        else:
            # substitution t = mean * x / (1 - x); the tail from the functions under judgement
            def g(x):
                t = F.mean * x / (1 - x)
                return k * (t / F.mean) ** (k - 1) * max(1 - F.f["cdf"](t), 0.0) / (1 - x) ** 2 if x < 1 else 0.0
            pts = [0, 0.02, 0.1, 0.25, 0.5, 0.7, 0.85, 0.93, 0.97, 0.985] if F.fam != "U" else [0, F.lo / (F.lo + F.mean), F.hi / (F.hi + F.mean)]
            want = sum(float(si.fixed_quad(lambda z: [g(x) for x in z], p, q, n=24)[0]) for p, q in zip(pts, pts[1:])) * F.mean ** k
            cut = F.mean * pts[-1] / (1 - pts[-1])
            if F.fam != "U" and 1 - F.cdf(cut) > 1e-12:
                raise Discard("tail beyond the range of the quadrature")
        require_close(float(got[k - 1]), want, f"{F.fam}: moment {k} against the distribution function ({case})", rtol=1e-3 if F.fam != "Pa" else 1e-9)
    return exist > 1


def test_poly(case):
    """Corrected gamma density = base density times the polynomial; its moments are the fitted ones (quadrature)."""
    from most_queue.rand_distribution import Gamma
    from .c10 import mixture_moments
    f = mixture_moments([(w, r, mean / 8) for w, r, mean in case["phases"]], case["num"])
    cv = math.sqrt(f[1] - f[0] ** 2) / f[0]
    if not 0.4 < cv < 2.0:
        raise Discard("far shape")
    mu, al, g = Gamma.get_params(list(f))
    for x in case["t"]:
        t = f[0] * x / 32
        if t == 0:
            continue
        base = mu * math.exp((al - 1) * math.log(mu * t) - mu * t - math.lgamma(al)) if t > 0 else 0.0
        terms = [g[j] * t ** j for j in range(len(g))]
        require_close(Gamma.get_f_corrective(mu, al, g, t), base * sum(terms), f"corrected gamma density at t/mean={x / 32}",
                      rtol=1e-7, atol=1e-10 / f[0] + 1e-9 * base * max(map(abs, terms)))
    return True


def test_pls(case):
    from most_queue.rand_distribution import Gamma
    s = 10.0 ** case["unit"]
    mu, al, x = case["a"] / 16 / s, case["b"] / 16, case["s"] / 16 / s
    got = Gamma.get_pls(mu, al, x)
    require_close(got, float(mp.exp(-mp.mpf(al) * mp.log1p(mp.mpf(x) / mp.mpf(mu)))), "gamma transform", rtol=1e-9, atol=0)
    if case["b"] % 8 == 0:
        q = mp.quad(lambda t: mp.exp(-x * t) * mu * (mu * t) ** (al - 1) * mp.exp(-mu * t) / mp.gamma(al),
                    [0, 0.5 * al / (mu + x), 2 * al / (mu + x), (al + 40) / (mu + x) * 1.2, mp.inf]) if al >= 1 else got
        require_close(got, float(q), "gamma transform against quadrature of the density", rtol=1e-5)
    return x > 0


def test_gamma_fn(case):
    from most_queue.rand_distribution import Gamma
    x = case["x"] / 64
    z = 10.0 ** (case["z"] / 16)
    what = case["what"]
    if what in ("gamma", "minus"):
        if x <= 0 and abs(x - round(x)) < 0.01:
            raise Discard("pole")
        if what == "gamma":
            got, want = Gamma.get_gamma(x), float(mp.gamma(x))
        else:
            if x <= 0 or abs(x - round(x)) < 0.01:
                raise Discard("get_minus_gamma is for positive arguments")
            got, want = Gamma.get_minus_gamma(x), float(mp.gamma(-mp.mpf(x)))
        require_close(got, want, f"{what}({x})", rtol=1e-9, atol=0)
        return abs(x - 1.5) > 0.5
    if what == "upper" and case["x"] % 5 == 0:               # at and very near the integers
        x = round(x) + (0, 0, 1e-15, -1e-12, 1e-9, -1e-6, 1e-4)[case["x"] // 5 % 7]
    up = mp.gammainc(x, z)
    if what == "small":
        if x <= 0 and abs(x - round(x)) < 0.01:
            raise Discard("pole")
        lo = mp.gammainc(x, 0, z) if x > 0 else mp.gamma(x) - up
        require_close(Gamma.get_gamma_small(x, z), float(lo), f"lower incomplete gamma({x}, {z:g})", rtol=1e-8, atol=0)
    else:
        require_close(Gamma.get_gamma_incomplete(x, z), float(up), f"upper incomplete gamma({x}, {z:g})", rtol=1e-6, atol=0)
    return z > 0.1


def test_residual(case):
    """Equilibrium (residual) parameters of H2 and residual moments."""
    from most_queue.rand_distribution import H2_dist
    from most_queue.theory.utils.flow_sum import SummatorNumeric as S
    s = 10.0 ** case["unit"]
    y, m1, m2 = case["c"] / 64, case["a"] / 16 / s, case["b"] / 16 / s
    ph = H2_dist.get_residual_params([y, m1, m2])
    f = [math.factorial(k) * (y / m1 ** k + (1 - y) / m2 ** k) for k in range(1, 6)]
    got = [math.factorial(k) * (ph[0] / ph[1] ** k + (1 - ph[0]) / ph[2] ** k) for k in range(1, 5)]
    want = [f[k] / ((k + 1) * f[0]) for k in range(1, 5)]
    require_close_seq(got, want, "moments of the H2 residual life", rtol=1e-9, atol=0)
    require_close_seq(S.get_residual_distr_moments(list(f)), want, "residual moments", rtol=1e-9, atol=0)
    mean = f[0]
    for x in (0.1, 1.0, 3.0):
        t = x * mean
        dens = (y * math.exp(-m1 * t) + (1 - y) * math.exp(-m2 * t)) / mean
        require_close(H2_dist.get_pdf(ph, t) * s, dens * s, "density of the residual life", rtol=1e-8, atol=1e-12)
    return 0 < y < 1 and m1 != m2


units = st.integers(-4, 4)
phase = st.tuples(st.integers(1, 9), st.integers(1, 5), st.integers(1, 60))
args = st.lists(st.one_of(st.integers(0, 150), st.integers(-40, 4000)), min_size=3, max_size=8)
SUBS = [
    Sub("dist", st.fixed_dictionaries({"family": st.sampled_from(["U", "H", "Pa", "E", "Gamma"]), "unit": units, "a": st.integers(1, 160),
                                       "b": st.integers(1, 160), "c": st.integers(0, 64), "t": args}), test_dist,
        quick=6000, thorough=200000, rule="non-trivial = two arguments strictly inside the support"),
    Sub("reported", st.fixed_dictionaries({"family": st.sampled_from(["U", "H", "Pa", "E", "Gamma"]), "unit": units, "a": st.integers(1, 160),
                                           "b": st.integers(1, 160), "c": st.integers(0, 64), "num": st.integers(1, 5)}), test_reported,
        quick=600, thorough=20000, rule="non-trivial = two or more moments exist"),
    Sub("poly", st.fixed_dictionaries({"phases": st.lists(phase, min_size=1, max_size=3), "num": st.integers(3, 4), "t": args}), test_poly,
        quick=800, thorough=20000, rule="always"),
    Sub("pls", st.fixed_dictionaries({"unit": units, "a": st.integers(1, 160), "b": st.integers(1, 160), "s": st.integers(0, 400)}), test_pls,
        quick=600, thorough=10000, rule="non-trivial = positive argument of the transform"),
    Sub("gamma_fn", st.fixed_dictionaries({"what": st.sampled_from(["gamma", "minus", "small", "upper"]), "x": st.integers(-500, 1300),
                                           "z": st.integers(-48, 38)}), test_gamma_fn, quick=3000, thorough=60000,
        rule="non-trivial = outside the interval of the rational approximation / not tiny second argument"),
    Sub("residual", st.fixed_dictionaries({"unit": units, "a": st.integers(1, 160), "b": st.integers(1, 160), "c": st.integers(0, 64)}), test_residual,
        quick=800, thorough=20000, rule="non-trivial = two different phases, both used"),
]

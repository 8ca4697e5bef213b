"""C01: distribution fits reproduce the requested moments; reported moments are the true ones."""
import math

from hypothesis import strategies as st

from ..core import Discard, Sub, require, require_close, require_close_seq
from .c10 import h2_roots, mixture_moments

PROPERTY = "C01"
RULE = ("moments are taken from random mixtures of Erlang phases (so always feasible) or from a mean and coefficient of variation, "
        "over time units 1e-6..1e6; the fitted parameters are put into independently written moment formulas")
ASSUMPTIONS = ["within 0.003 of the coefficients of variation 1 and 0.7071 the complex H2 and the Cox fit deliberately perturb the "
               "moments along the imaginary axis: there only the real parts are compared (5 %)",
               "moment sets whose exact fit is degenerate (coinciding or infinite phases) are discarded",
               "Erlang orders are at most 60, gamma polynomial fits at most 4 moments"]


def unit(e):
    return 10.0 ** e


def scaled(f, c):
    return [x * c ** (i + 1) for i, x in enumerate(f)]


def h2_moments(p, num):
    y, m1, m2 = p
    return [math.factorial(k) * (y / m1 ** k + (1 - y) / m2 ** k) for k in range(1, num + 1)]


def cox_moments(p, num=3):
    """C2: phase 1 always, phase 2 with probability y (moments of the sum through convolution)."""
    y, m1, m2 = p
    out = []
    for k in range(1, num + 1):
        e1 = math.factorial(k) / m1 ** k
        s = sum(math.comb(k, j) * (math.factorial(j) / m1 ** j) * (math.factorial(k - j) / m2 ** (k - j))
                for j in range(k + 1))
        out.append((1 - y) * e1 + y * s)
    return out


def gamma_moments(mu, al, num):
    return [math.exp(math.lgamma(al + k) - math.lgamma(al)) / mu ** k for k in range(1, num + 1)]


def mc(mean, cv):
    """First three moments with the third of the gamma distribution."""
    a = 1 / cv ** 2
    return [mean, mean ** 2 * (1 + cv ** 2), mean ** 3 * (1 + cv ** 2) * (1 + 2 * cv ** 2)] if a else None


def rel(p, f, what, rtol):
    for i, (g, w) in enumerate(zip(p, f)):
        require_close(g, w, f"{what}: moment {i + 1} of the fitted parameters", rtol=rtol, atol=0)


def test_h2_real(case):
    from most_queue.rand_distribution import H2_dist
    m = unit(case["unit"])
    cv = 1 + case["cv"] / 16
    m2 = 1 + cv ** 2
    bound = 1.5 * m2 ** 2
    factor = case["t"] / 32
    f = scaled([1.0, m2, bound * factor], m)
    keep = list(f)
    if case["via"] == "coev":
        p = H2_dist.get_params_by_mean_and_coev(m, cv)
        f = mc(m, cv)
        rel(h2_moments(p, 3), f, "H2 by mean and cv", 1e-6)
    else:
        if cv == 1:
            f[2] = keep[2] = 6 * m ** 3
        elif cv < 1.003 and factor > 1:
            raise Discard("next to exponential")
        p = H2_dist.get_params(f)
        require(f == keep, "argument changed")
        if factor >= 1 or cv == 1:
            rel(h2_moments(p, 3), f, "H2", 1e-6)
        else:
            rel(h2_moments(p, 2), f[:2], "H2 below the third-moment bound", 1e-3)
    require(len(p) == 3 and -1e-12 <= p[0] <= 1 + 1e-12 and p[1] > 0 and p[2] > 0, f"parameters {p} are no H2 distribution")
    return cv > 1 and (factor > 1 or case["via"] == "coev")


def cvof(f):
    return math.sqrt(max(f[1] - f[0] ** 2, 0)) / f[0]


def near_special(f, w=0.003):
    c = cvof(f)
    return abs(c - 1) < w or abs(c - 1 / math.sqrt(2)) < w


def perturbed(got, f, what):
    """Where the phases coincide the fit may add an imaginary part of some percent to the moments, but not to the mean."""
    for k in range(3):
        require_close(got[k].real, f[k], f"{what} in the perturbed region: real part of moment {k + 1}", rtol=1e-6 if k == 0 else 1e-3, atol=0)
        require(abs(got[k].imag) <= (1e-6 if k == 0 else 0.05 * k) * f[k], f"{what} in the perturbed region: imaginary part {got[k].imag} of moment {k + 1} ({f[k]})")


def phases(case):
    return scaled(mixture_moments([(w, r, mean / 8) for w, r, mean in case["phases"]], 3), unit(case["unit"]))


def test_h2_clx(case):
    from most_queue.rand_distribution import H2_dist
    via = case["via"]
    if via == "coev":
        c = case["cv"] / 20
        f = mc(unit(case["unit"]), c)
        p = H2_dist.get_params_by_mean_and_coev(f[0], c, is_clx=True)
    else:
        f = phases(case)
        g = [x for x in scaled(f, 1 / f[0])]
        if not near_special(f):
            h2_roots(g)
            if abs(g[0] * g[2] / 6 - g[1] ** 2 / 4) < 1e-4:
                raise Discard("infinite phase")
        p = H2_dist.get_params_clx(list(f), verbose=False)
    if near_special(f):
        got = [complex(x) for x in h2_moments(p, 3)]
        perturbed(got, f, "complex H2")
        return False
    rel(h2_moments(p, 3), f, "complex H2", 1e-6)
    return True


def test_cox(case):
    from most_queue.rand_distribution import Cox_dist
    if case["via"] == "coev":
        c = case["cv"] / 20
        f = mc(unit(case["unit"]), c)
        g = scaled(f, 1 / f[0])
    else:
        f = phases(case)
        g = scaled(f, 1 / f[0])
    if not near_special(f):
        h = [g[0], g[1] / 2, g[2] / 6]
        if abs(h[1] ** 2 - h[0] * h[2]) < 1e-4 * h[1] ** 2:
            raise Discard("infinite phase")
    if case["via"] == "coev":
        p = Cox_dist.get_params_by_mean_and_coev(f[0], c)
    else:
        p = Cox_dist.get_params(list(f), verbose=False)
    if near_special(f):
        got = [complex(x) for x in cox_moments(p)]
        perturbed(got, f, "Cox")
        return False
    if min(abs(complex(x)) for x in p[1:]) * f[0] < 1e-3 or max(abs(complex(x)) for x in p) > 1e4 * max(1, 1 / f[0]):
        raise Discard("ill-conditioned fit")
    rel(cox_moments(p), f, "Cox", 1e-6)
    rel(Cox_dist.calc_theory_moments(*p), cox_moments(p), "Cox calc_theory_moments", 1e-9)
    return True


def test_two(case):
    """Families with two parameters, from moments and from mean and cv."""
    from most_queue import rand_distribution as rd
    fam = case["family"]
    m = unit(case["unit"]) * case["mant"] / 8
    cv = case["cv"] / 32
    if fam == "E":
        r = case["cv"] % 60 + 1
        cv = 1 / math.sqrt(r)
    elif fam == "U":
        cv = min(cv, 1.0)
    f = [m, m * m * (1 + cv * cv)]
    if case["via"] == "coev" and fam != "M":
        p = {"E": rd.Erlang_dist.get_params_by_mean_and_coev, "Gamma": rd.Gamma.get_mu_alpha_by_mean_and_coev,
             "Pa": rd.Pareto_dist.get_a_k_by_mean_and_coev, "U": rd.Uniform_dist.get_params_by_mean_and_coev}[fam](m, cv)
    else:
        p = {"E": rd.Erlang_dist.get_params, "Gamma": rd.Gamma.get_mu_alpha if case["via"] == "coev" else rd.Gamma.get_params,
             "Pa": rd.Pareto_dist.get_params, "U": rd.Uniform_dist.get_params, "M": rd.Exp_dist.get_params}[fam](list(f))
    if fam == "E":
        require(p[0] == r, f"Erlang order {p[0]} fitted to cv^2 = 1/{r}")
        got = gamma_moments(p[1], p[0], 2)
    elif fam == "Gamma":
        got = gamma_moments(p[0], p[1], 2)
    elif fam == "Pa":
        require(p[0] > 2 and p[1] > 0, f"Pareto parameters {p}")
        got = [p[0] * p[1] / (p[0] - 1), p[0] * p[1] ** 2 / (p[0] - 2)]
    elif fam == "U":
        got = [p[0], p[0] ** 2 + p[1] ** 2 / 3]
    else:
        got = [1 / p]
        require_close(got[0], m, "exponential fit: mean", rtol=1e-9, atol=0)
        return cv != 1
    rel(got, f, {"E": "Erlang", "Gamma": "gamma", "Pa": "Pareto", "U": "uniform"}[fam], 1e-6 if cv > 0.05 else 1e-4)
    return True


def test_erlang_mean(case):
    """Any moments: the Erlang order is the nearest one, and the mean is exact."""
    from most_queue.rand_distribution import Erlang_dist
    m = unit(case["unit"])
    cv = case["cv"] / 100
    r, mu = Erlang_dist.get_params_by_mean_and_coev(m, cv)
    require(isinstance(r, int) and r >= 1, f"Erlang order {r!r}")
    require_close(r / mu, m, "Erlang fit: mean", rtol=1e-9, atol=0)
    require(abs(r - 1 / cv ** 2) <= 0.5 + 1e-6 / cv ** 2, f"Erlang order {r} fitted to cv {cv}")
    return True


def test_gamma_poly(case):
    from most_queue.rand_distribution import Gamma
    f = scaled(mixture_moments([(w, r, mean / 8) for w, r, mean in case["phases"]], case["num"]), unit(case["unit"] / 2))
    cv = cvof(f)
    if not 0.3 < cv < 2.5:
        raise Discard("far shape")
    p = Gamma.get_params(list(f))
    require(len(p) == 3 and len(p[2]) == len(f) + 1, f"parameters {p!r}")
    mu, al, g = p
    rel(gamma_moments(mu, al, 2), f[:2], "gamma with polynomial: base", 1e-8)
    base = [1.0] + gamma_moments(mu, al, 2 * len(f) + 1)
    for i, want in enumerate([1.0] + f):
        terms = [g[j] * base[i + j] for j in range(len(g))]
        require_close(sum(terms), want, f"moment {i} of the gamma density with the polynomial",
                      rtol=1e-6, atol=1e-9 * max(map(abs, terms)))
    return case["num"] > 3 or abs(cv - 1) > 0.1


def test_theory(case):
    from most_queue import rand_distribution as rd
    fam = case["family"]
    s = unit(case["unit"])
    a, b, c = case["a"] / 16, case["b"] / 16, case["c"] / 64
    n = case["num"]
    if fam == "H":
        got = rd.H2_dist.calc_theory_moments(c, a / s, b / s, n)
        want = h2_moments((c, a / s, b / s), n)
        if n == 3:
            require(list(rd.H2_dist.calc_theory_moments(c, a / s, b / s)) == list(got), "default number of moments is not 3")
    elif fam == "C":
        got = rd.Cox_dist.calc_theory_moments(c, a / s, b / s)
        n = 3
        want = cox_moments((c, a / s, b / s))
    elif fam == "E":
        r = case["a"] % 9 + 1
        got = rd.Erlang_dist.calc_theory_moments(r, b / s, n)
        want = gamma_moments(b / s, r, n)
    elif fam == "M":
        got = rd.Exp_dist.calc_theory_moments(b / s, n)
        want = gamma_moments(b / s, 1, n)
    elif fam == "Gamma":
        got = rd.Gamma.calc_theory_moments(b / s, a, n)
        want = gamma_moments(b / s, a, n)
    elif fam == "Pa":
        al = 1 + a
        got = rd.Pareto_dist.calc_theory_moments(al, b * s, n)
        want = [al * (b * s) ** k / (al - k) for k in range(1, n + 1) if al > k]
        require(len(got) == len(want), f"Pareto(a={al}) has {len(want)} of the first {n} moments, got {len(got)}")
        n = len(want)
    else:
        h = b * s * max(c, 1 / 64)
        mean = b * s
        got = rd.Uniform_dist.calc_theory_moments(mean, h, n)
        want = [sum(math.comb(k, 2 * j) * mean ** (k - 2 * j) * h ** (2 * j) / (2 * j + 1) for j in range(k // 2 + 1))
                for k in range(1, n + 1)]
    require(len(got) == n, f"{fam}: asked for {n} moments, got {len(got)}")
    rel(got, want, fam + " calc_theory_moments", 1e-9)
    return n > 3 or fam == "C"


units = st.integers(-6, 6)
phase = st.tuples(st.integers(1, 9), st.integers(1, 6), st.integers(1, 60))
mix = st.lists(phase, min_size=1, max_size=3)
SUBS = [
    Sub("h2_real", st.fixed_dictionaries({"unit": units, "cv": st.integers(0, 100), "t": st.one_of(st.integers(16, 64), st.integers(64, 3000)),
                                          "via": st.sampled_from(["m", "m", "coev"])}), test_h2_real, quick=3000, thorough=100000,
        rule="non-trivial = cv above 1 and a third moment that is not on the bound"),
    Sub("h2_clx", st.fixed_dictionaries({"unit": units, "phases": mix, "cv": st.integers(4, 80), "via": st.sampled_from(["m", "m", "coev"])}),
        test_h2_clx, quick=3000, thorough=100000, rule="non-trivial = outside the perturbed neighbourhood"),
    Sub("cox", st.fixed_dictionaries({"unit": units, "phases": mix, "cv": st.integers(4, 80), "via": st.sampled_from(["m", "m", "coev"])}),
        test_cox, quick=3000, thorough=100000, rule="non-trivial = outside the perturbed neighbourhood"),
    Sub("two", st.fixed_dictionaries({"family": st.sampled_from(["E", "Gamma", "Pa", "U", "M"]), "unit": units, "mant": st.integers(1, 64),
                                      "cv": st.integers(2, 160), "via": st.sampled_from(["m", "coev"])}), test_two,
        quick=3000, thorough=60000, rule="non-trivial = not the exponential with cv 1"),
    Sub("erlang_mean", st.fixed_dictionaries({"unit": units, "cv": st.integers(12, 141)}), test_erlang_mean, quick=600, thorough=8000, rule="always"),
    Sub("gamma_poly", st.fixed_dictionaries({"unit": st.integers(-4, 4), "phases": mix, "num": st.integers(3, 4)}), test_gamma_poly,
        quick=1200, thorough=30000, rule="non-trivial = four moments or cv away from 1"),
    Sub("theory", st.fixed_dictionaries({"family": st.sampled_from(["H", "C", "E", "M", "Gamma", "Pa", "U"]), "unit": units, "a": st.integers(1, 100),
                                         "b": st.integers(1, 100), "c": st.integers(0, 64), "num": st.integers(1, 7)}), test_theory,
        quick=3000, thorough=60000, rule="non-trivial = more than three moments, or Cox"),
]

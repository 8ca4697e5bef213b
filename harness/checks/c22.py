"""C22: numerical helpers."""
import contextlib
import io
import math
import os
import re
import subprocess
import sys
import tempfile
from fractions import Fraction as Q

import numpy as np
from hypothesis import strategies as st
from scipy import special, stats

from ..core import REPO, Discard, Sub, require, require_close, require_close_seq
from .c01 import scaled
from .c10 import mixture_moments
from .c11 import counts

PROPERTY = "C22"
RULE = ("moment convolution by rational arithmetic and as an inverse of deconvolution, up to 12-fold sums; finite differences on polynomials of the "
        "order they must be exact for; binomial laws, arrival counts over 1e-3..60 expected arrivals by quadrature; Student quantiles for all sample "
        "sizes; Weibull fits for cv 0.05..12 back through closed-form moments; printed tables parsed back; every module imported alone in a fresh interpreter")
ASSUMPTIONS = ["the Student table is one of finite resolution: within 2.7 % of the exact quantile",
               "tables carry 3 to 5 significant digits, as printed"]


KNOWN = "most_queue.theory.utils.weibull"


def rnd(xs):
    """Random moments as rationals of a mixture: exact."""
    tot = sum(w for w, _, _ in xs)
    out = []
    for k in range(1, 6):
        s = Q(0)
        for w, r, mean in xs:
            m = Q(1)
            for j in range(k):
                m *= Q(r + j) * Q(mean, 8 * r)
            s += Q(w, tot) * m
        out.append(s)
    return out


def conv_exact(a, b, num):
    a, b = [Q(1)] + a, [Q(1)] + b
    return [sum(math.comb(k, j) * a[j] * b[k - j] for j in range(k + 1)) for k in range(1, num + 1)]


def test_conv(case):
    from most_queue.general_utils.conv import get_moments, get_moments_minus, get_self_conv_moments
    a, b = rnd(case["a"]), rnd(case["b"])
    num, c = case["num"], 10.0 ** case["unit"]
    k = min(num, 3)
    kw = {} if case["default"] else {"num": num}
    if case["default"]:
        k = 3
    fa, fb = scaled([float(x) for x in a], c), scaled([float(x) for x in b], c)
    if case["short"]:
        fa, fb = fa[:k], fb[:k]
    keep = (list(fa), list(fb))
    got = get_moments(fa, fb, **kw)
    want = conv_exact(a, b, 3)[:k]
    require_close_seq([x / c ** (i + 1) for i, x in enumerate(got)], [float(x) for x in want], f"moments of a sum, num={num}", rtol=1e-10)
    back = get_moments_minus(got, fb, **kw)
    scale = [max(float(w), float(x)) for w, x in zip(want, a)]
    for i in range(k):
        require_close(back[i] / c ** (i + 1), float(a[i]), f"deconvolution undoes convolution, moment {i + 1}", rtol=1e-9, atol=1e-11 * scale[i])
    n = case["times"]
    s = [Q(0)] * 3
    for _ in range(n):
        s = conv_exact(s, a, 3)
    rep = get_self_conv_moments(fa, n, **kw)
    require(len(rep) == k, f"{len(rep)} moments of the {n}-fold sum")
    require_close_seq([x / c ** (i + 1) for i, x in enumerate(rep)], [float(x) for x in s[:k]], f"{n}-fold sum", rtol=1e-10)
    require((fa, fb) == keep, "the lists of moments given by the caller were changed")
    return k == 3 and n > 1


def test_diff(case):
    """Exact for polynomials as far as the number of points allows."""
    from most_queue.theory.utils.diff5dots import diff5dots
    n = case["points"]
    h = case["h"] / 16 * 10.0 ** case["unit"]
    if not 3 <= n <= 5:
        require(list(diff5dots([float(x) for x in case["poly"][:n]], h)) == [0, 0, 0], f"{n} points: no estimate is possible")
        return False
    p = case["poly"][:n]                                        # degree n - 1
    u = 10.0 ** case["unit"]
    f = [sum(c * (i * case["h"] / 16) ** j for j, c in enumerate(p)) for i in range(n)]
    got = diff5dots(f, h)
    size = max(abs(x) for x in f) + 1
    for k in range(1, 4):
        want = math.factorial(k) * p[k] if k < n else 0
        require_close(got[k - 1] * u ** k, want, f"derivative {k} of {p} (rising powers) from {n} points, step {h:g}", rtol=1e-9,
                      atol=1e-13 * size * (16 / case["h"]) ** k * 50)
    return any(p[2:])


def test_binom(case):
    from most_queue.theory.utils.binom_probs import calc_binom_probs
    n, p = case["n"], case["p"] / 64
    got = calc_binom_probs(n, p)
    require(len(got) == n, f"{len(got)} probabilities")
    for i in range(n):
        require_close(got[i], float(math.comb(n - 1, i) * Q(case["p"], 64) ** (n - 1 - i) * Q(64 - case["p"], 64) ** i),
                      f"{n - 1 - i} of {n - 1} with probability {p}", rtol=1e-10)
    require_close(sum(got), 1.0, "sum", rtol=1e-10)
    return n > 2 and 0 < p < 1


def test_arrivals(case):
    from most_queue.theory.utils import q_poisson_arrival_calc as m
    kind, num = case["kind"], case["num"]
    a = case["a"] / 64 * case["big"]                    # expected arrivals per service
    cv = case["cv"] / 32
    c = 10.0 ** case["unit"]
    kw = {} if case["default"] else {"num": num}
    if kind == "Uniform":
        cv = min(cv, 0.577)
        got = m.get_q_uniform(a / c, c, c * cv * math.sqrt(3), **kw)
    elif kind == "Gamma":
        al = 1 / cv ** 2
        got = m.get_q_Gamma(a / c, al / c, al, **kw)
    else:
        cv = max(cv, 0.12)
        al = 1 + math.sqrt(1 + 1 / cv ** 2)
        if case["cv"] % 4 == 0:
            al = max(3.0, float(round(al)))
            cv = 1 / math.sqrt(al * (al - 2))
        num = min(num, 25)
        kw = {"num": num}
        got = m.get_q_Pareto(a / c, al, (al - 1) / al * c, **kw)
    n = len(got)
    require(n == kw.get("num", 100), f"{n} probabilities, asked for {kw}")
    q, qb = counts(kind, a, 1.0, cv, n)
    for j in range(n):
        require_close(got[j], float(q[j]), f"{kind} service, {a} arrivals expected, cv {cv}: P({j} arrivals)", rtol=1e-6 if kind == "Gamma" else 1e-3,
                      atol=1e-9)
    require_close(sum(got), 1 - float(qb[-1]), f"{kind} service, {a} arrivals expected, cv {cv}: distribution function at {n - 1}", rtol=0, atol=1e-6)
    return n > 3 and a > 0.1


def test_student(case):
    from most_queue.theory.utils.student_stat import get_conf_intervals, get_ty
    n, g = case["n"], case["gamma"]
    got = get_ty(g, n)
    require_close(got, stats.t.ppf((1 + g) / 2, n - 1), f"Student quantile for {n} samples, {g}", rtol=0.027 if n >= 20 else 0.004)
    require(get_ty(g, n + 1) <= got, f"quantile grows from {n} to {n + 1} samples")
    for o in (0.95, 0.99, 0.999):
        require((get_ty(o, n) > got) == (o > g), f"order in the confidence level {o}, {g}, {n} samples")
    mean, std = case["mean"] / 8, case["std"] / 8
    lo, hi = get_conf_intervals(g, n, mean, std)
    h = got * std / math.sqrt(n)
    require_close(lo, mean - h, "lower confidence limit", rtol=1e-12, atol=1e-12)
    require_close(hi, mean + h, "upper confidence limit", rtol=1e-12, atol=1e-12)
    return n >= 20


def weibull():
    """The module imports rand_distribution by its bare name (known finding of sub imports)."""
    import most_queue.rand_distribution as rd
    sys.modules.setdefault("rand_distribution", rd)
    from most_queue.theory.utils.weibull import Weibull
    return Weibull


def modules():
    """All modules of the library (scripts, tests and the module of the known finding apart)."""
    out = []
    for folder, _, files in os.walk(os.path.join(REPO, "most_queue")):
        for f in files:
            name = os.path.relpath(os.path.join(folder, f), REPO)[:-3].replace(os.sep, ".")
            if f.endswith(".py") and f != "__init__.py" and not any(x in name.split(".") for x in ("tests", "misc", "tutorials")):
                out.append(name)
    return sorted(set(out) - {KNOWN})


def test_imports(case):
    """Every module can be imported by its full name in a fresh interpreter that knows only where the package is."""
    with tempfile.TemporaryDirectory(prefix="verif_") as tmp:
        env = {"PATH": os.environ.get("PATH", ""), "PYTHONPATH": REPO, "MPLBACKEND": "Agg", "HOME": tmp, "PYTHONDONTWRITEBYTECODE": "1",
               "OMP_NUM_THREADS": "1", "MPLCONFIGDIR": tmp}
        r = subprocess.run([sys.executable, "-W", "ignore", "-c", f"import {case['module']}"], cwd=tmp, env=env, capture_output=True, text=True, timeout=300)
    if "TkAgg" in r.stderr:
        raise Discard("needs a display")
    require(r.returncode == 0, f"import {case['module']}: {r.stderr.strip().splitlines()[-1:]}")
    return True


def test_weibull(case):
    Weibull = weibull()
    c, cv = 10.0 ** case["unit"], case["cv"] / 32
    m = case["mean"] / 8 * c
    t = [m, m * m * (1 + cv * cv)]
    if case["via"]:
        k, T = Weibull.get_params_by_mean_and_coev(m, cv)
    else:
        k, T = Weibull.get_params(list(t))
    what = f"Weibull with mean {m:g}, cv {cv}: k={k}, T={T:g}"
    x = T ** (1 / k)
    require_close(x * special.gamma(1 + 1 / k), m, f"{what}: mean", rtol=1e-6)
    require_close(x * x * special.gamma(1 + 2 / k), t[1], f"{what}: second moment", rtol=1e-5)
    xs = [m * y / 16 for y in case["at"]]
    tail, cdf = Weibull.get_tail([k, T], xs), Weibull.get_cdf([k, T], xs)
    for y, a, b in zip(xs, tail, cdf):
        require_close(a, math.exp(-(y / x) ** k), f"{what}: tail at {y:g}", rtol=1e-9, atol=1e-300)
        require_close(a + b, 1.0, f"{what}: tail + distribution function at {y:g}", rtol=1e-12)
        require_close(Weibull.get_tail_one_value([k, T], y), a, f"{what}: single value at {y:g}", rtol=1e-15)
    return cv != 1


def test_weibull_poly(case):
    """Corrected tail: the integrals of k x^(k-1) tail(x) are the moments given."""
    Weibull = weibull()
    t = mixture_moments([(w, r, mean / 8) for w, r, mean in case["phases"]], 3)
    t = scaled(t, 1 / t[0])
    cv2 = t[1] - 1
    if not 0.04 < cv2 < 9:
        raise Discard("extreme variation")
    p = Weibull.get_params(list(t), 5)
    require(len(p) == 5, f"{len(p)} parameters")
    k, T = p[:2]
    # substitution y = x^k / T, Gauss-Laguerre is exact enough only through the gamma function
    for i in range(1, 4):
        got = sum(i / k * g * T ** ((i + j) / k) * special.gamma((i + j) / k) for j, g in enumerate(p[2:]))
        size = sum(abs(i / k * g * T ** ((i + j) / k) * special.gamma((i + j) / k)) for j, g in enumerate(p[2:]))
        require_close(got, t[i - 1], f"moment {i} of the corrected Weibull tail for {t}", rtol=1e-6, atol=1e-7 * size)
    x = case["x"] / 8
    require_close(Weibull.get_tail(p, [x])[0], sum(g * x ** j for j, g in enumerate(p[2:])) * math.exp(-x ** k / T), f"corrected tail at {x}", rtol=1e-9,
                  atol=1e-12)
    return True


ANSI = re.compile(r"\x1b\[[0-9;]*[A-Za-z]")


def printed(fn, *a, **kw):
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        fn(*a, **kw)
    return [ANSI.sub("", l).strip("\r") for l in out.getvalue().split("\n")]


def test_tables(case):
    from most_queue.general_utils import tables as tb
    sim = [x / 1000 * 10.0 ** case["unit"] for x in case["sim"]]
    calc = [x / 1000 * 10.0 ** case["unit"] for x in case["calc"]]
    if case["kind"] == "times":
        if case["complex"]:
            lines = printed(tb.times_print, [complex(x, 1) for x in sim], [complex(x, 1) for x in calc], case["w"])
        else:
            lines = printed(tb.times_print, sim, calc, case["w"])
        n = min(len(sim), len(calc))
        require(any(("ожидания" if case["w"] else "пребывания") in l for l in lines), "the heading does not say which time it is")
        tol = 1e-4
    elif case["kind"] == "one":
        lines = printed(tb.times_print, sim[0], calc[0], case["w"])
        n, tol = 1, 1e-4
    elif case["kind"] == "probs":
        lines = printed(tb.probs_print, sim, calc, case["size"])
        n, tol = min(len(sim), len(calc), case["size"]), 1e-4
    else:
        k = case["classes"]
        rows_s, rows_c = [[x * (i + 1) for x in sim[:3]] for i in range(k)], [[x * (i + 1) for x in calc[:3]] for i in range(k)]
        m = min(len(sim), len(calc), 3)
        rows_s, rows_c = [r[:m] for r in rows_s], [r[:m] for r in rows_c]
        lines = printed(tb.times_print_with_classes, rows_s, rows_c, case["w"])
        require(any(("ожидания" if case["w"] else "пребывания") in l for l in lines), "the heading does not say which time it is")
        for mark, want in (("ИМ", rows_s), ("Р", rows_c)):
            rows = [l for l in lines if len(l.split("|")) > 2 and l.split("|")[1].strip() == mark]
            require(len(rows) == k, f"{len(rows)} rows marked {mark} for {k} classes: {lines}")
            for l, w in zip(rows, want):
                require_close_seq([float(x) for x in l.split("|")[2:2 + m]], w, f"row {mark}", rtol=6e-3, atol=1e-300)
        return k > 1
    rows = []
    for l in lines:
        p = [x.strip() for x in l.split("|")]
        if len(p) == 3 and p[0].isdigit():
            rows.append((int(p[0]), float(p[1]), float(p[2])))
    head = [l for l in lines if "Числ" in l]
    require(len(head) == 1 and head[0].index("Числ") < head[0].index("ИМ"), f"heading: {head}")
    first = 0 if case["kind"] == "probs" else 1
    require([r[0] for r in rows] == list(range(first, first + n)), f"row numbers {[r[0] for r in rows]}, expected {n} rows")
    for i, r in enumerate(rows):
        require_close(r[1], calc[i], f"row {r[0]}: calculated value", rtol=tol, atol=1e-300)
        require_close(r[2], sim[i], f"row {r[0]}: simulated value", rtol=tol, atol=1e-300)
    return n > 1


phases = st.lists(st.tuples(st.integers(1, 9), st.integers(1, 5), st.integers(1, 60)), min_size=1, max_size=3)
units = st.sampled_from([0, 0, -4, -2, -1, 1, 2, 4])
vals = st.lists(st.integers(1, 10 ** 6), min_size=1, max_size=14)

SUBS = [
    Sub("imports", st.deferred(lambda: st.sampled_from(modules()).map(lambda m: {"module": m})), test_imports, 40, rule="all"),
    Sub("conv", st.fixed_dictionaries({"a": phases, "b": phases, "num": st.integers(1, 5), "default": st.booleans(), "short": st.booleans(),
                                       "times": st.integers(0, 12), "unit": units}), test_conv, 600, rule="three moments and a sum of several times"),
    Sub("diff", st.fixed_dictionaries({"points": st.integers(1, 5), "poly": st.lists(st.integers(-9, 9), min_size=5, max_size=5), "h": st.integers(1, 40),
                                       "unit": units}), test_diff, 600, rule="not linear"),
    Sub("binom", st.fixed_dictionaries({"n": st.integers(1, 40), "p": st.integers(0, 64)}), test_binom, 300, rule="three or more outcomes"),
    Sub("arrivals", st.fixed_dictionaries({"kind": st.sampled_from(["Gamma", "Uniform", "Pa"]), "a": st.integers(1, 64), "big": st.sampled_from([1, 1, 1, 4, 20, 60]),
                                           "cv": st.integers(1, 96), "num": st.integers(1, 60), "default": st.booleans(), "unit": units}), test_arrivals, 300,
        rule="more than 3 probabilities"),
    Sub("student", st.fixed_dictionaries({"n": st.one_of(st.integers(5, 135), st.integers(5, 10 ** 6)), "gamma": st.sampled_from([0.95, 0.99, 0.999]),
                                          "mean": st.integers(-99, 99), "std": st.integers(0, 99)}), test_student, 800, rule="20 or more samples"),
    Sub("weibull", st.fixed_dictionaries({"cv": st.integers(2, 384), "mean": st.integers(1, 80), "unit": units, "via": st.booleans(),
                                          "at": st.lists(st.integers(0, 99), max_size=4)}), test_weibull, 300, rule="not exponential"),
    Sub("weibull_poly", st.fixed_dictionaries({"phases": phases, "x": st.integers(0, 40)}), test_weibull_poly, 150, rule="all"),
    Sub("tables", st.fixed_dictionaries({"kind": st.sampled_from(["times", "times", "one", "probs", "classes"]), "sim": vals, "calc": vals, "w": st.booleans(),
                                         "size": st.integers(1, 12), "complex": st.booleans(), "classes": st.integers(1, 5), "unit": st.integers(-5, 5)}),
        test_tables, 300, rule="several rows"),
]

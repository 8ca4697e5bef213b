"""C03: samples follow the named distribution, come only from the generator passed in; load factor."""
import math

import numpy as np
from hypothesis import strategies as st
from scipy import special as sc
from scipy import stats

from ..core import Discard, Sub, require, require_close
from .c01 import cox_moments, gamma_moments, h2_moments

PROPERTY = "C03"
RULE = ("parameters over time units 1e-3..1e3; samples of several thousand draws with the seed of the case are put through a "
        "Kolmogorov-Smirnov test (p < 1e-9), lag-1 dependence and mean tests (6.5 standard errors), plus exact reproducibility")
ASSUMPTIONS = ["numpy generators produce independent uniform variables"]


def cox_cdf(y, m1, m2, t):
    t = np.asarray(t, float)
    if abs(m1 - m2) < 1e-9 * m1:
        two = 1 - np.exp(-m1 * t) * (1 + m1 * t)
    else:
        two = 1 - (m2 * np.exp(-m1 * t) - m1 * np.exp(-m2 * t)) / (m2 - m1)
    return (1 - y) * (1 - np.exp(-m1 * t)) + y * two


def model(case):
    """(notation, params, cdf, mean, standard deviation or None)"""
    s = 10.0 ** case["unit"]
    a, b, c = case["a"] / 16, case["b"] / 16, case["c"] / 64
    k = case["kind"]
    if k == "M":
        mu = a / s
        return "M", mu, lambda t: -np.expm1(-mu * t), 1 / mu, 1 / mu
    if k == "H":
        p = [c, a / s, b / s]
        f = h2_moments(p, 2)
        return "H", p, lambda t: -(c * np.expm1(-p[1] * t) + (1 - c) * np.expm1(-p[2] * t)), f[0], math.sqrt(f[1] - f[0] ** 2)
    if k == "E":
        r, mu = case["a"] % 9 + 1, b / s
        return "E", [r, mu], lambda t: sc.gammainc(r, mu * t), r / mu, math.sqrt(r) / mu
    if k == "Gamma":
        mu, al = a / s, b
        return "Gamma", [mu, al], lambda t: sc.gammainc(al, mu * t), al / mu, math.sqrt(al) / mu
    if k == "C":
        p = [c, a / s, b / s]
        f = cox_moments(p)
        return "C", p, lambda t: cox_cdf(*p, t), f[0], math.sqrt(f[1] - f[0] ** 2)
    if k == "Pa":
        al, kk = 0.5 + a, b * s
        mean = al * kk / (al - 1) if al > 1 else math.inf
        sd = math.sqrt(al * kk ** 2 / (al - 2) - mean ** 2) if al > 4 else None
        return "Pa", [al, kk], lambda t: np.where(t < kk, 0.0, 1 - (kk / np.maximum(t, kk)) ** al), mean, sd
    if k == "Uniform":
        mean, h = b * s, max(c, 1 / 64) * b * s
        return "Uniform", [mean, h], lambda t: np.clip((t - mean + h) / (2 * h), 0, 1), mean, h / math.sqrt(3)
    if k == "Norm":
        mean, sd = a * s, b * s / 4
        return "Norm", [mean, sd], lambda t: sc.ndtr((t - mean) / sd), mean, sd
    return "D", b * s, None, b * s, 0.0


def cls(kind):
    from most_queue import rand_distribution as rd
    return {"M": rd.Exp_dist, "H": rd.H2_dist, "E": rd.Erlang_dist, "Gamma": rd.Gamma, "C": rd.Cox_dist, "Pa": rd.Pareto_dist,
            "Uniform": rd.Uniform_dist, "Norm": rd.Normal_dist, "D": rd.Det_dist}[kind]


def sampler(case, kind, params, gen):
    from most_queue.sim.utils.distribution_utils import create_distribution
    via = case["via"]
    if via == "factory":
        return create_distribution(params, kind, gen).generate
    if via == "instance":
        return (cls(kind)(params, generator=gen) if kind != "D" else cls(kind)(params)).generate
    D = cls(kind)
    if kind == "D":
        return lambda: D.generate_static(params)
    if kind == "M":
        return lambda: D.generate_static(params, gen)
    return lambda: D.generate_static(*params, gen)


def test_sample(case):
    kind, params, cdf, mean, sd = model(case)
    n = case["n"]
    gen = np.random.default_rng(case["seed"]) if case["gen"] else None
    np.random.seed(case["seed"] % (2 ** 32))
    state = np.random.get_state()
    draw = sampler(case, kind, params, gen)
    x = np.array([float(draw()) for _ in range(n)])
    after = np.random.get_state()
    touched = after[2] != state[2] or not np.array_equal(after[1], state[1])
    if kind == "D":
        require(bool(np.all(x == params)), f"deterministic source returned {x[:4]} for {params}")
        return False
    if case["gen"]:
        require(not touched, f"{kind} ({case['via']}): global random state used although a generator was passed")
        gen2 = np.random.default_rng(case["seed"])
        draw = sampler(case, kind, params, gen2)
    else:
        require(touched, f"{kind} ({case['via']}): no randomness used")
        np.random.seed(case["seed"] % (2 ** 32))
    y = np.array([float(draw()) for _ in range(n)])
    require(np.array_equal(x, y), f"{kind} ({case['via']}): not reproducible from the seed")
    u = np.sort(cdf(x))
    require(bool(np.all(np.isfinite(u))), f"{kind}: non-finite samples")
    d = max(np.max(np.arange(1, n + 1) / n - u), np.max(u - np.arange(n) / n))
    p = stats.kstwo.sf(d, n)
    require(p > 1e-9, "%s (%s, params %s): Kolmogorov-Smirnov distance %.4f of %d draws, p = %.2g", kind, case["via"], params, d, n, p)
    v = cdf(x) - 0.5
    r = float(np.sum(v[1:] * v[:-1])) * 12 / math.sqrt(n - 1)
    require(abs(r) < 6.5, f"{kind} ({case['via']}): successive draws are dependent ({r:.1f} standard errors)")
    if kind in ("M", "E", "Gamma", "Uniform", "Norm"):
        z = (float(np.mean(x)) - mean) / (sd / math.sqrt(n))
        require(abs(z) < 6.5, f"{kind} ({case['via']}): mean off by {z:.1f} standard errors")
    if kind == "Uniform":
        require(params[0] - params[1] <= x.min() and x.max() <= params[0] + params[1], "uniform outside its interval")
    if kind == "Pa":
        require(x.min() >= params[1] * (1 - 1e-12), "Pareto below its scale")
    return True


def test_streams(case):
    """Two sources sharing one generator, and a source and its twin, stay independent of each other."""
    kind, params, cdf, mean, sd = model(case)
    k2, p2, c2, _, _ = model(case["other"])
    if "D" in (kind, k2):
        return False
    gen = np.random.default_rng(case["seed"])
    a = sampler(case, kind, params, gen)
    b = sampler(case["other"], k2, p2, gen)
    n = 1500
    x, y = [], []
    for _ in range(n):
        x.append(float(a()))
        y.append(float(b()))
    u, v = cdf(np.array(x)) - 0.5, c2(np.array(y)) - 0.5
    for lag in (0, 1):
        r = float(np.sum(u[lag:] * v[:n - lag])) * 12 / math.sqrt(n)
        require(abs(r) < 6.5, f"{kind} and {k2} from one generator are dependent ({r:.1f} standard errors)")
    from most_queue.sim.utils.distribution_utils import create_distribution
    g1, g2 = np.random.default_rng(case["seed"]), np.random.default_rng(case["seed"] + 1)
    d1, d2 = create_distribution(params, kind, g1), create_distribution(params, kind, g2)
    require([float(d1.generate()) for _ in range(3)] != [float(d2.generate()) for _ in range(3)],
            f"{kind}: different generators give the same values")
    return True


def test_load(case):
    from most_queue.sim.utils.distribution_utils import calc_qs_load
    sk, sp, _, sm, _ = model(case)
    vk, vp, _, vm, _ = model(case["other"])
    if sk == "Norm" and case["b"] > 16 * 4 * case["a"]:
        pass
    got = calc_qs_load(sk, sp, vk, vp, case["channels"])
    if math.isinf(sm):
        require(got is None or got == 0, f"load {got} with arrivals of infinite mean")
        return False
    if math.isinf(vm):
        require(got == math.inf, f"load {got} with services of infinite mean")
        return False
    require_close(got, vm / sm / case["channels"], f"load of {sk}/{vk}/{case['channels']}", rtol=1e-9, atol=0)
    from most_queue.sim.qs_sim import QueueingSystemSimulator
    qs = QueueingSystemSimulator(case["channels"])
    qs.set_sources(sp, sk)
    qs.set_servers(vp, vk)
    require_close(qs.calc_load(), vm / sm / case["channels"], f"load of the simulator {sk}/{vk}/{case['channels']}", rtol=1e-9, atol=0)
    return case["channels"] > 1


KINDS = ["M", "H", "E", "Gamma", "C", "Pa", "Uniform", "Norm", "D"]
par = {"kind": st.sampled_from(KINDS), "unit": st.integers(-3, 3), "a": st.integers(1, 120), "b": st.integers(1, 120),
       "c": st.integers(0, 64), "via": st.sampled_from(["factory", "instance", "static"])}
SUBS = [
    Sub("sample", st.fixed_dictionaries({**par, "gen": st.booleans(), "seed": st.integers(0, 10 ** 6), "n": st.sampled_from([1500, 4000])}),
        test_sample, quick=700, thorough=20000, rule="non-trivial = a random family"),
    Sub("streams", st.fixed_dictionaries({**par, "seed": st.integers(0, 10 ** 6), "other": st.fixed_dictionaries(par)}), test_streams,
        quick=300, thorough=8000, rule="non-trivial = two random families"),
    Sub("load", st.fixed_dictionaries({**par, "other": st.fixed_dictionaries(par), "channels": st.integers(1, 12)}), test_load,
        quick=1500, thorough=30000, rule="non-trivial = several channels and finite means"),
]

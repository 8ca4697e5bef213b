"""C24: every simulator converges to the calculator of the same model."""
import contextlib
import importlib
import io
import math
import random

import numpy as np
from hypothesis import strategies as st
from scipy import stats as sps

from ..core import Discard, Sub, require, run_or_discard
from .c01 import scaled
from .c10 import mixture_moments
from .c23 import seeded

PROPERTY = "C24"
RULE = ("a registry of models that have both a simulator and a calculator, random laws, loads, channel numbers and time units; independent "
        "replications of the simulator with controlled random numbers give an estimate and its error; a deviation of more than 6 standard "
        "errors plus a small allowance must repeat with four and sixteen times as many jobs and fresh random numbers to count")
ASSUMPTIONS = ["loads up to 0.7, so that the start from an empty system fades", "calculators that are approximations are given the allowance that "
               "their own property (C16-C18, C20, C21) documents", "statistical: the false-alarm probability per case is below 1e-8 if the errors of "
               "replications are normal"]
REG = {}


def entry(allow=0.02, jobs=3000):
    def deco(fn):
        REG[fn.__name__.strip("_")] = (fn, allow, jobs)
        return fn
    return deco


def T(name):
    return importlib.import_module("most_queue.theory." + name)


def S(name):
    return importlib.import_module("most_queue.sim." + name)


class Law:
    """A service or interarrival law of the library: notation, parameters, moments (in the unit of the case)."""

    def __init__(self, spec, mean):
        kind, a, b, c = spec["kind"], spec["a"], spec["b"], spec["c"]
        self.kind, self.mean = kind, mean
        if kind == "M":
            self.type, self.params = "M", 1 / mean
            m = [math.factorial(k) for k in range(1, 6)]
        elif kind == "H":
            y, u, v = (2 + a) / 20, b / 8, (14 + c) / 8
            e = y / u + (1 - y) / v
            self.type, self.params = "H", [y, u * e / mean, v * e / mean]
            m = [math.factorial(k) * (y / (u * e) ** k + (1 - y) / (v * e) ** k) for k in range(1, 6)]
        elif kind == "E":
            r = 1 + a % 5
            self.type, self.params = "E", [r, r / mean]
            m = [math.prod(range(r, r + k)) / r ** k for k in range(1, 6)]
        elif kind == "Gamma":
            s = (4 + a + b) / 8
            self.type, self.params = "Gamma", [s / mean, s]
            m = [math.prod(s + i for i in range(k)) / s ** k for k in range(1, 6)]
        elif kind == "Uniform":
            h = (1 + a) / 16
            self.type, self.params = "Uniform", [mean, h * mean]
            m = [((1 + h) ** (k + 1) - (1 - h) ** (k + 1)) / (2 * h * (k + 1)) for k in range(1, 6)]
        elif kind == "Pa":
            s = 5.5 + a / 4
            K = (s - 1) / s
            self.type, self.params = "Pa", [s, K * mean]
            m = [s * K ** k / (s - k) for k in range(1, 6)]
        elif kind == "C":
            y, u, v = (2 + a) / 20, (4 + b) / 8, (6 + c) / 8
            e1 = [math.factorial(k) / u ** k for k in range(6)]
            e2 = [math.factorial(k) / v ** k for k in range(6)]
            both = [sum(math.comb(k, i) * e1[i] * e2[k - i] for i in range(k + 1)) for k in range(6)]
            x = [(1 - y) * e1[k] + y * both[k] for k in range(6)]
            e = x[1]
            self.type, self.params = "C", [y, u * e / mean, v * e / mean]
            m = [x[k] / e ** k for k in range(1, 6)]
        else:
            self.type, self.params = "D", mean
            m = [1.0] * 5
        self.b = scaled(m, mean)
        self.cv2 = m[1] - 1


class Case:
    def __init__(self, case):
        self.case = case
        self.u = 4.0 ** case["unit"]
        self.n = case["n"]
        self.rho = case["rho"] / 64
        self.r = case["r"]

    def law(self, i, mean, kinds=None):
        spec = dict(self.case["laws"][i % len(self.case["laws"])])
        if kinds and spec["kind"] not in kinds:
            spec["kind"] = kinds[spec["a"] % len(kinds)]
        return Law(spec, mean * self.u)

    def factor(self, i):
        return self.case["means"][i] / 8


def moments(x, num=2):
    return [float(np.real(v)) for v in x[:num]]


class Plan:
    """What to simulate and what to expect. expected: list of (label, value, getter, allowance factor, absolute allowance, power of the unit of time)."""

    def __init__(self, make):
        self.make, self.expected = make, []

    def mom(self, label, want, get, weight=1.0):
        for k, x in enumerate(want):
            self.expected.append((f"{label} {k + 1}", float(np.real(x)), lambda q, k=k: float(np.real(get(q)[k])), weight * (k + 1) ** 1.5, 0.0, k + 1))

    def prob(self, label, want, get):
        for k, x in enumerate(want):
            self.expected.append((f"{label}[{k}]", float(np.real(x)), lambda q, k=k: float(np.real(get(q)[k])), 1.0, 2e-3, 0))

    def one(self, label, want, get, weight=1.0, absolute=0.0):
        self.expected.append((label, float(np.real(want)), lambda q: float(np.real(get(q))), weight, absolute, 1))


def queue(n, arrive, serve, buffer=None):
    def make(jobs):
        q = S("qs_sim").QueueingSystemSimulator(n, buffer=buffer, verbose=False)
        q.set_sources(arrive.params, arrive.type)
        q.set_servers(serve.params, serve.type)
        return q, lambda: q.run(jobs)
    return make


ANY = ["M", "H", "E", "Gamma", "Uniform", "Pa", "C", "D"]


@entry()
def mg1(c):
    s, a = c.law(0, 1), Law({"kind": "M", "a": 0, "b": 0, "c": 0}, c.u / c.rho)
    p = Plan(queue(1, a, s))
    l = c.rho / c.u
    p.mom("w", T("mg1_calc").get_w(l, s.b), lambda q: q.w)
    p.mom("v", T("mg1_calc").get_v(l, s.b), lambda q: q.v)
    if s.kind in ("Gamma", "Uniform", "Pa"):
        p.prob("p", T("mg1_calc").get_p(l, s.b[:2], 4, dist_type=s.kind), lambda q: q.get_p())
    return p


def poisson(rate):
    return Law({"kind": "M", "a": 0, "b": 0, "c": 0}, 1 / rate)


@entry()
def mg1_warm(c):
    s, w = c.law(0, 1), c.law(1, c.factor(0))
    a = poisson(c.rho / c.u)

    def make(jobs):
        q, run = queue(1, a, s)(jobs)
        q.set_warm(w.params, w.type)
        return q, run
    p = Plan(make)
    # the calculator's b_warm is the whole time of the first job; the mean depends on two moments only
    first = [s.b[0] + w.b[0], s.b[1] + 2 * s.b[0] * w.b[0] + w.b[1]]
    if s.kind == "D":
        raise Discard("the calculator fits gamma laws")
    p.one("v", T("mg1_warm_calc").get_v(c.rho / c.u, s.b[:2], first)[0], lambda q: q.v[0])
    return p


@entry()
def gi_m_1(c):
    kind = "Gamma" if c.r % 3 else "Pa"
    a, s = c.law(0, 1, [kind]), poisson(1 / c.rho / c.u)
    p = Plan(queue(1, a, s))
    m, mu = T("gi_m_1_calc"), 1 / c.rho / c.u
    p.mom("w", m.get_w(a.b[:4], mu, approx_distr=kind)[:2], lambda q: q.w)
    p.mom("v", m.get_v(a.b[:4], mu, approx_distr=kind)[:2], lambda q: q.v)
    p.prob("p", m.get_p(a.b[:4], mu, 6, approx_distr=kind)[:4], lambda q: q.get_p())
    return p


@entry()
def gi_m_n(c):
    kind = "Gamma" if c.r % 3 else "Pa"
    n = c.n
    a, s = c.law(0, 1, [kind]), poisson(1 / c.rho / n / c.u)
    p = Plan(queue(n, a, s))
    m, mu = T("gi_m_n_calc"), 1 / c.rho / n / c.u
    p.mom("w", m.get_w(a.b[:4], mu, n, approx_distr=kind)[:2], lambda q: q.w)
    p.mom("v", m.get_v(a.b[:4], mu, n, approx_distr=kind)[:2], lambda q: q.v)
    p.prob("p", m.get_p(a.b[:4], mu, n, approx_distr=kind)[:n + 2], lambda q: q.get_p())
    return p


@entry()
def mmnr(c):
    l, mu, n, r = 2 * c.n * c.rho / c.u, 1 / c.u, c.n, c.r % 9
    p = Plan(queue(n, poisson(l), poisson(mu), buffer=r))
    m = T("mmnr_calc").MMnr_calc
    if r:
        p.mom("w", m.get_w(l, mu, n, r)[:2], lambda q: q.w)
    p.mom("v", m.get_v(l, mu, n, r)[:2], lambda q: q.v)
    p.prob("p", m.get_p(l, mu, n, r)[:n + r + 1], lambda q: q.get_p())
    p.one("lost share", m.getPI(l, mu, n, r), lambda q: q.dropped / q.arrived, absolute=2e-3)
    return p


@entry()
def engset(c):
    sources, l = c.r % 10 + 1, (1 + c.case["rho"]) / 128 / c.u

    def make(jobs):
        q = S("queue_finite_source_sim").QueueingFiniteSourceSim(1, sources, verbose=False)
        q.set_sources(l, "M")
        q.set_servers(1 / c.u, "M")
        return q, lambda: q.run(jobs)
    p = Plan(make)
    e = T("engset_model").Engset(l, 1 / c.u, sources)
    p.prob("p", e.get_p()[:5], lambda q: q.get_p())
    p.mom("v", e.get_v()[:2], lambda q: q.v)
    if sources > 1:
        p.mom("w", e.get_w()[:2], lambda q: q.w)
    return p


@entry()
def batch(c):
    w = c.case["w"]
    probs = [x / sum(w) for x in w]
    L = sum((i + 1) * x for i, x in enumerate(probs))
    l, mu = c.rho / L / c.u, 1 / c.u

    def make(jobs):
        q = S("batch_sim").QueueingSystemBatchSim(1, probs, verbose=False)
        q.set_sources(l, "M")
        q.set_servers(mu, "M")
        return q, lambda: q.run(jobs)
    p = Plan(make)
    e = T("batch_mm1").BatchMM1(l, mu, probs)
    p.prob("p", e.get_p()[:5], lambda q: q.get_p())
    p.one("v", e.get_v1(), lambda q: q.v[0])
    p.one("w", e.get_w1(), lambda q: q.w[0])
    return p


@entry()
def impatience(c):
    l, mu, g = 3 * c.rho / c.u, 1 / c.u, 1 / c.factor(0) / c.u

    def make(jobs):
        q = S("impatient_queue_sim").ImpatientQueueSim(1, verbose=False)
        q.set_sources(l, "M")
        q.set_servers(mu, "M")
        q.set_impatiens(g, "M")
        return q, lambda: q.run(jobs)
    p = Plan(make)
    m = T("impatience_calc")
    P = m.get_p(l, mu, g)
    p.prob("p", P[:6], lambda q: list(q.get_p()) + [0] * 9)
    p.one("v", m.get_v1(l, mu, g), lambda q: q.v[0])
    return p


@entry()
def mdn(c):
    n, l = c.n, c.rho * c.n / c.u
    p = Plan(queue(n, poisson(l), Law({"kind": "D", "a": 0, "b": 0, "c": 0}, c.u)))
    p.prob("p", T("m_d_n_calc").M_D_n(l, c.u, n).calc_p()[:n + 2], lambda q: q.get_p())
    return p


@entry()
def ekdn(c):
    n, k = c.n, c.r % 4 + 1
    l = k * c.rho * n / c.u

    class A:
        params, type = [k, l], "E"
    p = Plan(queue(n, A, Law({"kind": "D", "a": 0, "b": 0, "c": 0}, c.u)))
    p.prob("p", T("ek_d_n_calc").Ek_D_n(l, k, c.u, n).calc_p()[:n + 2], lambda q: q.get_p())
    return p


@entry()
def mgn(c):
    n, s = c.n, c.law(0, 1, ["H", "M", "H", "E", "C"])
    if s.kind == "E" and s.params[0] > 2:
        s = Law({"kind": "E", "a": 1, "b": 0, "c": 0}, c.u)
    y = importlib.import_module("most_queue.rand_distribution").H2_dist.get_params_clx(s.b[:3], verbose=False)[0]
    if max(abs(y), abs(1 - y)) ** n > 1e4:
        raise Discard("ill-conditioned signed weights")
    buffer = c.r % 8 if c.case["finite"] else None
    l = n * c.rho * (1 if buffer is None else 1.8) / c.u
    p = Plan(queue(n, poisson(l), s, buffer=buffer))
    q = T("mgn_tt").MGnCalc(n, l, s.b[:3], N=100, buffer=buffer)
    q.run()
    if buffer != 0:
        p.mom("w", moments(q.get_w()), lambda q: q.w)
    p.mom("v", moments(q.get_v()), lambda q: q.v)
    p.prob("p", q.get_p()[:min(len(q.get_p()), n + 3)], lambda q: q.get_p())
    return p


def vacation(c, n, s, warm=None, cold=None, delay=None):
    def make(jobs):
        q, run = queue(n, poisson(n * c.rho / c.u), s)(jobs)
        if warm:
            q.set_warm(warm.params, warm.type)
        if cold:
            q.set_cold(cold.params, cold.type)
        if delay:
            q.set_cold_delay(delay.params, delay.type)
        return q, run
    return make


@entry()
def h2warm(c):
    n, s, w = c.n, c.law(0, 1, ["H"]), c.law(1, c.factor(0), ["H"])
    p = Plan(vacation(c, n, s, w))
    q = T("m_h2_h2warm").Mh2h2Warm(n * c.rho / c.u, s.b[:3], w.b[:3], n, N=100)
    q.run()
    p.mom("w", moments(q.get_w()), lambda q: q.w)
    p.mom("v", moments(q.get_v()), lambda q: q.v)
    p.prob("p", q.get_p()[:n + 3], lambda q: q.get_p())
    return p


@entry()
def cold_warm(c):
    n, s, w, d = c.n, poisson(1 / c.u), c.law(1, c.factor(0), ["H"]), c.law(2, c.factor(1), ["H"])
    p = Plan(vacation(c, n, s, w, d))
    q = T("mmn_with_h2_cold_and_h2_warmup").MMn_H2warm_H2cold(n * c.rho / c.u, 1 / c.u, w.b[:3], d.b[:3], n, N=100)
    q.run()
    p.mom("w", moments(q.get_w()), lambda q: q.w)
    p.mom("v", moments(q.get_v()), lambda q: q.v)
    p.prob("p", q.get_p()[:n + 3], lambda q: q.get_p())
    p.one("warm-up share", q.get_warmup_prob(), lambda q: q.get_warmup_prob(), absolute=3e-3)
    p.one("cooling share", q.get_cold_prob(), lambda q: q.get_cold_prob(), absolute=3e-3)
    return p


@entry()
def cold_delay(c):
    n, s, w, d, e = min(c.n, 2), c.law(0, 1, ["H"]), c.law(1, c.factor(0), ["H"]), c.law(2, c.factor(1), ["H"]), c.law(3, c.factor(2), ["H"])
    p = Plan(vacation(c, n, s, w, d, e))
    q = T("mgn_with_h2_delay_cold_warm").MGnH2ServingColdWarmDelay(n * c.rho / c.u, s.b[:3], w.b[:3], d.b[:3], e.b[:3], n, N=80)
    q.run()
    p.mom("w", moments(q.get_w()), lambda q: q.w)
    p.mom("v", moments(q.get_v()), lambda q: q.v)
    p.prob("p", q.get_p()[:n + 3], lambda q: q.get_p())
    p.one("warm-up share", q.get_warmup_prob(), lambda q: q.get_warmup_prob(), absolute=3e-3)
    p.one("cooling share", q.get_cold_prob(), lambda q: q.get_cold_prob(), absolute=3e-3)
    p.one("delay share", q.get_cold_delay_prob(), lambda q: q.get_cold_delay_prob(), absolute=3e-3)
    return p


def classes(c, K, n, kinds=None):
    s = [c.law(i, c.factor(i), kinds) for i in range(K)]
    w = c.case["w"][:K]
    return [n * c.rho * w[i] / sum(w) / s[i].mean for i in range(K)], s


def priority_sim(n, disc, l, s):
    def make(jobs):
        q = S("priority_queue_sim").PriorityQueueSimulator(n, len(l), disc)
        q.set_sources([{"type": "M", "params": x} for x in l])
        q.set_servers([{"type": x.type, "params": x.params} for x in s])
        return q, lambda: q.run(jobs)
    return make


@entry(jobs=6000)
def priority(c):
    K = 2 + c.r % 2
    l, s = classes(c, K, 1)
    b = [x.b for x in s]
    disc = "PR" if c.case["finite"] else "NP"
    p = Plan(priority_sim(1, disc, l, s))
    m = T("priority_calc")
    if disc == "PR":
        res = m.calc_pr1(l, b, num=3)["v"]
    else:
        res = m.get_v_np(l, b)
    for k in range(K):
        p.mom(f"v class {k}", res[k][:2], lambda q, k=k: q.v[k])
    return p


@entry(allow=0.05, jobs=6000)
def prty2(c):
    l, s = classes(c, 2, c.n, ["M"])
    p = Plan(priority_sim(c.n, "PR", l, s))
    q = T("mmn_prty_pnz_approx").MMn_PRTY_PNZ_Cox_approx(c.n, 1 / s[1].mean, 1 / s[0].mean, l[1], l[0], N=150)
    q.run()
    p.one("v low", q.get_second_class_v1(), lambda q: q.v[1][0])
    p.prob("p low", q.get_p()[:4], lambda q: q.get_p()[1])
    return p


def have_laws(periods):
    fits = [importlib.import_module("most_queue.rand_distribution").Cox_dist.get_params(b, verbose=False) for b in periods]
    if any(x.real <= 0 for f in fits for x in f[1:]):
        raise Discard("a busy period without a Cox law of its moments")


@entry(allow=0.05, jobs=6000)
def prty_ph(c):
    n = min(c.n, 2)
    l, s = classes(c, 2, n, ["C"])
    low = poisson(1 / s[1].mean)
    p = Plan(priority_sim(n, "PR", l, [s[0], low]))
    y, m1, m2 = s[0].params                              # Cox: y is the probability of the second phase
    q = T("m_ph_n_prty").m_ph_n_prty(1 / low.mean, m1, m2, y, l[1], l[0], n, N=100, max_iter=3000, verbose=False)
    have_laws(q.busy_periods)
    q.run()
    if q.run_iterations_num_ >= 3000:
        raise Discard("not converged")
    p.one("v low", q.get_low_class_v1(), lambda q: q.v[1][0])
    p.prob("p low", q.get_p()[:4], lambda q: q.get_p()[1])
    return p


@entry(allow=0.05, jobs=6000)
def prty3(c):
    l, s = classes(c, 3, 2, ["M"])
    p = Plan(priority_sim(2, "PR", l, s))
    q = T("mmn3_pnz_cox_approx").Mmn3_pnz_cox(1 / s[2].mean, 1 / s[1].mean, 1 / s[0].mean, l[2], l[1], l[0], N=150)
    have_laws(q.busy_periods)
    q.run()
    p.one("v low", q.get_low_class_v1(), lambda q: q.v[2][0])
    p.prob("p low", q.get_p()[:4], lambda q: q.get_p()[2])
    return p


@entry(allow=0.04, jobs=4000)
def network(c):
    """One class and exponential times: the network is of product form and the calculation exact."""
    m, N = T("network_calc"), 2
    a = c.case["w"]
    M = np.array([[a[0], a[1], 0], [1, a[2] % 3, a[3]], [a[1] % 2, 0, 2 + a[0]]], float)
    R = np.matrix(M / M.sum(axis=1, keepdims=True))
    ch = [c.n, 1 + c.r % 2]
    s = [c.factor(i) * c.u for i in range(N)]
    lam = m.balance_equation(1.0, R)
    f = c.rho / max(lam[i] * s[i] / ch[i] for i in range(N))
    b = [[[x ** k * math.factorial(k) for k in range(1, 5)] for x in s]]
    prty = ["NP" if c.case["finite"] else "PR"] * N
    res = m.network_prty_calc([R], b, ch, [f], prty, [[0]] * N)

    def make(jobs):
        q = S("priority_network").PriorityNetwork(1, [f], [R], ch, prty, [[{"type": "M", "params": 1 / x}] for x in s], [[0]] * N)
        return q, lambda: q.run(jobs)
    p = Plan(make)
    p.one("v", res["v"][0][0], lambda q: q.v_network[0][0])
    return p


@entry(jobs=4000)
def splitjoin(c):
    """Split-join: the next task starts when the previous one is complete, an M/G/1 queue with the maximum as service."""
    n, s = c.n + 1, c.law(0, 1, ["M", "H", "Gamma", "E"])
    b = T("fj_calc").getMaxMoments(n, s.b[:2] if s.kind == "Gamma" else s.b[:4], 2 if s.kind == "Gamma" else 3)
    l = c.rho / b[0]

    def make(jobs):
        q = S("fj_sim").ForkJoinSim(n, n, is_SJ=True, is_Purge=False)
        q.set_sources(l, "M")
        q.set_servers(s.params, s.type)
        return q, lambda: q.run(jobs)
    p = Plan(make)
    p.mom("v", T("mg1_calc").get_v(l, b, len(b) - 1), lambda q: q.v)
    return p


@entry(jobs=4000)
def splitjoin_delta(c):
    """The subtasks of a task that finds the system empty start one after the other with a constant delay."""
    n, s = c.n + 1, c.law(0, 1, ["Gamma"])
    b = T("fj_calc").getMaxMoments(n, s.b[:2])
    d = c.factor(0) / 32 * s.mean  # the calculator neglects the delay left when a task waits for less than it
    first = T("fj_calc").getMaxMomentsDelta(n, s.b[:2], 2, d)
    l = c.rho / b[0]

    def make(jobs):
        q = S("fj_delta_sim").ForkJoinSimDelta(n, n, d, True)
        q.set_sources(l, "M")
        q.set_servers(s.params, s.type)
        return q, lambda: q.run(jobs)
    p = Plan(make)
    p.one("v", T("mg1_warm_calc").get_v(l, b, first)[0], lambda q: q.v[0])
    return p


def tails(s):
    """Tail of the law and tail of its residual life."""
    if s.kind == "H":
        y, u, v = s.params
        return (lambda t: y * np.exp(-u * t) + (1 - y) * np.exp(-v * t),
                lambda t: (y / u * np.exp(-u * t) + (1 - y) / v * np.exp(-v * t)) / s.mean)
    if s.kind == "Pa":
        a, K = s.params
        return (lambda t: np.where(t < K, 1.0, (K / np.maximum(t, K)) ** a),
                lambda t: np.where(t < K, s.mean - t, K / (a - 1) * (K / np.maximum(t, K)) ** (a - 1)) / s.mean)
    a = s.params[1] if s.kind == "Gamma" else s.params[0]
    x = a / s.mean
    return (lambda t: sps.gamma.sf(t, a, scale=1 / x),
            lambda t: sps.gamma.sf(t, a + 1, scale=1 / x) - t / s.mean * sps.gamma.sf(t, a, scale=1 / x))


@entry(jobs=6000)
def flows(c):
    """Superposition of two renewal flows: tail of an interval = mixture over the flow of the last event of its tail times the other's residual tail."""
    kind = ["Gamma", "H", "E", "Pa"][c.r % 4]
    s = [c.law(i, c.factor(i), [kind]) for i in range(2)]

    def make(jobs):
        q = S("flow_sum_sim").FlowSumSim([x.b[:4] for x in s], distr=kind, verbose=False, num_of_jobs=jobs)
        return q, q.sum_flows
    p = Plan(make)
    (F, G), (U, V) = tails(s[0]), tails(s[1])
    r = [1 / x.mean for x in s]
    x, w = np.polynomial.legendre.leggauss(24)
    want, a, h = np.zeros(3), 0.0, min(x.mean for x in s) / 64
    for _ in range(24):
        for i in range(8):
            lo = a + h * i / 8
            t = lo + h / 16 * (x + 1)
            f = (r[0] * F(t) * V(t) + r[1] * U(t) * G(t)) / sum(r)
            want += [float((w * h / 16 * f * k * t ** (k - 1)).sum()) for k in (1, 2, 3)]
        a += h
        h = a
    p.mom("interval", want[:2], lambda q: q.flows_[0])
    p.mom("result", want[:2], lambda q: q.result_flow)
    return p


@entry(allow=0.06, jobs=4000)
def forkjoin(c):
    n = c.n + 1
    l, mu = c.rho / c.u, 1 / c.u

    def make(jobs):
        q = S("fj_sim").ForkJoinSim(n, n, is_SJ=False, is_Purge=False)
        q.set_sources(l, "M")
        q.set_servers(mu, "M")
        return q, lambda: q.run(jobs)
    p = Plan(make)
    m = T("fj_calc")
    p.one("Nelson-Tantawi", m.get_v1_fj_nelson_tantawi(l, mu, n), lambda q: q.v[0])
    p.one("Varma", m.get_v1_fj_varma(l, mu, n), lambda q: q.v[0])
    if n == 2:
        p.one("exact n=2", m.get_v1_fj2(l, mu), lambda q: q.v[0], weight=0.4)
    return p


def simulate(plan, seed, reps, jobs):
    """Estimates of all expected quantities: rows are replications."""
    rows = []
    for i in range(reps):
        with seeded(seed * 1000 + i):
            q, run = plan.make(jobs)
            run()
            rows.append([get(q) for _, _, get, *_ in plan.expected])
    return np.array(rows, float)


def test_agree(case):
    fn, allow, jobs = REG[case["name"]]
    c = Case(case)
    with contextlib.redirect_stdout(io.StringIO()):
        plan = run_or_discard(lambda: fn(c), 8)
    want = np.array([x[1] for x in plan.expected])
    require(np.isfinite(want).all(), f"{case['name']}: not finite: {[x[:2] for x in plan.expected]}")
    weight = np.array([x[3] for x in plan.expected])
    absolute = np.array([x[4] for x in plan.expected])
    rare = 40 * c.u ** np.array([float(x[5]) for x in plan.expected])  # what about 40 jobs add up to may not be seen at all
    bad = None
    for stage, (reps, factor) in enumerate(((6, 1), (10, 4), (16, 12))):
        X = simulate(plan, case["seed"] * 4 + stage, reps, jobs * factor)
        mean, se = X.mean(axis=0), X.std(axis=0, ddof=1) / math.sqrt(reps)
        slack = (1.5 - 0.25 * stage) * allow * weight
        off = np.abs(mean - want) - 6 * se - slack * np.abs(want) - absolute - rare / (reps * jobs * factor)
        bad = [i for i in range(len(want)) if off[i] > 0]
        if not bad:
            return True
    i = max(bad, key=lambda i: off[i] / max(abs(want[i]), 1e-12))
    require(False, f"{case['name']}, n={case['n']}, load {case['rho']}/64, laws {case['laws']}: {plan.expected[i][0]}: simulated {mean[i]:.6g} "
                   f"(standard error {se[i]:.2g}), calculated {want[i]:.6g}")


spec = st.fixed_dictionaries({"kind": st.sampled_from(ANY), "a": st.integers(0, 15), "b": st.integers(1, 12), "c": st.integers(0, 30)})
SUBS = [
    Sub("agree", st.fixed_dictionaries({
        "name": st.deferred(lambda: st.sampled_from(sorted(REG))), "n": st.integers(1, 4), "rho": st.integers(8, 44), "r": st.integers(0, 30),
        "laws": st.lists(spec, min_size=2, max_size=4), "means": st.lists(st.integers(3, 24), min_size=4, max_size=4),
        "w": st.lists(st.integers(1, 9), min_size=4, max_size=4), "finite": st.booleans(), "unit": st.integers(-3, 3),
        "seed": st.integers(0, 10 ** 6)}), test_agree, 160, thorough=6000, rule="all"),
]

"""C23: results do not depend on the time unit, on earlier calls, and arguments are left alone."""
import contextlib
import copy
import functools
import importlib
import io
import math
import os
import pickle
import random
import signal

import numpy as np
from hypothesis import strategies as st

from ..core import CpuGuard, Discard, Sub, require, require_close, run_or_discard
from .c01 import scaled
from .c10 import mixture_moments

PROPERTY = "C23"
RULE = ("a registry of every public calculation and simulator entry point; each is run with random parameters in the time units 1 and 2^-14..2^14 and "
        "compared (simulators with the same random numbers: the trajectory must scale exactly), arguments are compared with copies, and random call "
        "histories run in forked processes are compared with the same call in a fresh process")
ASSUMPTIONS = ["parameters for which the calculation itself fails in unit 1 are discarded (judged by the property of that calculation)",
               "simulators whose random numbers cannot be controlled through numpy's seed and default_rng are discarded"]

REG = {}


def entry(kind):
    def deco(fn):
        REG[fn.__name__.strip("_")] = (kind, fn)
        return fn
    return deco


def T(name):
    return importlib.import_module("most_queue.theory." + name)


class Run:
    """Collects results as (label, value, power of time) and checks that arguments are not changed."""

    def __init__(self, c):
        self.c, self.out, self.kept = c, [], []

    def call(self, fn, *a, **k):
        keep = copy.deepcopy((a, k))
        res = fn(*a, **k)
        self.kept.append((getattr(fn, '__qualname__', fn), (a, k), keep))
        require(same((a, k), keep), f"{getattr(fn, '__qualname__', fn)} changed its arguments: {a} {k}, given {keep}")
        return res

    def finish(self):
        """Arguments are still as given after everything that was done with the objects made of them."""
        for name, now, keep in self.kept:
            require(same(now, keep), f"the arguments of {name} were changed later: {now}, given {keep}")

    def add(self, label, x, power):
        for i, v in enumerate(flat(x)):
            self.out.append((f"{label}[{i}]", v, power))

    def mom(self, label, x):
        for i, v in enumerate(x):
            self.add(f"{label} {i + 1}", v, i + 1)

    def m(self, b):
        """Moments of a time in the unit."""
        return scaled(b, self.c)


def flat(x):
    if isinstance(x, (list, tuple, np.ndarray)):
        return [v for y in x for v in flat(y)]
    if x is None:
        return []
    return [complex(x)]


def same(a, b):
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        return type(a) is type(b) and a.shape == b.shape and bool((np.asarray(a) == np.asarray(b)).all())
    if isinstance(a, (list, tuple)):
        return type(a) is type(b) and len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, dict):
        return isinstance(b, dict) and a.keys() == b.keys() and all(same(a[k], b[k]) for k in a)
    if isinstance(a, (int, float, complex, str, bool, type(None))):
        return a == b
    return True


# ---- parameters -------------------------------------------------------------------------------------------------

def law(p, num=4):
    """Unit-mean moments: a mixture of exponentials (wide) or of Erlang phases."""
    x = mixture_moments([(w, 1 if p["wide"] else r, mean / 8) for w, r, mean in p["phases"]], num)
    return scaled(x, 1 / x[0])


def h2(p):
    """(y, mu1, mu2) with mean 1."""
    y, a, b = p["y"] / 16, p["m1"] / 8, p["m2"] / 8
    m = y / a + (1 - y) / b
    return [y, a * m, b * m]


class P:
    def __init__(self, case):
        self.case = case
        self.n = case["n"]
        self.K = case["K"]
        self.rho = case["rho"] / 64
        self.laws = [law(p, 5) for p in case["laws"]]
        self.h2 = [h2(p) for p in case["h2"]]
        self.w = [x / sum(case["w"][:self.K]) for x in case["w"][:self.K]]
        self.means = [x / 8 for x in case["means"]]

    def b(self, i, num=4, mean=1.0):
        return scaled(self.laws[i % len(self.laws)][:num], mean)

    def hb(self, i, num=4, mean=1.0):
        y, a, b = self.h2[i % len(self.h2)]
        return [mean ** k * math.factorial(k) * (y / a ** k + (1 - y) / b ** k) for k in range(1, num + 1)]

    def classes(self, num, n=1):
        """Intensities and unit-1 service moments of K classes with total load rho."""
        b = [self.b(i, num, self.means[i]) for i in range(self.K)]
        return [n * self.rho * self.w[i] / b[i][0] for i in range(self.K)], b


# ---- calculations -----------------------------------------------------------------------------------------------

@entry("calc")
def mg1(r, p):
    m, b = T("mg1_calc"), r.m(p.b(0))
    l = p.rho / r.c
    r.mom("w", r.call(m.get_w, l, b))
    r.mom("v", r.call(m.get_v, l, b))
    r.add("p", r.call(m.get_p, l, b[:2], 30, dist_type=p.case["dist"]), 0)


@entry("calc")
def mg1_warm(r, p):
    r.mom("v", r.call(T("mg1_warm_calc").get_v, p.rho / r.c, r.m(p.b(0)), r.m(p.b(1, mean=p.means[0]))))


@entry("calc")
def gi_m_1(r, p):
    m, a = T("gi_m_1_calc"), r.m(p.b(0))
    mu, d = 1 / p.rho / r.c, p.case["dist2"]
    r.mom("v", r.call(m.get_v, a, mu, approx_distr=d))
    r.mom("w", r.call(m.get_w, a, mu, approx_distr=d))
    r.add("p", r.call(m.get_p, a, mu, 30, approx_distr=d), 0)
    r.add("pi", r.call(m.get_pi, a, mu, 30, approx_distr=d), 0)


@entry("calc")
def gi_m_n(r, p):
    m, a = T("gi_m_n_calc"), r.m(p.b(0))
    mu, d = 1 / p.rho / p.n / r.c, p.case["dist2"]
    r.mom("v", r.call(m.get_v, a, mu, p.n, approx_distr=d))
    r.mom("w", r.call(m.get_w, a, mu, p.n, approx_distr=d))
    r.add("p", r.call(m.get_p, a, mu, p.n, approx_distr=d), 0)
    r.add("pi", r.call(m.get_pi, a, mu, p.n, approx_distr=d), 0)


@entry("calc")
def mmnr(r, p):
    m = T("mmnr_calc").MMnr_calc
    a = (2 * p.n * p.rho / r.c, 1 / r.c, p.n, p.case["r"])
    r.mom("w", r.call(m.get_w, *a))
    r.mom("v", r.call(m.get_v, *a))
    r.add("p", r.call(m.get_p, *a), 0)
    r.add("loss", r.call(m.getPI, *a), 0)
    r.add("queue", r.call(m.getQ, *a), 0)


@entry("calc")
def engset(r, p):
    def make():
        return T("engset_model").Engset(p.rho / r.c, 1 / r.c, p.case["r"] % 12 + 1)
    e = make()
    r.add("p", e.get_p(), 0)
    r.add("N", [e.get_N(), e.get_Q(), e.get_kg()], 0)
    r.add("rate", e.get_lamD(), -1)
    r.add("w1", [e.get_w1(), e.get_v1()], 1)
    r.mom("w", e.get_w())
    r.mom("v", e.get_v())
    f = make()                                       # every getter by itself
    for k, x in (("w", f.get_w), ("N", f.get_N)) if p.n == 1 else (("v", f.get_v), ("w1", f.get_w1)):
        got, want = x(), getattr(make(), "get_" + k)()
        require(same(flat(got), flat(want)), f"Engset.get_{k} depends on the getters called before")


@entry("calc")
def batch(r, p):
    w = p.case["w"][:p.K]
    probs = [x / sum(w) for x in w]
    L = sum((i + 1) * x for i, x in enumerate(probs))
    q = r.call(T("batch_mm1").BatchMM1, p.rho / L / r.c, 1 / r.c, probs)
    r.add("p", q.get_p(), 0)
    r.add("N", [q.get_N(), q.get_Q()], 0)
    r.add("w", [q.get_w1(), q.get_v1()], 1)


@entry("calc")
def impatience(r, p):
    m = T("impatience_calc")
    a = (4 * p.rho / r.c, 1 / r.c, p.means[0] / r.c)
    r.add("p", r.call(m.get_p, *a)[:40], 0)
    r.add("N", [m.get_N(*a), m.get_Q(*a)], 0)
    r.add("w", [m.get_w1(*a), m.get_v1(*a)], 1)


@entry("calc")
def mdn(r, p):
    r.add("p", T("m_d_n_calc").M_D_n(p.rho * p.n / r.c, r.c, p.n).calc_p(), 0)


@entry("calc")
def ekdn(r, p):
    k = p.case["r"] % 4 + 1
    r.add("p", T("ek_d_n_calc").Ek_D_n(k * p.rho * p.n / r.c, k, r.c, p.n).calc_p(), 0)


@entry("calc")
def mgn(r, p):
    kw = {"buffer": p.case["r"] % 8} if p.case["finite"] else {"N": 80}
    q = r.call(T("mgn_tt").MGnCalc, p.n, p.rho * p.n / r.c, r.m(p.hb(0)), accuracy=1e-9, **kw)
    q.run()
    r.mom("w", q.get_w())
    r.mom("v", q.get_v())
    r.add("p", q.get_p()[:20], 0)


@entry("calc")
def h2warm(r, p):
    kw = {"buffer": p.case["r"] % 8} if p.case["finite"] else {"N": 80}
    q = r.call(T("m_h2_h2warm").Mh2h2Warm, p.rho * p.n / r.c, r.m(p.hb(0)), r.m(p.hb(1, mean=p.means[0])), p.n, accuracy=1e-9, **kw)
    q.run()
    r.mom("w", q.get_w())
    r.mom("v", q.get_v())
    r.add("p", q.get_p()[:20], 0)


@entry("calc")
def cold_delay(r, p):
    q = r.call(T("mgn_with_h2_delay_cold_warm").MGnH2ServingColdWarmDelay, p.rho * p.n / r.c, r.m(p.hb(0)), r.m(p.hb(1, mean=p.means[0])),
               r.m(p.hb(2, mean=p.means[1])), r.m(p.hb(3, mean=p.means[2])), min(p.n, 2), N=60, accuracy=1e-9)
    q.run()
    r.mom("w", q.get_w())
    r.mom("v", q.get_v())
    r.add("p", q.get_p()[:20], 0)
    r.add("vacation", [q.get_cold_prob(), q.get_warmup_prob(), q.get_cold_delay_prob()], 0)


@entry("calc")
def cold_warm(r, p):
    q = r.call(T("mmn_with_h2_cold_and_h2_warmup").MMn_H2warm_H2cold, p.rho * p.n / r.c, 1 / r.c, r.m(p.hb(1, mean=p.means[0])),
               r.m(p.hb(2, mean=p.means[1])), p.n, N=60, accuracy=1e-9)
    q.run()
    r.mom("w", q.get_w())
    r.mom("v", q.get_v())
    r.add("p", q.get_p()[:20], 0)
    r.add("vacation", [q.get_cold_prob(), q.get_warmup_prob()], 0)


@entry("calc")
def prty2(r, p):
    mL, mH = 1 / p.means[0], 1 / p.means[1]
    q = T("mmn_prty_pnz_approx").MMn_PRTY_PNZ_Cox_approx(p.n, mL / r.c, mH / r.c, p.n * p.rho * p.w[0] * mL / r.c, p.n * p.rho * (1 - p.w[0]) * mH / r.c,
                                                         N=80, accuracy=1e-9)
    q.run()
    r.add("v", q.get_second_class_v1(), 1)
    r.add("p", q.get_p()[:20], 0)


@entry("calc")
def prty_ph(r, p):
    y, m1, m2 = p.h2[0]
    y = min(max(y, 0.1), 0.9)
    bH = 1 / m1 + y / m2
    mL = 1 / p.means[0]
    n = min(p.n, 2)
    q = T("m_ph_n_prty").m_ph_n_prty(mL / r.c, m1 / r.c, m2 / r.c, y, n * p.rho * p.w[0] * mL / r.c, n * p.rho * (1 - p.w[0]) / bH / r.c, n, N=60,
                                     max_iter=2000, verbose=False)
    q.run()
    if q.run_iterations_num_ >= 2000:
        raise Discard("not converged")
    r.add("v", q.get_low_class_v1(), 1)
    r.add("p", q.get_p()[:20], 0)


@entry("calc")
def prty3(r, p):
    mu = [1 / x for x in p.means[:3]]
    w = p.case["w"][:3]
    l = [2 * p.rho * x / sum(w) * m for x, m in zip(w, mu)]
    q = T("mmn3_pnz_cox_approx").Mmn3_pnz_cox(*[x / r.c for x in mu + l], N=60)
    q.run()
    r.add("v", q.get_low_class_v1(), 1)
    r.add("p", q.get_p()[:20], 0)


@entry("calc")
def priority(r, p):
    m = T("priority_calc")
    l, b = p.classes(5)
    l, b = [x / r.c for x in l], [r.m(x) for x in b]
    r.add("w1", [r.call(m.get_w1_pr, l, b), r.call(m.get_w1_np, l, b)], 1)
    for i, x in enumerate(r.call(m.climov_w_pr_calc, l, b)):
        r.mom(f"climov {i}", x)
    pr = r.call(m.calc_pr1, l, b)
    for k, v in (pr.items() if isinstance(pr, dict) else [("calc_pr1", pr)]):
        if k in ("v", "w", "h", "pi", "Π", "calc_pr1"):
            for i, x in enumerate(v):
                if isinstance(x, (list, tuple, np.ndarray)):
                    r.mom(f"calc_pr1 {k} {i}", x)
    for i, x in enumerate(r.call(m.get_v_np, l, b)):
        r.mom(f"np {i}", x)
    for i, x in enumerate(r.call(m.get_w_mg1_bp, l, b)):
        r.mom(f"bp {i}", x)
    for i, x in enumerate(r.call(m.get_v_mg1_bp, l, b)):
        r.mom(f"v bp {i}", x)
    r.mom("busy", r.call(m.ppnz_calc, l[0], b[0]))
    r.mom("busy warm", r.call(m.ppnz_calc_warm_up, l[0], b[0], b[-1]))


@entry("calc")
def priority_n(r, p):
    m = T("priority_calc")
    l, b = p.classes(4, p.n)
    b = [p.hb(i, 4, p.means[i]) for i in range(p.K)]
    l, b = [x / r.c for x in l], [r.m(x) for x in b]
    t = "PR" if p.case["finite"] else "NP"
    for i, x in enumerate(r.call(m.get_w_prty_invar, l, b, p.n, t)):
        r.mom(f"w {t} {i}", x)
    for i, x in enumerate(r.call(m.get_v_prty_invar, l, b, p.n, t)):
        r.mom(f"v {t} {i}", x)
    r.mom("w no", np.asarray(r.call(m.get_w_MxGn_no_pr, l, b, p.n)).ravel()[:3])


@entry("calc")
def network(r, p):
    m, K, N = T("network_calc"), min(p.K, 2), 2
    q = p.case["route"]
    R = []
    for k in range(K):
        a = q[4 * k:4 * k + 4]
        M = np.array([[1 + a[0], 1 + a[1], 0], [a[2] % 3, a[3], 1 + a[0]], [a[1], 0, 2]], float)
        R.append(np.matrix(M / M.sum(axis=1, keepdims=True)))
    b = [[p.hb(k + 2 * i, 4, p.means[(k + i) % 4]) for i in range(N)] for k in range(K)]
    lam = [m.balance_equation(1.0, x) for x in R]
    f = p.rho / max(sum(lam[k][i] * b[k][i][0] for k in range(K)) / p.n for i in range(N))
    b = [[r.m(x) for x in y] for y in b]
    r.add("intensities", r.call(m.balance_equation, f / r.c, R[0]), -1)
    res = r.call(m.network_prty_calc, R, b, [p.n] * N, [f / r.c] * K, ["PR", "NP"], [list(range(K)), list(range(K))[::-1]])
    r.add("loads", res["loads"], 0)
    for k in range(K):
        r.mom(f"v {k}", res["v"][k])
        for i in range(N):
            r.mom(f"node {i} class {k}", res["v_node"][i][k])


@entry("calc")
def forkjoin(r, p):
    m, b = T("fj_calc"), r.m(p.hb(0))
    n = p.n + 1
    r.mom("max", r.call(m.getMaxMoments, n, b))
    r.mom("max gamma", r.call(m.getMaxMomentsDelta, n, r.m(p.b(0)), 3, [x * r.c ** (i + 1) for i, x in enumerate(p.b(1, 3, p.means[0]))]))
    r.mom("branches", r.call(m.get_v_fj_max, p.rho / r.c, b, n))
    a = (p.rho / r.c, 1 / r.c, n)
    r.add("mean", [r.call(f, *a) for f in (m.get_v1_fj_varma, m.get_v1_fj_nelson_tantawi, m.get_v1_fj_varki_merchant, m.get_v1_fj_invar)]
          + [r.call(f, *a, 2) for f in (m.get_v1_varma_nk, m.get_v1_fj_nelson_nk)], 1)


@entry("calc")
def fits(r, p):
    rd = importlib.import_module("most_queue.rand_distribution")
    b, w = r.m(p.hb(0)), r.m(p.b(1))
    for name, dims in (("H2_dist", (0, -1, -1)), ("Cox_dist", (0, -1, -1))):
        d = getattr(rd, name)
        q = r.call(d.get_params, b)
        for i, (x, k) in enumerate(zip(q, dims)):
            r.add(f"{name} {i}", x, k)
        r.mom(f"{name} moments", r.call(d.calc_theory_moments, *q)[:3])
    q = r.call(rd.Gamma.get_mu_alpha, w)
    r.add("gamma", q[0], -1)
    r.add("gamma", q[1], 0)
    q = r.call(rd.Pareto_dist.get_a_k, w)
    r.add("Pareto", q[0], 0)
    r.add("Pareto", q[1], 1)
    q = r.call(rd.Uniform_dist.get_params, w) if hasattr(rd.Uniform_dist, "get_params") else [0]
    r.add("uniform", q, 1)
    q = r.call(rd.Erlang_dist.get_params, w)
    r.add("Erlang", q[0], 0)
    r.add("Erlang", q[1], -1)


@entry("calc")
def flows(r, p):
    S = T("utils.flow_sum").SummatorNumeric
    a = [r.m(p.hb(i, 4, p.means[i])) for i in range(p.K)]
    with_semi = p.case["finite"]
    s = r.call(S, a, is_semi=with_semi)
    s.sum_flows()
    for i, x in enumerate(s.flows_):
        r.mom(f"flow {i}", x)


@entry("calc")
def passage(r, p):
    f = T("utils.passage_time").passage_time_calc
    n = 3
    g = np.array(p.case["route"] + p.case["route"][::-1], float)[:12] + 0.5
    A = [np.diag(g[i:i + 2])[:2, :2] * p.rho for i in range(n)]
    B = [np.array([[g[i + 3], 0.5], [0.25, g[i + 4]]]) for i in range(n)]
    C = [np.array([[0, g[i + 5]], [g[i + 6] / 2, 0]]) for i in range(n)]
    D = [np.diag((A[i] + B[i] + C[i]).sum(axis=1)) for i in range(n)]
    # stable at the upper levels
    A = [a / 8 for a in A]
    D = [np.diag((A[i] + B[i] + C[i]).sum(axis=1)) for i in range(n)]
    q = T("utils.passage_time").passage_time_calc
    args = [[x / r.c for x in m] for m in (A, B, C, D)]
    keep = copy.deepcopy(args)
    pt = q(*args)
    pt.calc()
    require(same(args, keep), "passage_time_calc changed the matrices given")
    r.add("G", [np.asarray(x) for x in pt.G], 0)
    for x in pt.Gr:
        r.mom("Gr", x)


# ---- simulators -------------------------------------------------------------------------------------------------

def source(p, i, mean, c):
    """(params, notation) of a distribution of the given mean."""
    k = p.case["kinds"][i % len(p.case["kinds"])]
    mean = mean * c
    if k == "M":
        return 1 / mean, "M"
    if k == "H":
        y, a, b = p.h2[i % len(p.h2)]
        return [y, a / mean, b / mean], "H"
    if k == "E":
        r = p.case["r"] % 5 + 1
        return [r, r / mean], "E"
    if k == "Gamma":
        return [p.means[0] / mean, p.means[0]], "Gamma"
    if k == "U":
        return [mean, mean / 2], "Uniform"
    if k == "Pa":
        return [2.5, mean * 0.6], "Pa"
    if k == "C":
        y, a, b = p.h2[i % len(p.h2)]
        return [y, (1 + y) / mean, (1 + y) / mean], "C"
    return mean, "D"


def classwise(p, c, means, first):
    out = []
    for i, m in enumerate(means):
        q, t = source(p, first + i, m, c)
        out.append({"type": t, "params": q})
    return out


def done(r, q, classes=None):
    for name in ("v", "w"):
        x = getattr(q, name, None)
        if x is None:
            continue
        for i, y in enumerate(x if classes else [x]):
            r.mom(f"{name} {i}", y)
    p = q.get_p()
    for i, y in enumerate(p if classes and isinstance(p[0], (list, np.ndarray)) else [p]):
        r.add(f"p {i}", list(y)[:30], 0)
    for k in ("ttek",):
        r.add(k, getattr(q, k), 1)
    for k in ("arrived", "dropped", "served", "taked", "in_sys"):
        v = getattr(q, k, None)
        if v is not None:
            r.add(k, v, 0)


@entry("sim")
def sim_queue(r, p):
    m = importlib.import_module("most_queue.sim.qs_sim")
    q = m.QueueingSystemSimulator(p.n, buffer=p.case["r"] % 6 if p.case["finite"] else None, buffer_type="deque" if p.n == 2 else "list", verbose=False)
    r.call(q.set_sources, *source(p, 0, 1 / p.rho / p.n, r.c))
    r.call(q.set_servers, *source(p, 1, 1, r.c))
    if p.case["vacation"] > 0:
        q.set_warm(*source(p, 2, p.means[0], r.c))
    if p.case["vacation"] > 1:
        q.set_cold(*source(p, 3, p.means[1], r.c))
    if p.case["vacation"] > 2:
        q.set_cold_delay(*source(p, 4, p.means[2], r.c))
    q.run(p.case["jobs"])
    done(r, q)
    if p.case["vacation"] > 2:
        r.add("vacation", [q.get_warmup_prob(), q.get_cold_prob(), q.get_cold_delay_prob()], 0)


@entry("sim")
def sim_batch(r, p):
    m = importlib.import_module("most_queue.sim.batch_sim")
    w = p.case["w"][:p.K]
    probs = [x / sum(w) for x in w]
    q = r.call(m.QueueingSystemBatchSim, p.n, probs, verbose=False)
    r.call(q.set_sources, *source(p, 0, sum((i + 1) * x for i, x in enumerate(probs)) / p.rho / p.n, r.c))
    r.call(q.set_servers, *source(p, 1, 1, r.c))
    q.run(p.case["jobs"])
    done(r, q)


@entry("sim")
def sim_impatient(r, p):
    m = importlib.import_module("most_queue.sim.impatient_queue_sim")
    q = m.ImpatientQueueSim(p.n, verbose=False)
    r.call(q.set_sources, *source(p, 0, 1 / p.rho / p.n, r.c))
    r.call(q.set_servers, *source(p, 1, 1, r.c))
    q.set_impatiens(*source(p, 2, p.means[0], r.c))
    q.run(p.case["jobs"])
    done(r, q)


@entry("sim")
def sim_finite(r, p):
    m = importlib.import_module("most_queue.sim.queue_finite_source_sim")
    q = m.QueueingFiniteSourceSim(p.n, p.case["r"] % 8 + p.n, verbose=False)
    r.call(q.set_sources, *source(p, 0, p.means[0], r.c))
    r.call(q.set_servers, *source(p, 1, 1, r.c))
    q.run(p.case["jobs"])
    done(r, q)


@entry("sim")
def sim_priority(r, p):
    m = importlib.import_module("most_queue.sim.priority_queue_sim")
    q = m.PriorityQueueSimulator(p.n, p.K, p.case["disc"])
    r.call(q.set_sources, classwise(p, r.c, [p.means[i] / p.rho / p.n / p.w[i] for i in range(p.K)], 0))
    r.call(q.set_servers, classwise(p, r.c, p.means[:p.K], 3))
    q.run(p.case["jobs"])
    done(r, q, True)


@entry("sim")
def sim_network(r, p):
    m = importlib.import_module("most_queue.sim.priority_network")
    K, N = min(p.K, 2), 2
    R = np.matrix([[0.5, 0.5, 0], [0.25, 0.25, 0.5], [0.25, 0, 0.75]])
    q = m.PriorityNetwork(K, [0.5 * p.rho / K / r.c] * K, [R] * K, [p.n] * N, ["PR", "NP"],
                          [classwise(p, r.c, p.means[:K], 3 * i) for i in range(N)], [list(range(K))] * N)
    q.run(p.case["jobs"])
    for k in range(K):
        r.mom(f"v {k}", q.v_network[k])
        r.mom(f"w {k}", q.w_network[k])
    r.add("ttek", q.ttek, 1)
    r.add("counts", [q.arrived, q.served], 0)


@entry("sim")
def sim_forkjoin(r, p):
    m = importlib.import_module("most_queue.sim.fj_sim")
    n = p.n + 1
    q = m.ForkJoinSim(n, max(1, n - p.case["r"] % 2) if p.case["finite"] else n, is_SJ=p.case["vacation"] == 1, is_Purge=p.case["vacation"] == 2)
    r.call(q.set_sources, *source(p, 0, 3 / p.rho, r.c))
    r.call(q.set_servers, *source(p, 1, 1, r.c))
    q.run(p.case["jobs"])
    done(r, q)


@entry("sim")
def sim_delta(r, p):
    m = importlib.import_module("most_queue.sim.fj_delta_sim")
    d = p.means[0] * r.c if p.case["finite"] else r.m(p.b(0, 3, p.means[0]))
    q = r.call(m.ForkJoinSimDelta, p.n + 1, p.n + 1, d, p.case["vacation"] == 1)
    r.call(q.set_sources, *source(p, 0, 6 / p.rho, r.c))
    r.call(q.set_servers, *source(p, 1, 1, r.c))
    q.run(p.case["jobs"])
    done(r, q)


@entry("sim")
def sim_flows(r, p):
    m = importlib.import_module("most_queue.sim.flow_sum_sim")
    q = r.call(m.FlowSumSim, [r.m(p.hb(i, 4, p.means[i])) for i in range(p.K)], distr="H" if p.case["finite"] else "Gamma", verbose=False, num_of_jobs=p.case["jobs"])
    q.sum_flows()
    for i, x in enumerate(q.flows_):
        r.mom(f"flow {i}", x)


# ---- execution --------------------------------------------------------------------------------------------------

@contextlib.contextmanager
def seeded(seed):
    """Every generator asked of numpy without a seed is a function of the case."""
    old = np.random.default_rng
    count = [0]

    def rng(s=None, *a, **k):
        if s is None:
            count[0] += 1
            s = [seed, count[0]]
        return old(s, *a, **k)
    state, state2 = np.random.get_state(), random.getstate()
    np.random.default_rng = rng
    np.random.seed(seed % 2 ** 32)
    random.seed(seed)
    try:
        with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
            yield
    finally:
        np.random.default_rng = old
        np.random.set_state(state)
        random.setstate(state2)


def execute(name, case, c):
    r = Run(c)
    with seeded(case["seed"]):
        REG[name][1](r, P(case))
        r.finish()
    return r.out


def bad(out):
    return not out or not all(math.isfinite(abs(v)) for _, v, _ in out)


def first(name, case):
    try:
        out = run_or_discard(lambda: execute(name, case, 1.0), 6)
    except (Discard, CpuGuard):
        raise
    except (ArithmeticError, ValueError, IndexError, np.linalg.LinAlgError) as e:
        raise Discard(f"fails in unit 1: {e!r}")
    if bad(out):
        raise Discard("not finite in unit 1")
    return out


def compare(a, b, c, what, rtol):
    require([x[0] for x in a] == [x[0] for x in b], f"{what}: different results {len(a)} and {len(b)} in number")
    for (label, x, k), (_, y, _) in zip(a, b):
        y = y / c ** k
        require_close(y, x, f"{what}: {label}", rtol=rtol, atol=rtol * 1e-4)


def test_units(case):
    name = case["name"]
    c = 2.0 ** case["unit"]
    a = first(name, case)
    again = run_or_discard(lambda: execute(name, case, 1.0), 6)
    kind = REG[name][0]
    if kind == "sim" and [x[1] for x in a] != [x[1] for x in again]:
        again2 = execute(name, case, 1.0)
        if [x[1] for x in again] != [x[1] for x in again2]:
            raise Discard("random numbers cannot be controlled")
    compare(a, again, 1.0, f"{name} repeated", 1e-12)
    b = run_or_discard(lambda: execute(name, case, c), 6)
    compare(a, b, c, f"{name} with times multiplied by {c:g}", 1e-9 if kind == "sim" else 1e-5)
    return case["unit"] != 0


@functools.cache
def preload():
    """Imports the package once in the parent, so that the forked processes need not."""
    import pkgutil
    import most_queue
    for mod in pkgutil.walk_packages(most_queue.__path__, "most_queue."):
        if not any(x in mod.name for x in (".tests", ".misc", "tutorials")):
            try:
                importlib.import_module(mod.name)
            except Exception:
                pass


def forked(steps, limit=6):
    """Runs the steps (name, case) in a forked process; results of the last one."""
    preload()
    rd, wr = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 0
        try:
            os.close(rd)
            for timer, sig in ((signal.ITIMER_PROF, signal.SIGPROF), (signal.ITIMER_VIRTUAL, signal.SIGVTALRM)):
                signal.setitimer(timer, 0)
                signal.signal(sig, signal.SIG_DFL)
            signal.signal(signal.SIGALRM, signal.SIG_DFL)
            signal.setitimer(signal.ITIMER_REAL, limit)            # ends the process
            res = None
            for name, case in steps:
                try:
                    res = execute(name, case, 1.0)
                except (ArithmeticError, ValueError, IndexError, np.linalg.LinAlgError) as e:
                    res = [("failed: " + type(e).__name__, 0j, 0)]
            with os.fdopen(wr, "wb") as f:
                pickle.dump(res, f)
        except BaseException as e:                             # reported to the parent
            try:
                with os.fdopen(wr, "wb") as f:
                    pickle.dump(("error", repr(e)), f)
            except OSError:
                code = 1
        finally:
            os._exit(code)
    os.close(wr)
    with os.fdopen(rd, "rb") as f:
        data = f.read()
    os.waitpid(pid, 0)
    if not data:
        raise Discard("no answer from the process")
    return pickle.loads(data)


def test_history(case):
    steps = [(s["name"], s) for s in case["steps"]]
    last = steps[-1]
    alone = forked([last])
    if isinstance(alone, tuple) or alone[0][0].startswith("failed"):
        raise Discard(f"the call alone fails: {alone[:1]}")
    if REG[last[0]][0] == "sim":
        again = forked([last])
        if again != alone:
            raise Discard("random numbers cannot be controlled")
    after = forked(steps, 9)
    what = f"{last[0]} after {[s[0] for s in steps[:-1]]}"
    require(not isinstance(after, tuple) and not after[0][0].startswith("failed"), f"{what}: {after[:2]}, alone it works")
    require(len(after) == len(alone), f"{what}: number of results")
    for (label, x, _), (_, y, _) in zip(alone, after):
        if not (x != x and y != y):
            require_close(y, x, f"{what}: {label}, in a fresh process", rtol=1e-12, atol=1e-300)
    return len(steps) > 1


one = st.fixed_dictionaries({"wide": st.booleans(), "phases": st.lists(st.tuples(st.integers(1, 9), st.integers(1, 4), st.integers(2, 40)), min_size=2, max_size=3)})
two = st.fixed_dictionaries({"y": st.integers(1, 15), "m1": st.integers(1, 12), "m2": st.integers(14, 60)})


def params(names):
    return st.fixed_dictionaries({
        "name": st.sampled_from(sorted(names)), "n": st.integers(1, 3), "K": st.integers(2, 3), "rho": st.integers(8, 50), "r": st.integers(0, 30),
        "laws": st.lists(one, min_size=1, max_size=3), "h2": st.lists(two, min_size=1, max_size=3), "w": st.lists(st.integers(1, 9), min_size=4, max_size=4),
        "means": st.lists(st.integers(2, 24), min_size=4, max_size=4), "finite": st.booleans(), "dist": st.sampled_from(["Gamma", "Uniform", "Pa"]),
        "dist2": st.sampled_from(["Gamma", "Pa"]), "route": st.lists(st.integers(0, 4), min_size=12, max_size=12),
        "kinds": st.lists(st.sampled_from(["M", "M", "H", "E", "Gamma", "U", "Pa", "C", "D"]), min_size=2, max_size=6),
        "vacation": st.integers(0, 3), "disc": st.sampled_from(["PR", "RS", "RW", "NP", "No"]), "jobs": st.integers(5, 120), "seed": st.integers(0, 10 ** 6),
        "unit": st.integers(-14, 14)})


CALCS = [k for k, v in REG.items() if v[0] == "calc"]
SIMS = [k for k, v in REG.items() if v[0] == "sim"]

SUBS = [
    Sub("calculators", params(CALCS), test_units, 400, rule="another time unit"),
    Sub("simulators", params(SIMS), test_units, 300, rule="another time unit"),
    Sub("history", st.fixed_dictionaries({"steps": st.lists(params(CALCS + SIMS + SIMS), min_size=2, max_size=4)}), test_history, 160, rule="all"),
]

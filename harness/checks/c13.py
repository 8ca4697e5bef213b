"""C13: M/D/n and Ek/D/n state probabilities against the slot chain."""
import numpy as np
from hypothesis import strategies as st
from scipy import stats

from ..core import Discard, Sub, require, require_close

PROPERTY = "C13"
RULE = ("channels 1-30, Erlang orders 1-8 with order*channels <= 36, loads 1/32..30/32, time units 1e-4..1e4; compared with the dense "
        "stationary solution of the chain observed every service time (state = customers and completed phases of the next arrival)")
ASSUMPTIONS = ["order*channels at most 36 (beyond it the roots of the generating function are too close to each other)",
               "more probabilities than channels are requested"]


def slot_chain(lb, k, n):
    """Stationary law of the number of completed arrival phases in the system, at multiples of the service time."""
    rho = lb / k / n
    M = n * k + 8 * k + int(32 / (1 - rho) * max(1.0, k ** 0.5) * rho) + int(lb + 9 * lb ** 0.5)
    if M > 1500:
        raise Discard("tail too long for the reference")
    a = stats.poisson.pmf(np.arange(M + 1), lb)
    tail = stats.poisson.sf(np.arange(-1, M + 1), lb)
    P = np.zeros((M + 1, M + 1))
    for s in range(M + 1):
        b = s - k * min(s // k, n)
        P[s, b:] = a[:M + 1 - b]
        P[s, M] += tail[M + 1 - b]
    A = P.T - np.eye(M + 1)
    A[0] = 1
    B = np.zeros(M + 1)
    B[0] = 1
    w = np.linalg.solve(A, B)
    w = np.append(w, np.zeros((-len(w)) % k))
    return w.reshape(-1, k).sum(axis=1)


def judge(p, want, what, num):
    require(len(p) == num, f"{what}: {len(p)} probabilities, asked for {num}")
    for i, x in enumerate(p):
        require_close(x, want[i] if i < len(want) - 8 else 0.0, f"{what}: p[{i}]", rtol=1e-5, atol=2e-6)
    require(min(p) >= -2e-6, f"{what}: negative probability {min(p)}")
    if num >= len(want):
        require_close(sum(p), 1.0, f"{what}: sum of the probabilities", rtol=1e-5)


def test_mdn(case):
    from most_queue.theory.ek_d_n_calc import Ek_D_n
    from most_queue.theory.m_d_n_calc import M_D_n
    n = case["n"]
    lb = n * case["rho"] / 32
    unit = 10.0 ** case["unit"]
    want = slot_chain(lb, 1, n)
    if case["default"]:
        p = M_D_n(lb / unit, unit, n).calc_p()
        num = 100
    else:
        num = n + 1 + case["num"]
        p = M_D_n(lb / unit, unit, n, p_num=num).calc_p()
    judge(p, want, f"M/D/{n}, load {case['rho'] / 32}", num)
    if case["default"] and n < 12:
        judge(Ek_D_n(lb / unit, 1, unit, n).calc_p(), want, f"E1/D/{n}", 100)
    return n > 1


def test_ekdn(case):
    from most_queue.theory.ek_d_n_calc import Ek_D_n
    n, k = case["n"], case["k"]
    while n * k > 36:
        n -= 1
    lb = n * k * case["rho"] / 32
    unit = 10.0 ** case["unit"]
    want = slot_chain(lb, k, n)
    if case["default"]:
        p = Ek_D_n(lb / unit, k, unit, n).calc_p()
        num = 100
    else:
        num = n + 1 + case["num"]
        p = Ek_D_n(lb / unit, k, unit, n, p_num=num).calc_p()
    judge(p, want, f"E{k}/D/{n}, load {case['rho'] / 32}", num)
    return n > 1 and k > 1


SUBS = [
    Sub("mdn", st.fixed_dictionaries({"n": st.integers(1, 30), "rho": st.integers(1, 30), "unit": st.integers(-4, 4), "num": st.integers(0, 60),
                                      "default": st.booleans()}), test_mdn, quick=300, thorough=6000, rule="non-trivial = several channels"),
    Sub("ekdn", st.fixed_dictionaries({"n": st.integers(1, 12), "k": st.integers(1, 8), "rho": st.integers(1, 30), "unit": st.integers(-4, 4),
                                       "num": st.integers(0, 60), "default": st.booleans()}), test_ekdn, quick=300, thorough=6000,
        rule="non-trivial = several channels and phases"),
]

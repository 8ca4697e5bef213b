"""C19: level-crossing probabilities and time moments against power series obtained by backward level elimination."""
import copy
import math

import numpy as np
from hypothesis import strategies as st

from ..core import Discard, Sub, require, require_close_seq
from ..series import busy, conv, lst, moments_of
from .c10 import mixture_moments

PROPERTY = "C19"
RULE = ("level chains with 1-4 phases, 1-5 different lower levels of 1-4 phases each and homogeneous levels above, integer rates with zero "
        "entries, negative drift (load up to 0.95), real and complex (H2 fit of cv < 1) phases, time units 1e-4..1e4, gaps of 1-6 levels; "
        "single-channel queues with Erlang/hyper-exponential service and M/M/n against the busy-period series")
ASSUMPTIONS = ["cases with more than 300 transitions per passage are discarded (the error of the iterations is amplified by their number)",
               "cases whose drift is within 5 % of zero are discarded (the iterations of the code converge linearly)",
               "conditional moments are compared where the crossing probability exceeds 1e-3"]


def inv_series(M):
    """Inverse of a matrix power series [M0, M1, ..]."""
    x0 = np.linalg.inv(M[0])
    out = [x0]
    for k in range(1, len(M)):
        out.append(-x0 @ sum(M[j] @ out[k - j] for j in range(1, k + 1)))
    return out


def mul(a, b):
    return [sum(a[j] @ b[k - j] for j in range(k + 1)) for k in range(len(a))]


def crossing(A, B, C, D, lt, extra=4000):
    """Series (order 3) of G_k(s), k = lt .. 1, for the passage from level k to level k - 1."""
    def step(i, up):
        M = [D[i] - C[i], np.eye(len(D[i])), np.zeros_like(D[i]), np.zeros_like(D[i])]
        if up is not None:
            M = [m - A[i] @ g for m, g in zip(M, up)]
        return [x @ B[i] for x in inv_series(M)]
    g = None
    old = None
    for it in range(extra):
        g = step(lt, g)
        if old is not None and max(np.abs(a - b).max() / (1e-300 + np.abs(a).max()) for a, b in zip(g, old)) < 1e-14:
            break
        old = g
    else:
        raise Discard("the reference iteration converges slowly")
    G = {lt: g}
    for k in range(lt - 1, 0, -1):
        G[k] = step(k, G[k + 1])
    return G


def derivs(g):
    return [(-1) ** k * math.factorial(k) * g[k] for k in range(1, 4)]


def check(pt, G, lt, gaps, u, what, rtol, gap_rtol=None):
    def comp(got, want, name, power, scale=None):
        got = np.asarray(got) / u ** power
        require(got.shape == want.shape, f"{what}: {name} has shape {got.shape}")
        tol = rtol * (scale if scale is not None else np.abs(want).max()) + 1e-14
        d = np.abs(got - want)
        require(np.isfinite(d).all() and d.max() <= tol, f"{what}: {name} = {got.tolist()}, expected {want.tolist()}")

    for k in range(1, lt + 1):
        g = G[k]
        comp(pt.G[k], g[0], f"G[{k}]", 0)
        for r, m in enumerate(derivs(g)):
            comp(pt.Gr[k][r], m, f"Gr[{k}][{r}]", r + 1)
            z = np.where(np.abs(g[0]) > 1e-3, m / np.where(np.abs(g[0]) > 1e-3, g[0], 1), 0)
            got = np.where(np.abs(g[0]) > 1e-3, np.asarray(pt.Z[k][r]), 0)
            comp(got, z, f"Z[{k}][{r}]", r + 1, 1e3 * np.abs(m).max())
    for a, b in gaps:
        g = G[min(a, lt)]
        for i in range(a - 1, b, -1):
            g = mul(g, G[min(i, lt)])
        comp(pt.G_gap_calc(a, b), g[0], f"G_gap({a}, {b})", 0)
        gr = pt.Gr_gap_calc(a, b)
        z = pt.Z_gap_calc(a, b)
        for r, m in enumerate(derivs(g)):
            comp(gr[r], m, f"Gr_gap({a}, {b})[{r}]", r + 1)
            big = np.abs(g[0]) > 1e-3
            comp(np.where(big, np.asarray(z[r]), 0), np.where(big, m / np.where(big, g[0], 1), 0), f"Z_gap({a}, {b})[{r}]", r + 1,
                 1e3 * np.abs(m).max())


def levels(case):
    lt = case["lt"]
    sizes = [1 + s % case["maxphase"] for s in case["sizes"]][:lt - 1]
    sizes += [case["phases"]] * (lt + 1 - len(sizes))
    it = iter(case["rates"] * 40)

    def block(r, c):
        return np.array([[float(next(it)) for _ in range(c)] for _ in range(r)])
    A, B, C, D = [], [], [], []
    for k in range(lt + 1):
        m = sizes[k]
        up = block(m, sizes[k + 1] if k < lt else m) * case["up"] / 16
        down = block(m, sizes[k - 1]) if k else np.zeros((m, m))
        loc = block(m, m)
        np.fill_diagonal(loc, 0)
        for i in range(m):                                  # a cycle of phases, and some way down, keep every level transient
            if m > 1:
                loc[i, (i + 1) % m] += 0.25
            if k and i == 0 and not down[0].any():
                down[0, 0] += 1
        A.append(up), B.append(down), C.append(loc)
        D.append(np.diag(up.sum(axis=1) + down.sum(axis=1) + loc.sum(axis=1)))
    for k in range(lt + 1):
        for i in range(sizes[k]):
            if D[k][i, i] == 0:
                C[k][i, i] = 0
    return A, B, C, D


def drift(A, B, C):
    Q = A + B + C
    Q = Q - np.diag(Q.sum(axis=1))
    M = Q.T.copy()
    M[0] = 1
    p = np.linalg.solve(M, np.eye(len(M))[:, 0])
    return (p @ A).sum(), (p @ B).sum()


def test_random(case):
    from most_queue.theory.utils.passage_time import passage_time_calc
    A, B, C, D = levels(case)
    lt = case["lt"]
    up, down = drift(A[lt], B[lt], C[lt])
    if up > 0.95 * down:
        raise Discard("no negative drift")
    G = crossing(A, B, C, D, lt)
    if max(derivs(G[k])[0].sum(axis=1).max() for k in G) * max(d.max() for d in D) > 300:
        raise Discard("more than 300 transitions to the next level below (errors of the iteration are amplified)")
    u = 10.0 ** case["unit"]
    cx = case["clx"]
    data = [[x.astype(complex) / u if cx else x / u for x in m] for m in (A, B, C, D)]
    given = copy.deepcopy(data)
    if case["int0"] and not cx:                                         # the unused matrix below level 0 as plain integers
        data[1][0] = np.zeros(data[1][0].shape, int)
    if case["pad"]:                                         # more levels given than needed
        data = [m + [m[-1]] * case["pad"] for m in data]
        pt = passage_time_calc(*data, is_clx=cx, l_tilda=lt)
    else:
        pt = passage_time_calc(*data, is_clx=cx)
    pt.calc()
    for m, n in zip(data, given):
        for x, y in zip(m, n):
            require((x == y).all(), "the transition matrices given by the caller were changed")
    gaps = [(b + 1 + a, b) for a, b in case["gaps"]]
    what = f"A={[x.tolist() for x in A]}, B={[x.tolist() for x in B]}, C={[x.tolist() for x in C]}, unit {u:g}"
    check(pt, G, lt, gaps, u, what, 1e-5)
    for k in range(1, lt + 1):
        require(np.abs(np.asarray(pt.G[k]).sum(axis=1) - 1).max() < 2e-5, f"{what}: rows of G[{k}] do not sum to one")
    return any(len(x) > 1 for x in A) and len({len(x) for x in A}) + case["lt"] > 2


def test_queue(case):
    """M/G/1 (phases) and M/M/n: level crossing times are busy periods."""
    from most_queue.theory.utils.passage_time import passage_time_calc
    u = 10.0 ** case["unit"]
    rho = case["rho"] / 64
    if case["kind"] == "mmn":
        n = case["n"]
        mu = 1.0
        l = rho * n * mu
        A = [np.array([[l]], complex) for _ in range(n + 1)]
        B = [np.array([[k * mu]], complex) for k in range(n + 1)]
        C = [np.zeros((1, 1), complex) for _ in range(n + 1)]
        D = [a + b for a, b in zip(A, B)]
        lt = n
        b = [math.factorial(k) / (n * mu) ** k for k in range(1, 6)]
        start = None
    else:
        w = case["weights"]
        y = np.array([x / sum(w) for x in w], complex)
        mu = np.array([x / 8 for x in case["mus"][:len(w)]], complex)
        if case["kind"] == "h2c":                            # complex conjugate phases
            z = case["angle"] / 16
            y = np.array([0.5 + 0.5j * z, 0.5 - 0.5j * z])
            mu = np.array([2 + 1j * z, 2 - 1j * z]) * mu[0].real
        b = [math.factorial(k) * (y / mu ** k).sum().real for k in range(1, 6)]
        l = rho / b[0]
        m = len(y)
        A = [l * y[None, :], l * np.eye(m), l * np.eye(m)]
        B = [np.zeros((1, 1), complex), mu[:, None], mu[:, None] * y[None, :]]
        C = [np.zeros((1, 1), complex), np.zeros((m, m), complex), np.zeros((m, m), complex)]
        D = [np.array([[l]], complex), np.diag(l + mu), np.diag(l + mu)]
        A = [a.astype(complex) for a in A]
        lt = 2
        start = y
    nu = moments_of(busy(l, lst(b, 3)), 3)
    pt = passage_time_calc(*[[x / u for x in m] for m in (A, B, C, D)])
    pt.calc()
    what = f"{case['kind']}, l={l}, b={b[:3]}, unit {u:g}"
    for top, lo in ((1, 0), (3, 0), (5, 1), (5, 4)):
        if case["kind"] == "mmn":
            lo += lt - 1
            top += lt - 1
            if lo < 0:
                continue
        gr = pt.Gr_gap_calc(top, lo) if top > lo + 1 else pt.Gr[min(top, lt)]
        got = [(x if start is None else start @ np.asarray(x)).sum() for x in gr]
        want = nu
        for _ in range(top - lo - 1):
            want = conv(want, nu)
        if case["kind"] == "mmn" or start is not None:
            require_close_seq([complex(g).real / u ** (i + 1) for i, g in enumerate(got)], want, f"{what}: passage {top} -> {lo}", rtol=1e-5)
    return True


@st.composite
def random_cases(draw):
    lt = draw(st.integers(1, 5))
    return {"lt": lt, "maxphase": draw(st.integers(1, 4)), "phases": draw(st.integers(1, 4)),
            "sizes": draw(st.lists(st.integers(0, 11), min_size=lt, max_size=lt)),
            "rates": draw(st.lists(st.sampled_from([0, 0, 1, 1, 2, 3, 5, 8, 20]), min_size=7, max_size=67)),
            "up": draw(st.integers(1, 20)), "unit": draw(st.sampled_from([0, 0, -4, -2, 1, 4])), "clx": draw(st.booleans()),
            "int0": draw(st.booleans()), "pad": draw(st.sampled_from([0, 0, 1, 3])),
            "gaps": draw(st.lists(st.tuples(st.integers(1, 5), st.integers(0, 4)), min_size=1, max_size=3))}


@st.composite
def queue_cases(draw):
    return {"kind": draw(st.sampled_from(["mmn", "h2", "h2c"])), "n": draw(st.integers(1, 6)), "rho": draw(st.integers(3, 58)),
            "weights": draw(st.lists(st.integers(1, 9), min_size=1, max_size=3)),
            "mus": draw(st.lists(st.integers(2, 40), min_size=3, max_size=3)), "angle": draw(st.integers(1, 24)),
            "unit": draw(st.sampled_from([0, -4, 2]))}


SUBS = [Sub("random", random_cases(), test_random, 400, rule="several lower levels or several phases"),
        Sub("queue", queue_cases(), test_queue, 200, rule="all")]

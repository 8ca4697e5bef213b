"""C20: open priority networks by decomposition."""
import contextlib
import copy
import io
import math

import numpy as np
from hypothesis import strategies as st

from ..core import Discard, Sub, require, require_close, require_close_seq, run_or_discard
from .c01 import scaled
from .c10 import mixture_moments

PROPERTY = "C20"
RULE = ("1-4 nodes (flow balance: up to 8) with 1-4 channels, 1-4 classes, random routing with loops, feedback, forbidden entries and unreachable nodes, random priority "
        "permutations of every node, PR and NP nodes, loads 0.05..0.85, time units 1e-2..1e2; traffic by an independent linear solve, node "
        "times by the single-node formula (C17) with the classes sorted by hand, route sums by first-passage moment recursion, and again "
        "after renumbering nodes and classes; networks of one class by the Erlang C and Pollaczek-Khinchine formulas")
ASSUMPTIONS = ["every job enters some node and every node a class can reach has a way out",
               "node sojourn times of third order enter the network moment through the documented gamma fit of two moments",
               "nodes where fitting M/H2/n needs complex phases and does not converge within 8 s are discarded"]


def quiet(fn):
    def go():
        with contextlib.redirect_stdout(io.StringIO()):
            return fn()
    return run_or_discard(go, 8)


def routing(rows, m):
    """(m + 1) x (m + 1) matrix in the layout of the code: row 0 source, column m exit."""
    R = np.zeros((m + 1, m + 1))
    for i in range(m + 1):
        w = [float(x) for x in rows[i][:m + 1]]
        if i == 0:
            w[m] = 0.0
            if not any(w):
                w[0] = 1.0
        elif not any(w):
            w[m] = 1.0
        R[i] = np.array(w)
    for i in range(1, m + 1):                                   # a way out of every node
        todo, seen = [i], set()
        while todo:
            x = todo.pop()
            if x not in seen:
                seen.add(x)
                todo += [j + 1 for j in range(m) if R[x, j]]
        if not any(R[x, m] for x in seen):
            R[i, m] = 1.0
    return R / R.sum(axis=1, keepdims=True)


def reachable(R):
    m = len(R) - 1
    seen, todo = set(), [j for j in range(m) if R[0, j]]
    while todo:
        i = todo.pop()
        if i not in seen:
            seen.add(i)
            todo += [j for j in range(m) if R[i + 1, j]]
    return seen


def traffic(L, R):
    m = len(R) - 1
    r = sorted(reachable(R))
    A = np.eye(len(r)) - np.array([[R[j + 1, i] for j in r] for i in r])
    x = np.linalg.solve(A, [L * R[0, i] for i in r])
    out = np.zeros(m)
    out[r] = x
    return out


def route(R, t):
    """Moments of the total time over the route from node moments t[node] = (t1, t2, t3), node by node elimination."""
    m = len(R) - 1
    P, Q = R[0, :m], R[1:, :m]
    t = np.array(t).T
    I = np.eye(m)
    m1 = np.linalg.solve(I - Q, t[0])
    m2 = np.linalg.solve(I - Q, t[1] + 2 * t[0] * (Q @ m1))
    m3 = np.linalg.solve(I - Q, t[2] + 3 * t[1] * (Q @ m1) + 3 * t[0] * (Q @ m2))
    return [P @ m1, P @ m2, P @ m3]


def gamma3(v):
    c = v[1] / v[0] ** 2 - 1
    return [v[0], v[1], v[0] ** 3 * (1 + c) * (1 + 2 * c)]


def build(case):
    m, K = case["nodes"], case["classes"]
    R = [routing(case["rows"][k], m) for k in range(K)]
    L = [x / 8 for x in case["L"][:K]]
    lam = [traffic(l, r) for l, r in zip(L, R)]
    n = case["n"][:m]
    b = []
    for k in range(K):
        b.append([])
        for i in range(m):
            w = case["service"][(k * 4 + i) % len(case["service"])]
            x = mixture_moments([(a, r, d / 8) for a, r, d in w["phases"]], 4)
            b[k].append(scaled(x, w["mean"] / 16 / x[0]))
    load = max(sum(lam[k][i] * b[k][i][0] for k in range(K)) / n[i] for i in range(m))
    f = case["rho"] / 64 / load
    L = [l * f for l in L]
    lam = [x * f for x in lam]
    orders = []
    for i in range(m):
        p = list(range(K))
        for a, c in case["swaps"][i]:
            p[a % K], p[c % K] = p[c % K], p[a % K]
        orders.append(p)
    return m, K, R, L, lam, n, b, orders, case["prty"][:m]


def test_balance(case):
    from most_queue.theory.network_calc import balance_equation
    m = case["nodes"]
    R = [list(r) for r in case["rows"][0]]
    for i in case["dead"]:                                      # nodes nobody is sent to
        for r in R:
            r[i] = 0
    R = routing(R, m)
    L = case["L"][0] / 8
    want = traffic(L, R)
    given = np.matrix(R) if case["matrix"] else R.copy()
    got = balance_equation(L, given)
    require((np.asarray(given) == R).all(), "the routing matrix given by the caller was changed")
    require_close_seq(list(got), want.tolist(), f"intensities for L={L}, R={R.tolist()}", rtol=1e-9, atol=1e-9 * L)
    require_close(sum(g * R[i + 1, m] for i, g in enumerate(got)), L, f"flow out of the network, R={R.tolist()}", rtol=1e-9)
    return len(reachable(R)) > 1


def test_network(case):
    from most_queue.theory.network_calc import network_prty_calc
    from most_queue.theory.priority_calc import get_v_prty_invar
    m, K, R, L, lam, n, b, orders, prty = build(case)
    u = 10.0 ** case["unit"]
    Ru = [np.matrix(r) if case["matrix"] else r.copy() for r in R]
    args = [Ru, [[scaled(x, u) for x in y] for y in b], list(n), [x / u for x in L], list(prty), [list(p) for p in orders]]
    keep = copy.deepcopy(args)
    res = quiet(lambda: network_prty_calc(*args))
    for x, y in zip(args[1:], keep[1:]):
        require(x == y, "an argument was changed")
    what = f"{m} nodes, n={n}, R={[r.tolist() for r in R]}, L={L}, b={b}, {prty}, priorities {orders}, unit {u:g}"
    require_close_seq(list(res["loads"]), [sum(lam[k][i] * b[k][i][0] for k in range(K)) / n[i] for i in range(m)], f"{what}: loads", rtol=1e-9,
                      atol=1e-12)
    require(len(res["v_node"]) == m and len(res["v"]) == K, f"{what}: shape of the result")
    for i in range(m):
        by_rank = sorted(range(K), key=lambda k: orders[i][k])
        require(len(res["v_node"][i]) == K, f"{what}: classes of node {i}")
        if sum(lam[k][i] for k in range(K)) == 0:
            want = [b[k][i][:3] for k in by_rank]
        else:
            want = quiet(lambda: get_v_prty_invar([lam[k][i] for k in by_rank], [b[k][i] for k in by_rank], n[i], prty[i]))
        if not np.isfinite(want).all():
            raise Discard("the single-node formula is not defined here (degenerate fit)")
        for k, w in zip(by_rank, want):
            got = [x / u ** (j + 1) for j, x in enumerate(res["v_node"][i][k])]
            require_close_seq(got, list(w[:3]), f"{what}: sojourn of class {k} in node {i}", rtol=1e-4)
    for k in range(K):
        t = [gamma3([x / u ** (j + 1) for j, x in enumerate(res["v_node"][i][k])]) for i in range(m)]
        got = [x / u ** (j + 1) for j, x in enumerate(res["v"][k])]
        require_close_seq(got, route(R[k], t), f"{what}: network sojourn of class {k}", rtol=1e-7)
    if case["relabel"]:
        pn = sorted(range(m), key=lambda i: case["keys"][i])            # new node a is old pn[a]
        pk = sorted(range(K), key=lambda k: case["keys"][-1 - k])
        ext = [0] + [i + 1 for i in pn]
        R2 = [np.array([[R[k][a][pn[c] if c < m else m] for c in range(m + 1)] for a in ext]) for k in pk]
        res2 = quiet(lambda: network_prty_calc(R2, [[scaled(b[k][i], u) for i in pn] for k in pk], [n[i] for i in pn], [L[k] / u for k in pk],
                                               [prty[i] for i in pn], [[orders[i][k] for k in pk] for i in pn]))
        for a, k in enumerate(pk):
            require_close_seq([float(x) / u ** (j + 1) for j, x in enumerate(res2["v"][a])], [float(x) / u ** (j + 1) for j, x in enumerate(res["v"][k])],
                              f"{what}: class {k} after renumbering nodes {pn} and classes {pk}", rtol=1e-5)
    return K > 1 and m > 1


def erlang_wait(l, mu, n):
    a = l / mu
    s = sum(a ** k / math.factorial(k) for k in range(n))
    t = a ** n / math.factorial(n) * n / (n - a)
    return t / (s + t) / (n * mu - l)


def test_product(case):
    """One class. Exponential services: sum of the M/M/n means over the visits. Single channels: sum of the Pollaczek-Khinchine means."""
    from most_queue.rand_distribution import H2_dist
    from most_queue.theory.network_calc import network_prty_calc
    m = case["nodes"]
    R = routing(case["rows"][0], m)
    n = case["n"][:m] if case["matrix"] else [1] * m
    lam = traffic(1.0, R)
    if case["matrix"]:
        means = [w["mean"] / 16 for w in case["service"] * 4][:m]
        b = [[x ** k * math.factorial(k) for k in range(1, 5)] for x in means]
    else:
        b = []
        for w in (case["service"] * 4)[:m]:
            x = mixture_moments([(a, r, d / 8) for a, r, d in w["phases"]], 4)
            b.append(scaled(x, w["mean"] / 16 / x[0]))
            cv2 = x[1] / x[0] ** 2 - 1
            if cv2 < 0.2:
                raise Discard("far shape")
            if min(complex(z).real for z in H2_dist.get_params_clx(b[-1], verbose=False)[1:]) <= 0:
                raise Discard("the fit has a phase that never ends")
    f = min(case["rho"], 58 if case["matrix"] else 64) / 64 / max(lam[i] * b[i][0] / n[i] for i in range(m))
    l = f * lam
    res = quiet(lambda: network_prty_calc([R], [b], n, [f], case["prty"][:m], [[0]] * m))
    what = f"network R={R.tolist()}, b={b}, n={n}, L={f}"
    if case["matrix"]:
        # nearly exponential services are fitted with slightly complex moments
        v = [b[i][0] + (erlang_wait(l[i], 1 / b[i][0], n[i]) if l[i] else 0) for i in range(m)]
        require_close(float(res["v"][0][0]), sum(lam[i] * v[i] for i in range(m)), f"{what}: mean sojourn time", rtol=0.02)
    else:
        if not np.isfinite(res["v"][0]).all():
            raise Discard("degenerate fit")
        t = []
        for x, y in zip(b, l):
            w1 = y * x[1] / 2 / (1 - y * x[0])
            w2 = 2 * w1 ** 2 + y * x[2] / 3 / (1 - y * x[0])
            t.append(gamma3([x[0] + w1, x[1] + 2 * x[0] * w1 + w2]))
        require_close_seq([float(x) for x in res["v"][0]], route(R, t), f"{what}: sojourn moments", rtol=2e-3)
    return m > 1


one = st.fixed_dictionaries({"phases": st.one_of(st.lists(st.tuples(st.integers(1, 9), st.just(1), st.integers(1, 60)), min_size=2, max_size=3),
                                              st.lists(st.tuples(st.integers(1, 9), st.integers(1, 3), st.integers(1, 60)), min_size=1, max_size=3)),
                             "mean": st.integers(2, 48)})


def cases():
    row = st.lists(st.sampled_from([0, 0, 0, 1, 1, 2, 5]), min_size=6, max_size=6)
    return st.fixed_dictionaries({
        "nodes": st.integers(1, 4), "classes": st.integers(1, 4), "rows": st.lists(st.lists(row, min_size=5, max_size=5), min_size=4, max_size=4),
        "L": st.lists(st.integers(1, 24), min_size=4, max_size=4), "n": st.lists(st.integers(1, 4), min_size=4, max_size=4),
        "service": st.lists(one, min_size=1, max_size=6), "rho": st.integers(4, 54),
        "swaps": st.lists(st.lists(st.tuples(st.integers(0, 3), st.integers(0, 3)), max_size=3), min_size=4, max_size=4),
        "prty": st.lists(st.sampled_from(["PR", "NP"]), min_size=4, max_size=4), "unit": st.integers(-2, 2), "matrix": st.booleans(),
        "relabel": st.booleans(), "keys": st.lists(st.integers(0, 9), min_size=8, max_size=8)})


def balances():
    row = st.lists(st.sampled_from([0, 0, 0, 1, 1, 2, 5]), min_size=9, max_size=9)
    return st.fixed_dictionaries({"nodes": st.one_of(st.integers(1, 4), st.integers(3, 8)), "rows": st.lists(st.lists(row, min_size=9, max_size=9), min_size=1, max_size=1),
                                  "L": st.lists(st.integers(1, 24), min_size=1, max_size=1), "matrix": st.booleans(),
                                  "dead": st.lists(st.integers(0, 7), max_size=5, unique=True)})


SUBS = [Sub("balance", balances(), test_balance, 900, rule="two or more nodes visited"),
        Sub("network", cases(), test_network, 80, rule="several nodes and classes"),
        Sub("product", cases(), test_product, 80, rule="several nodes")]

"""C18: multichannel preemptive-priority models against an independent build and solution of the reduced chain, and exact special cases."""
import math

import numpy as np
from hypothesis import strategies as st

from ..core import Discard, run_or_discard, Sub, require, require_close, require_close_seq
from ..markov import build_levels, solve_levels
from ..series import Priority, busy, lst, moments_of
from .c19 import crossing, derivs

PROPERTY = "C18"
RULE = ("random rates of the classes, 1-4 channels, loads 1/16..0.85, Cox services of the high class with cv 0.7..4, busy periods fitted by Cox or "
        "H2 phases, time units 1e-3..1e3; the chain of low-class jobs with fitted busy periods is built and solved by level reduction; state "
        "probabilities of the high class alone, one channel and the untruncated two-dimensional chain are the second, third and fourth oracle")
ASSUMPTIONS = ["the two-phase fits are judged by C01; cases where a fit is sensitive to a relative change of 1e-6 of the moments are discarded",
               "levels: cases where the exact probability above the requested number of levels exceeds 1e-10 are discarded",
               "cases on which the iteration with complex phases does not converge within 4 s or max_iter iterations are discarded",
               "deviation from the untruncated chain (three moments of the busy period are kept): at most 3 % of the mean sojourn time",
               "calculate_v (commented out in the only caller) is not judged"]


ODD = []                                                     # fits of the current case that are no distributions (complex phases)


def fit(kind, m, **kw):
    """Phases of a fitted busy period: start probabilities, rates, probability to go on to the second phase."""
    from most_queue.rand_distribution import Cox_dist, H2_dist

    def one(x):
        if kind == "cox":
            y, a, b = Cox_dist.get_params(x, verbose=False, **kw)
            return [complex(z) for z in (y, a, b)]
        return [complex(z) for z in H2_dist.get_params_clx(x, verbose=False, **kw)]
    s = m[0]
    m = [complex(x / s ** (i + 1)) for i, x in enumerate(m)]
    if abs(m[1] / 2 - 1) < 1e-5:
        raise Discard("an exponential busy period")
    p = one(m)
    for d in ((1, 0, 0), (0, 1, 0), (0, 0, 1)):
        q = one([x * (1 + 1e-6 * e) for x, e in zip(m, d)])
        if max(abs(x - y) / abs(x) for x, y in zip(p, q)) > 1e-3:
            raise Discard("sensitive fit")
    if max(abs(x) for x in p) > 200:
        raise Discard(f"degenerate fit {max(abs(x) for x in p)>200} {min(x.real for x in p[1:])<=0}")
    y, a, b = p
    if kind == "cox":
        got = [1 / a + y / b, 2 * (1 / a ** 2 + y / (a * b) + y / b ** 2)]
        out = [1, 0], [a / s, b / s], y
    else:
        got = [y / a + (1 - y) / b, 2 * (y / a ** 2 + (1 - y) / b ** 2)]
        out = [y, 1 - y], [a / s, b / s], 0
    exact = max(abs(x - z) for x, z in zip(got, m)) < 1e-8
    if max(abs(x.imag) for x in p) > 1e-9 or min(a.real, b.real) <= 0 or not 0 <= y.real <= 1:
        ODD.append(1)
    return out, exact


def enter(law, target):
    for j in range(2):
        yield target(j), law[0][j]


def leave(law, j, target, out):
    """Transitions of a fitted period in phase j: to its second phase, or out."""
    go = law[2] if j == 0 else 0
    yield target(1), law[1][j] * go
    yield out, law[1][j] * (1 - go)


def low_chain(high, start, free, l, mu, N):
    """high(s): transitions of the high classes; free(s): channels left to low jobs."""
    seen, todo = [], [start]
    while todo:
        s = todo.pop()
        if s in seen:
            continue
        seen.append(s)
        todo += [t for t, r in high(s) if r != 0]

    def rates(k, s):
        yield k + 1, s, l
        for t, r in high(s):
            yield k, t, r
        if k:
            yield k - 1, s, min(k, free(s)) * mu
    index, up, down, local = build_levels(lambda k: seen, lambda k, s: (x for x in rates(k, s) if x[0] <= N - 1), N - 1)
    return index[0], solve_levels(up, down, local)


def raw_levels(states, rates, lt):
    """Matrices A, B, C, D of a level process that repeats from level lt on."""
    index, up, down, local = build_levels(states, lambda k, s: (x for x in rates(k, s) if x[0] <= lt + 1), lt + 1)
    A = [up[k] for k in range(lt + 1)]
    B = [np.zeros((1, 1), complex)] + [down[k] for k in range(1, lt + 1)]
    C, D = [], []
    for k in range(lt + 1):
        m = local[k].copy()
        np.fill_diagonal(m, 0)
        C.append(m)
        D.append(-np.diag(np.diag(local[k])))
    return index, crossing(A, B, C, D, lt)


def ph_high(n, l, law, kind, kw):
    """High class M/Cox2/n: phases below the busy level, and n^2 fitted periods."""
    y, m1, m2 = law

    def states(k):
        return list(range(min(k, n) + 1))

    def rates(k, i):
        yield k + 1, i, l
        a = min(k, n) - i                                    # jobs in phase 1
        if a:
            yield k, i + 1, a * m1 * y
            yield k - 1, i, a * m1 * (1 - y)
        if i:
            yield k - 1, i - 1, i * m2

    index, G = raw_levels(states, rates, n + 1)
    g = G[n]
    m = derivs(g)
    laws, exact = {}, True
    for i in range(n):
        for j in range(n):
            p = g[0][i, j]
            if abs(p) < 1e-4:
                raise Discard("a rare way out of the busy period")
            laws[i, j], ex = fit(kind, [x[i, j] / p for x in m], **kw)
            exact &= ex

    def high(s):
        out = []
        if s[0] == "B":
            _, i, j, ph = s
            out += leave(laws[i, j], ph, lambda q: ("B", i, j, q), ("S", n - 1, j))
        else:
            _, k, i = s
            if k < n - 1:
                out.append((("S", k + 1, i), l))
            else:
                for j in range(n):
                    out += [(t, l * g[0][i, j] * pr) for t, pr in enter(laws[i, j], lambda q: ("B", i, j, q))]
            if k - i:
                out.append((("S", k, i + 1), (k - i) * m1 * y))
                out.append((("S", k - 1, i), (k - i) * m1 * (1 - y)))
            if i:
                out.append((("S", k - 1, i - 1), i * m2))
        return out
    return high, ("S", 0, 0), (lambda s: 0 if s[0] == "B" else n - s[1]), exact


def two_high(lm, lh, mm, mh):
    """Classes H and M on two channels."""
    b = [math.factorial(k) / (2 * mh) ** k for k in range(1, 4)]
    cox, _ = fit("cox", moments_of(busy(lh, lst(b, 3)), 3))

    def states(k):
        return [["0"], ["H", "M"]][k] if k < 2 else ["B0", "B1", "HM", "MM"]

    def rates(k, s):
        if s == "0":
            yield 1, "H", lh
            yield 1, "M", lm
        elif k == 1:
            yield 2, "B0" if s == "H" else "HM", lh
            yield 2, "HM" if s == "H" else "MM", lm
            yield 0, "0", mh if s == "H" else mm
        else:
            yield k + 1, s, lm
            if s[0] == "B":
                j = int(s[1])
                for t, r in leave(cox, j, lambda q: f"B{q}", None):
                    if t is None:
                        yield k - 1, "H" if k == 2 else "HM", r
                    else:
                        yield k, t, r
            elif s == "HM":
                yield k + 1, "B0", lh
                yield k - 1, "H" if k == 2 else "HM", mm
                yield k - 1, "M" if k == 2 else "MM", mh
            else:
                yield k + 1, "HM", lh
                yield k - 1, "M" if k == 2 else "MM", 2 * mm
    index, G = raw_levels(states, rates, 3)
    g = G[2]
    m = derivs(g)
    row = {"HH": index[2]["B0"], "HM": index[2]["HM"], "MM": index[2]["MM"]}
    laws, exact = {}, True
    for a in row:
        for b in "HM":
            i, j = row[a], index[1][b]
            p = g[0][i, j]
            if abs(p) < 1e-4:
                raise Discard("a rare way out of the busy period")
            law, ex = fit("cox", [x[i, j] / p for x in m])
            laws[a, b] = law, p
            exact &= ex

    def high(s):
        out = []
        if s == "0":
            out += [("H", lh), ("M", lm)]
        elif s in ("H", "M"):
            out.append(("0", mh if s == "H" else mm))
            for a, r in ((s + "M", lm), (s + "H", lh)):
                a = "HM" if a in ("MH", "HM") else a
                for b in "HM":
                    law, p = laws[a, b]
                    out += [(t, r * p * q) for t, q in enter(law, lambda z: (a, b, z))]
        else:
            a, b, ph = s
            out += leave(laws[a, b][0], ph, lambda z: (a, b, z), b)
        return out
    return high, "0", (lambda s: 2 if s == "0" else 1 if s in ("H", "M") else 0), exact


def judge(q, v1, index, Y, l, N, u, what, rtol):
    """q: the solved object of the code; Y: reference levels."""
    P = np.array([y.sum() for y in Y])
    if abs(P[N - 1]) > 1e-10:
        raise Discard("too few levels")
    p = q.get_p()
    if ODD and not np.isfinite(p).all():
        raise Discard("the iteration diverges on these complex phases")
    require(len(p) == N, f"{what}: {len(p)} probabilities")
    require(abs(sum(p) - 1) < 1e-9, f"{what}: probabilities sum to {sum(p)}")
    d = max(abs(a - b.real) for a, b in zip(p, P))
    require(d < rtol, f"{what}: probabilities {p[:6]}, expected {P.real[:6].tolist()}")
    mean = (P * np.arange(N)).sum().real / l
    require_close(v1 / u, mean, f"{what}: mean sojourn time of low jobs", rtol=20 * rtol)
    require_close(v1 / u, sum(k * x for k, x in enumerate(p)) / l, f"{what}: Little's law", rtol=1e-9)
    return P


def solve(make, acc):
    import contextlib
    import io

    def go():
        with contextlib.redirect_stdout(io.StringIO()):
            q = make()
            q.run()
        return q
    return run_or_discard(go, 4)


def test_markov(case):
    """M/M/n, two classes."""
    ODD.clear()
    from most_queue.theory.mmn_prty_pnz_approx import MMn_PRTY_PNZ_Cox_approx
    n, N, u = case["n"], case["N"], 10.0 ** case["unit"]
    mH, mL = case["mH"] / 16, case["mL"] / 16
    rh = case["share"] / 16 * case["rho"] / 64
    lH, lL = rh * n * mH, (case["rho"] / 64 - rh) * n * mL
    b = [math.factorial(k) / (n * mH) ** k for k in range(1, 6)]
    law, exact = fit("cox", moments_of(busy(lH, lst(b, 5)), 3))

    def high(s):
        if isinstance(s, tuple):
            return list(leave(law, s[1], lambda z: ("B", z), n - 1))
        out = [(s + 1, lH)] if s < n - 1 else [(t, lH * q) for t, q in enter(law, lambda z: ("B", z))]
        return out + ([(s - 1, s * mH)] if s else [])
    index, Y = low_chain(high, 0, lambda s: 0 if isinstance(s, tuple) else n - s, lL, mL, N)
    what = f"M/M/{n} with two preemptive classes, l={lH, lL}, mu={mH, mL}, unit {u:g}"
    if abs(Y[-1].sum()) > 1e-10:
        raise Discard("too few levels")
    acc = {"accuracy": case["acc"]} if case["acc"] else {}
    q = solve(lambda: MMn_PRTY_PNZ_Cox_approx(n, mL / u, mH / u, lL / u, lH / u, N=N, **acc), case["acc"])
    rtol = 1e-5 if case["acc"] else 1e-4
    judge(q, q.get_second_class_v1(), index, Y, lL, N, u, what, rtol)
    pi = np.array([1.0])
    for k in range(1, n):
        pi = np.append(pi, pi[-1] * lH / (k * mH))
    tail = pi[-1] * lH / (n * mH) / (1 - rh)
    pi = pi / (pi.sum() + tail)
    if exact:
        got = sum(np.asarray(y) for y in q.Y)[0]
        require_close_seq([complex(x).real for x in got[:n]], pi.tolist(), f"{what}: state probabilities of the high class", rtol=10 * rtol, atol=rtol / 10)
        if n == 1:
            ex = Priority([lH, lL], [b, [math.factorial(k) / mL ** k for k in range(1, 6)]], 4)
            v = moments_of(ex.wait(1, True), 1)[0] + moments_of(ex.active(1), 1)[0]
            require_close(q.get_second_class_v1() / u, v, f"{what}: exact mean of M/M/1", rtol=20 * rtol)
    if N >= 40 and rh < 0.6 and exact:
        v = full(n, lL, mL, lH, mH, N)
        require(abs(q.get_second_class_v1() / u / v - 1) < 0.03, f"{what}: mean sojourn time {q.get_second_class_v1() / u}, without approximation {v}")
    return n > 1


def full(n, lL, mL, lH, mH, N, top=60):
    """Mean low-class sojourn time of the two-dimensional chain with up to top high jobs."""
    def high(s):
        return ([(s + 1, lH)] if s < top else []) + ([(s - 1, min(s, n) * mH)] if s else [])
    N = min(N, 120)
    index, Y = low_chain(high, 0, lambda s: max(n - s, 0), lL, mL, N)
    P = np.array([y.sum().real for y in Y])
    if P[-1] > 1e-7:
        raise Discard("too few levels")
    return (P * np.arange(N)).sum() / lL


def high_alone(n, l, m1, m2, y, top=200):
    """Probabilities of 0..n-1 jobs in M/Cox2/n."""
    def rates(k, i):
        if k < top:
            yield k + 1, i, l
        a = min(k, n) - i
        if a:
            yield k, i + 1, a * m1 * y
            yield k - 1, i, a * m1 * (1 - y)
        if i:
            yield k - 1, i - 1, i * m2
    _, up, down, local = build_levels(lambda k: list(range(min(k, n) + 1)), rates, top)
    return [v.sum().real for v in solve_levels(up, down, local)][:n]


def test_ph(case):
    ODD.clear()
    from most_queue.theory.m_ph_n_prty import m_ph_n_prty
    n, N, u = case["n"], case["N"], 10.0 ** case["unit"]
    m1, m2, y, mL = case["m1"] / 16, case["m2"] / 16, case["y"] / 16, case["mL"] / 16
    bH = [1 / m1 + y / m2, 2 * (1 / m1 ** 2 + y / (m1 * m2) + y / m2 ** 2)]
    rh = case["share"] / 16 * case["rho"] / 64
    lH, lL = rh * n / bH[0], (case["rho"] / 64 - rh) * n * mL
    kind = case["kind"]
    kw = {"ee": case["ee"], "e": 0.5, "is_fitting": case["fitting"]}
    high, start, free, exact = ph_high(n, lH, (y, m1, m2), kind, kw)
    index, Y = low_chain(high, start, free, lL, mL, N)
    what = f"M/(Cox, M)/{n}, l={lH, lL}, high service {m1, m2, y}, mu_L={mL}, {kind} busy periods, {kw}, unit {u:g}"
    if abs(Y[-1].sum()) > 1e-10:
        raise Discard("too few levels")
    q = solve(lambda: m_ph_n_prty(mL / u, m1 / u, m2 / u, y, lL / u, lH / u, n, N=N, max_iter=2000, accuracy=1e-9, is_cox=kind == "cox",
                                  approx_ee=kw["ee"], approx_e=0.5, is_fitting=kw["is_fitting"], verbose=False), 0)
    if q.run_iterations_num_ >= 2000:
        raise Discard("not converged")
    judge(q, q.get_low_class_v1(), index, Y, lL, N, u, what, 1e-4)
    if exact:
        alone = high_alone(n, lH, m1, m2, y)
        got = sum(np.asarray(z) for z in q.Y)[0]
        got = [complex(got[k * (k + 1) // 2:(k + 1) * (k + 2) // 2].sum()).real for k in range(n)]
        require_close_seq(got, alone, f"{what}: state probabilities of the high class", rtol=2e-3, atol=1e-6)
    if n == 1 and exact:
        e = [math.factorial(k) * sum(1 / m1 ** j / m2 ** (k - j) for j in range(k + 1)) for k in range(1, 5)]
        b = [(1 - y) * math.factorial(k) / m1 ** k + y * e[k - 1] for k in range(1, 5)]
        ex = Priority([lH, lL], [b, [math.factorial(k) / mL ** k for k in range(1, 5)]], 4)
        v = moments_of(ex.wait(1, True), 1)[0] + moments_of(ex.active(1), 1)[0]
        require_close(q.get_low_class_v1() / u, v, f"{what}: exact mean of one channel", rtol=2e-3)
    return n > 1


def test_three(case):
    ODD.clear()
    from most_queue.theory.mmn3_pnz_cox_approx import Mmn3_pnz_cox
    N, u = case["N"], 10.0 ** case["unit"]
    mL, mM, mH = (case[k] / 16 for k in ("mL", "mM", "mH"))
    w = case["shares"]
    rho = case["rho"] / 64
    lL, lM, lH = (2 * rho * x / sum(w) * m for x, m in zip(w, (mL, mM, mH)))
    high, start, free, exact = two_high(lM, lH, mM, mH)
    index, Y = low_chain(high, start, free, lL, mL, N)
    what = f"M/M/2 with three preemptive classes, l={lL, lM, lH}, mu={mL, mM, mH}, unit {u:g}"
    if abs(Y[-1].sum()) > 1e-10:
        raise Discard("too few levels")
    acc = {"accuracy": case["acc"]} if case["acc"] else {}
    q = solve(lambda: Mmn3_pnz_cox(mL / u, mM / u, mH / u, lL / u, lM / u, lH / u, N=N, **acc), 0)
    rtol = 1e-4
    judge(q, q.get_low_class_v1(), index, Y, lL, N, u, what, rtol)
    if exact and rho < 0.7 and (lH / mH + lM / mM) < 0.9:
        v, pi = full3(lL, mL, lM, mM, lH, mH, N)
        got = sum(np.asarray(y) for y in q.Y)[0]
        require_close_seq([complex(x).real for x in got[:3]], pi, f"{what}: probabilities of the high classes (empty, M, H)", rtol=2e-2)
        require(abs(q.get_low_class_v1() / u / v - 1) < 0.03, f"{what}: mean sojourn time {q.get_low_class_v1() / u}, without approximation {v}")
    return True


def full3(lL, mL, lM, mM, lH, mH, N, top=14):
    """Mean low-class sojourn and state probabilities (empty, M, H) of the chain with up to top jobs of the high classes."""
    def high(s):
        h, m = s
        out = [((h + 1, m), lH), ((h, m + 1), lM)] if h + m < top else []
        if h:
            out.append(((h - 1, m), min(h, 2) * mH))
        f = min(m, max(2 - h, 0))
        return out + ([((h, m - 1), f * mM)] if f else [])
    N = min(N, 60)
    index, Y = low_chain(high, (0, 0), lambda s: max(2 - sum(s), 0), lL, mL, N)
    P = np.array([y.sum().real for y in Y])
    pi = sum(Y).real
    if P[-1] > 1e-6 or sum(x for s, x in zip(index, pi) if sum(s) == top) > 1e-5:
        raise Discard("too few levels in the reference")
    return (P * np.arange(N)).sum() / lL, [pi[index[s]] for s in ((0, 0), (0, 1), (1, 0))]


@st.composite
def cases(draw, kind):
    c = {"n": draw(st.sampled_from([1, 2, 2, 3, 3, 4] if kind == "markov" else [1, 2, 2, 2, 3, 3])), "N": draw(st.sampled_from([40, 60, 100] if kind != "markov" else [40, 80, 150])),
         "unit": draw(st.sampled_from([0, 0, -3, 2])), "mL": draw(st.integers(4, 64)), "rho": draw(st.integers(4, 55)),
         "share": draw(st.integers(1, 15))}
    if kind == "ph":
        c.update(m1=draw(st.integers(4, 64)), m2=draw(st.integers(2, 64)), y=draw(st.integers(0, 16)), kind=draw(st.sampled_from(["cox", "h2"])),
                 ee=draw(st.sampled_from([0.1, 0.01, 0.001])), fitting=draw(st.booleans()))
    else:
        c.update(mH=draw(st.integers(4, 64)), acc=draw(st.sampled_from([0, 1e-9])))
    if kind == "three":
        c.update(mM=draw(st.integers(4, 64)), shares=draw(st.lists(st.integers(1, 9), min_size=3, max_size=3)))
    return c


SUBS = [Sub("markov", cases("markov"), test_markov, 250, rule="several channels"),
        Sub("phases", cases("ph"), test_ph, 300, rule="several channels"),
        Sub("three", cases("three"), test_three, 250, rule="all")]

"""C17: single-channel priority formulas against exact transforms; invariant relations."""
import math

from hypothesis import strategies as st

from ..core import Discard, Sub, require, require_close, require_close_seq
from ..series import Priority, busy, compose, conv, lst, mixture, moments_of, mul, shift
from .c01 import gamma_moments, scaled
from .c10 import mixture_moments
from .c15 import channels, mh2n, moments_from

PROPERTY = "C17"
RULE = ("1-4 classes with random shares, service moments of random mixtures of Erlang phases and of gamma laws, total load 0.05..0.95, "
        "time units 1e-3..1e3; exact moments come from the power series of the Takacs/Kella-Yechiali transforms; multichannel invariant "
        "relations are rebuilt from an independent solution of M/H2/n")
ASSUMPTIONS = ["waiting moments of order k are requested only when k + 1 service moments are given"]


def model(case, num):
    b = []
    for c in case["classes"]:
        if c["gamma"]:
            a = c["gamma"] / 16
            x = gamma_moments(a / (c["mean"] / 16), a, num)
        else:
            x = mixture_moments([(w, r, m / 8) for w, r, m in c["phases"]], num)
            x = scaled(x, c["mean"] / 16 / x[0])
        b.append(x)
    share = [c["rate"] for c in case["classes"]]
    load = sum(s * x[0] for s, x in zip(share, b))
    rho = case["rho"] / 64
    l = [s * rho / load for s in share]
    return l, b, rho


def with_unit(case, l, b):
    u = 10.0 ** case["unit"]
    return [x / u for x in l], [scaled(x, u) for x in b], u


def back(ms, u):
    return [m / u ** (i + 1) for i, m in enumerate(ms)]


def check(got, want, u, what, rtol=1e-7):
    require_close_seq(back(list(got)[:len(want)], u), want, what, rtol=rtol)


def test_pr(case):
    from most_queue.theory.priority_calc import calc_pr1, climov_w_pr_calc, get_w1_pr
    num = case["num"]
    l, b, rho = model(case, max(4, case["given"]))
    k = len(l)
    ll, bb, u = with_unit(case, l, [x[:max(num + 1, case["given"])] for x in b])
    ex = Priority(l, b, 4)
    what = f"preemptive resume, l={l}, b={b}, unit {u:g}"
    r = calc_pr1(ll, bb, num=num)
    w1 = get_w1_pr(ll, bb)
    w2 = climov_w_pr_calc(ll, bb) if num > 2 or case["given"] > 2 else None
    for j in range(k):
        w = moments_of(ex.wait(j, True), 3)
        h = moments_of(ex.active(j), 3)
        v = conv(w, h)
        for name, want in (("w", w), ("h", h), ("v", v), ("pnz", moments_of(ex.busy(j), 3))):
            require(len(r[name]) == k, f"{what}: {name} for {len(r[name])} classes")
            check(r[name][j], want[:num], u, f"{what}: {name} of class {j}")
        wait = [v[0] - b[j][0]]
        require_close(w1[j] / u, wait[0], f"{what}: get_w1_pr of class {j}", rtol=1e-9, atol=1e-12)
        check(r["w_with_pr"][j], deconv(v, b[j])[:num], u, f"{what}: wait with interruptions of class {j}", rtol=1e-6)
        if w2:
            check(w2[j], w[:2], u, f"{what}: climov_w_pr_calc of class {j}")
    return k > 1


def deconv(v, b):
    w = [v[0] - b[0]]
    w.append(v[1] - 2 * w[0] * b[0] - b[1])
    w.append(v[2] - 3 * w[1] * b[0] - 3 * w[0] * b[1] - b[2])
    return w


def test_np(case):
    from most_queue.theory.priority_calc import get_v_np, get_w1_np, get_w_np
    num = case["num"]
    l, b, rho = model(case, 5)
    k = len(l)
    ll, bb, u = with_unit(case, l, [x[:max(num + 1, case["given"])] for x in b])
    ex = Priority(l, b, 5)
    what = f"non-preemptive, l={l}, b={b}, unit {u:g}"
    w, v, w1 = get_w_np(ll, bb, num), get_v_np(ll, bb, num), get_w1_np(ll, bb)
    for j in range(k):
        want = moments_of(ex.wait(j, False), 3)
        require_close(w1[j] / u, want[0], f"{what}: get_w1_np of class {j}", rtol=1e-9, atol=1e-12)
        check(w[j], want[:num], u, f"{what}: wait of class {j}", rtol=1e-6)
        check(v[j], conv(want, b[j][:3])[:num], u, f"{what}: sojourn of class {j}", rtol=1e-6)
    return k > 1


def test_busy(case):
    from most_queue.theory.priority_calc import ppnz_calc, ppnz_calc_warm_up
    l, b, rho = model(case, 5)
    n = case["given"]
    B = lst(b[0], 5)
    l0 = case["rho"] / 64 / b[0][0]
    u = 10.0 ** case["unit"]
    what = f"busy period, l={l0}, b={b[0][:n]}, unit {u:g}"
    nu = busy(l0, B)
    got = ppnz_calc(l0 / u, scaled(b[0][:n], u), case["num"]) if case["num"] else ppnz_calc(l0 / u, scaled(b[0][:n], u))
    num = min(n, case["num"] or 5)
    require(len(got) == num, f"{what}: {len(got)} moments")
    check(got, moments_of(nu, num), u, what)
    f = b[-1]
    num = min(n, case["num"] or 5)
    got = ppnz_calc_warm_up(l0 / u, scaled(f[:n], u), scaled(moments_of(nu, 5), u), case["num"] or 5)
    require(len(got) == num, f"{what}: {len(got)} moments of the period with a special start")
    check(got, moments_of(compose(lst(f, 5), shift(l0, nu)), num), u, f"{what}, started by {f[:n]}")
    return num > 3


def test_no_priority(case):
    from most_queue.theory.priority_calc import get_v_mg1_bp, get_w_mg1_bp
    l, b, rho = model(case, 4)
    k = len(l)
    ll, bb, u = with_unit(case, l, b)
    ex = Priority([sum(l)], [mixture(l, b, 4)], 4)
    want = moments_of(ex.wait(0, True), 3)
    what = f"M/G/1 with classes but no priorities, l={l}, b={b}, unit {u:g}"
    w, v = get_w_mg1_bp(ll, bb), get_v_mg1_bp(ll, bb)
    for j in range(k):
        check(w[j], want, u, f"{what}: wait of class {j}")
        check(v[j], conv(want, b[j][:3]), u, f"{what}: sojourn of class {j}")
    return k > 1


def h2(b):
    from most_queue.rand_distribution import H2_dist
    cv2 = b[1] / b[0] ** 2 - 1
    if not 0.4 ** 2 < cv2 < 9:
        raise Discard("far shape")
    if abs(b[2] * b[0] / (1.5 * b[1] ** 2) - 1) < 1e-3:
        raise Discard("a phase of zero length")
    if min(abs(cv2 - 1), abs(cv2 - 0.5)) < 0.01:
        raise Discard("near a special case of the fit, where the code perturbs the moments")
    y, m1, m2 = H2_dist.get_params_clx(scaled(b, 1 / b[0]), verbose=False)
    mu = [m1 / b[0], m2 / b[0]]
    if min(z.real for z in mu) <= 0 or max(abs(z) for z in mu) > 100 / b[0] or abs(y) > 30:
        raise Discard("degenerate fit")
    if abs(y.imag) < 1e-12 and complex([y, 1 - y][0 if m1.real < m2.real else 1]).real < 0:
        raise Discard("the fitted law is not a distribution")
    odd = abs(y.imag) > 1e-9 or not 0 <= y.real <= 1
    return [y, 1 - y], mu, odd


def waits_mgn(l, b, n):
    """Exact probabilities and waiting moments of M/H2/n."""
    y, mu, odd = h2(b)
    if channels(n, y, odd) != n:
        raise Discard("ill-conditioned for this many channels")
    if l * b[0] / n < 0.02:
        raise Discard("hardly any waiting")
    Y = mh2n(n, l, y, mu, 500)
    P = [z.sum().real for z in Y]
    if min(P) < -1e-9:
        raise Discard("the fitted law gives negative probabilities")
    if sum(map(abs, P[145:])) > 1e-8:
        raise Discard("too few levels")
    if sum((k - n) * P[k] for k in range(n, len(P))) < 1e-5:
        raise Discard("hardly any waiting")
    return P, moments_from(P, n, l), odd


def test_invariant(case):
    """M*|G*|n = M*|G*|1 * (M|G|n / M|G|1), the ratio being that of the mean waits of the queues without priorities."""
    from most_queue.theory.priority_calc import get_v_prty_invar, get_w_prty_invar
    l, b, rho = model(case, 5)
    n = case["n"]
    l = [x * n for x in l]
    if rho > 0.8:
        raise Discard("too few levels")
    mix = mixture(l, b, 4)
    P, Wn, odd = waits_mgn(sum(l), mix, n)
    one = [scaled(x, 1 / n) for x in b]
    ex = Priority(l, one, 5)
    W1 = sum(l) * mixture(l, one, 2)[1] / (2 * (1 - rho))
    ratio = Wn[0] / W1
    ll, bb, u = with_unit(case, l, [x[:4] for x in b])
    what = f"{n} channels, {case['type']}, l={l}, b={b}, unit {u:g}"
    w = get_w_prty_invar(ll, bb, n, case["type"])
    v = get_v_prty_invar(ll, bb, n, case["type"])
    for j in range(len(l)):
        if case["type"] == "NP":
            want = moments_of(ex.wait(j, False), 3)
        else:
            want = deconv(conv(moments_of(ex.wait(j, True), 3), moments_of(ex.active(j), 3)), one[j])
        want = [x * ratio for x in want]
        check(w[j], want, u, f"{what}: wait of class {j}", rtol=5e-3 if odd else 1e-3)
        check(v[j], conv(want, b[j][:3]), u, f"{what}: sojourn of class {j}", rtol=5e-3 if odd else 1e-3)
    return n > 1 and len(l) > 1


def test_mgn(case):
    from most_queue.theory.priority_calc import get_v_MxGn_no_pr, get_w_MxGn_no_pr
    l, b, rho = model(case, 4)
    n = case["n"]
    l = [x * n for x in l]
    if rho > 0.8:
        raise Discard("too few levels")
    P, Wn, odd = waits_mgn(sum(l), mixture(l, b, 3), n)
    ll, bb, u = with_unit(case, l, [x[:case["given"]] for x in b])
    what = f"{n} channels without priorities, l={l}, b={b}, unit {u:g}"
    w, v = get_w_MxGn_no_pr(ll, bb, n), get_v_MxGn_no_pr(ll, bb, n)
    for j in range(len(l)):
        check(w[j], Wn, u, f"{what}: wait of class {j}", rtol=2e-2 if odd else 3e-3)
        check(v[j], conv(Wn, b[j][:3]), u, f"{what}: sojourn of class {j}", rtol=1e-2 if odd else 3e-3)
    return n > 1 and len(l) > 1


phases = st.lists(st.tuples(st.integers(1, 9), st.integers(1, 6), st.integers(1, 60)), min_size=1, max_size=3)
one = st.fixed_dictionaries({"gamma": st.one_of(st.just(0), st.just(0), st.integers(2, 96)), "phases": phases, "mean": st.integers(1, 64),
                             "rate": st.integers(1, 32)})


def cases(**extra):
    return st.fixed_dictionaries({"classes": st.lists(one, min_size=1, max_size=4), "rho": st.integers(3, 61), "unit": st.integers(-3, 3), **extra})


SUBS = [
    Sub("preemptive", cases(num=st.integers(2, 3), given=st.integers(3, 5)), test_pr, 400, rule="two or more classes"),
    Sub("nonpreemptive", cases(num=st.integers(1, 3), given=st.integers(2, 5)), test_np, 400, rule="two or more classes"),
    Sub("busy", cases(num=st.integers(0, 5), given=st.integers(1, 5)), test_busy, 400, rule="four or more moments"),
    Sub("nopriority", cases(), test_no_priority, 200, rule="two or more classes"),
    Sub("invariant", cases(n=st.integers(1, 5), type=st.sampled_from(["NP", "PR"])), test_invariant, 250, rule="several channels and classes"),
    Sub("multichannel", cases(n=st.integers(1, 5), given=st.integers(3, 4)), test_mgn, 250, rule="several channels and classes"),
]

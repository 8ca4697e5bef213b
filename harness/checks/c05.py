"""C05: warm-up / cooling / cooling-delay cycles of the multichannel FIFO simulator."""
import heapq
import math

from hypothesis import strategies as st

from ..core import Discard, Sub, require, require_close, require_close_seq
from ..simlib import Script, check_ties, compare_p, ints, raw_moments, scripted, state_fractions, times
from .c04 import busy_periods

PROPERTY = "C05"
RULE = ("random arrival, service and phase-duration sequences are fed to the real simulator; reported statistics are "
        "compared with an independent recursion over regeneration cycles")
ASSUMPTIONS = ["no two events fall on the same instant",
               "a phase still running when the run stops may or may not be counted in its time fraction"]


class Seq:
    def __init__(self, v):
        self.v, self.i = v, 0

    def next(self):
        self.i += 1
        if self.i > len(self.v):
            raise Discard("phase script too short")
        return self.v[self.i - 1]


def reference(n, buffer, arr, svc, warm, cold, delay):
    """Cycle recursion.  Returns jobs [(a, s, d) or (a, None, None)], and phase intervals."""
    W, C, D = (Seq(x) if x is not None else None for x in (warm, cold, delay))
    iv = {"warm": [], "cold": [], "delay": [], "after_cold": 0}
    jobs = []
    k = 0
    i = 0
    pending = None      # availability instant already fixed by a cooling that jobs wait for
    direct = False      # next arrival is served at once (it cancelled a cooling delay)
    m = len(arr)
    while i < m:
        a = arr[i]
        if pending is not None:
            t0 = pending
        elif direct or W is None:
            t0 = a
        else:
            w = W.next()
            iv["warm"].append((a, a + w))
            t0 = a + w
        pending, direct = None, False
        free = [0.0] * n
        cyc = []
        while i < m:
            a = arr[i]
            if cyc and all(d is not None and d < a for _, _, d in cyc):
                break
            waiting = sum(1 for _, s, _ in cyc if s > a)
            in_service = sum(1 for _, s, d in cyc if s <= a < d)
            i += 1
            if (a < t0 or in_service == n) and buffer is not None and waiting >= buffer:
                jobs.append((a, None, None))
                continue
            s = max(a, heapq.heappop(free), t0)
            d = s + svc[k]
            k += 1
            heapq.heappush(free, d)
            cyc.append((a, s, d))
            jobs.append((a, s, d))
        e = max(d for _, _, d in cyc)
        if C is not None:
            nxt = arr[i] if i < m else math.inf
            cs = e
            if D is not None:
                dl = D.next()
                if nxt < e + dl:
                    iv["delay"].append((e, nxt))
                    direct = True
                    continue
                iv["delay"].append((e, e + dl))
                cs = e + dl
            ce = cs + C.next()
            iv["cold"].append((cs, ce))
            if nxt < ce:
                pending = ce
                if W is not None:
                    w = W.next()
                    iv["warm"].append((ce, ce + w))
                    iv["after_cold"] += 1
                    pending = ce + w
    return jobs, iv


def test(case):
    from most_queue.sim.qs_sim import QueueingSystemSimulator
    n, buffer = case["n"], case["buffer"]
    arr, svc = times(case["arr"], 0.1), times(case["svc"], 0.7)
    ph = {k: (times(case[k], {"warm": 1.3, "cold": 2.1, "delay": 3.3}[k]) if case[k] is not None else None)
          for k in ("warm", "cold", "delay")}
    at, t = [], 0.0
    for x in arr:
        t += x
        at.append(t)
    jobs, iv = reference(n, buffer, at, svc, ph["warm"], ph["cold"], ph["delay"])
    deps = sorted(d for _, _, d in jobs if d is not None)
    ev = at + deps + [x for k in ("warm", "cold") for p in iv[k] for x in p]
    ev = sorted(set(ev))
    check_ties(ev)
    total = min(len(deps), case["stop"])
    T = deps[total - 1]
    with scripted():
        qs = QueueingSystemSimulator(n, buffer=buffer, buffer_type=case["kind"])

        def src():
            qs.set_sources(Script(arr), "D")

        def srv():
            qs.set_servers(Script(svc, after=None, name="service"), "D")

        def phases():
            if ph["warm"] is not None:
                qs.set_warm(Script(ph["warm"], name="warm"), "D")
            if ph["cold"] is not None:
                qs.set_cold(Script(ph["cold"], name="cold"), "D")
            if ph["delay"] is not None:
                qs.set_cold_delay(Script(ph["delay"], name="delay"), "D")
        for f in ([src, srv, phases], [phases, srv, src], [srv, phases, src])[case["order"]]:
            f()
        qs.run(total)
        done = [(a, s, d) for a, s, d in jobs if d is not None and d <= T + 1e-12]
        started = [s - a for a, s, d in jobs if s is not None and s <= T + 1e-12]
        arrived = [j for j in jobs if j[0] <= T + 1e-12]
        dropped = [j for j in arrived if j[1] is None]
        require_close(qs.ttek, T, "simulation clock at the requested departure")
        require(qs.arrived == len(arrived), f"arrived {qs.arrived}, expected {len(arrived)}")
        require(qs.dropped == len(dropped), f"dropped {qs.dropped}, expected {len(dropped)}")
        require(qs.served == len(done), f"served {qs.served}, expected {len(done)}")
        require(qs.taked == len(started), f"taken to service {qs.taked}, expected {len(started)}")
        require(qs.in_sys == len(arrived) - len(dropped) - len(done), f"in system {qs.in_sys}")
        require_close_seq(qs.w, raw_moments(started), "waiting moments", rtol=1e-8)
        require_close_seq(qs.v, raw_moments([d - a for a, _, d in done]), "sojourn moments", rtol=1e-8)
        acc = [j for j in jobs if j[1] is not None]
        events = [(a, 1) for a, _, _ in acc] + [(d, -1) for _, _, d in acc]
        compare_p(qs.get_p(), state_fractions(events, T, len(jobs) + 1))
        bp = busy_periods(jobs, n, T)
        require(qs.ppnz_moments == len(bp), f"busy periods {qs.ppnz_moments}, expected {len(bp)}")
        require_close_seq(qs.ppnz, raw_moments(bp), "busy-period moments", rtol=1e-8)
        zero = sum(1 for w in started if w == 0)
        require(qs.zero_wait_arrivals_num == zero, f"zero-wait arrivals {qs.zero_wait_arrivals_num}, expected {zero}")
        for name, got, starts in (("warm", qs.get_warmup_prob(), qs.warm_phase.starts_times),
                                  ("cold", qs.get_cold_prob(), qs.cold_phase.starts_times),
                                  ("delay", qs.get_cold_delay_prob(), qs.cold_delay_phase.starts_times)):
            full = math.fsum(b - a for a, b in iv[name] if b <= T + 1e-12) / T
            part = math.fsum(min(b, T) - a for a, b in iv[name] if a <= T + 1e-12) / T
            ok = abs(got - full) < 1e-9 or abs(got - part) < 1e-9
            require(ok, f"fraction of time in {name}: {got}, expected {full} (or {part} with the running phase)")
            nst = sum(1 for a, b in iv[name] if a <= T + 1e-12)
            require(starts == nst, f"{name} phase starts {starts}, expected {nst}")
        wac = sum(1 for a, b in iv["warm"] if a <= T + 1e-12 and any(abs(a - ce) < 1e-12 for _, ce in iv["cold"]))
        require(qs.warm_after_cold_starts == wac, f"warm-ups after cooling {qs.warm_after_cold_starts}, expected {wac}")
    used = [k for k in ("warm", "cold", "delay") if case[k] is not None and any(a <= T for a, b in iv[k])]
    want = [k for k in ("warm", "cold", "delay") if case[k] is not None]
    return used == want and len(iv["warm"]) + len(iv["cold"]) >= 2


@st.composite
def cases(draw):
    n = draw(st.integers(1, 4))
    m = draw(st.integers(2, 30))
    combo = draw(st.sampled_from(["w", "c", "wc", "cd", "wcd", "wcd", "wc"]))
    buffer = draw(st.one_of(st.none(), st.none(), st.integers(1, 4)))
    hi = draw(st.sampled_from([6, 20, 60]))
    sv = max(1, int(hi * n * draw(st.sampled_from([0.3, 0.8, 1.2]))))
    return {"n": n, "buffer": buffer, "kind": draw(st.sampled_from(["list", "deque"])),
            "arr": draw(ints(0, hi, m, m)), "svc": draw(ints(0, sv, m, m)),
            "warm": draw(ints(0, hi, m + 1, m + 1)) if "w" in combo else None,
            "cold": draw(ints(0, hi, m + 1, m + 1)) if "c" in combo else None,
            "delay": draw(ints(0, hi, m + 1, m + 1)) if "d" in combo else None,
            "order": draw(st.integers(0, 2)), "stop": draw(st.integers(1, m))}


def test_guard(case):
    """A cooling delay may only be set after cooling."""
    from most_queue.sim.qs_sim import QueueingSystemSimulator
    from most_queue.sim.utils.exceptions import QsSourseSettingException
    qs = QueueingSystemSimulator(case["n"])
    try:
        qs.set_cold_delay(case["mu"], "M")
    except QsSourseSettingException:
        return True
    require(False, "set_cold_delay() before set_cold() was accepted")


SUBS = [
    Sub("cycle", cases(), test, quick=3000, thorough=100000,
        rule="non-trivial = every configured phase occurred and at least two warm-ups/coolings happened"),
    Sub("guard", st.fixed_dictionaries({"n": st.integers(1, 5), "mu": st.floats(0.1, 10)}), test_guard, quick=10,
        thorough=10, shards=1, rule="delay without cooling is rejected"),
]

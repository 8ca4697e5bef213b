"""C04: the multichannel FIFO simulator follows the exact GI/G/n/r sample path."""
import bisect
import heapq
import math

from hypothesis import strategies as st

from ..core import Discard, Sub, require, require_close, require_close_seq
from ..simlib import Script, check_ties, compare_p, ints, raw_moments, scripted, state_fractions, times

PROPERTY = "C04"
RULE = ("random arrival intervals and service times are fed to the real simulator through its public API and the "
        "reported statistics are compared with a Kiefer-Wolfowitz style recursion over the same numbers")
ASSUMPTIONS = ["no two events fall on the same instant", "all scripted times lie below the simulator's idle marker 1e10"]


def reference(n, buffer, arr, svc, stop_served):
    """Recursion over arrivals (no event loop).  Returns the facts up to the stop_served-th departure."""
    free = [0.0] * n          # heap of instants at which channels become free
    heapq.heapify(free)
    deps, starts = [], []     # of accepted jobs, in arrival order (FIFO => starts are non-decreasing)
    jobs = []                 # (arrival, start, departure) or (arrival, None, None)
    k = 0
    sorted_deps = []
    for a in arr:
        waiting = len(starts) - bisect.bisect_right(starts, a)
        in_service = len(starts) - waiting - bisect.bisect_right(sorted_deps, a)
        if in_service == n and buffer is not None and waiting >= buffer:
            jobs.append((a, None, None))
            continue
        s = max(a, heapq.heappop(free))
        d = s + svc[k]
        k += 1
        heapq.heappush(free, d)
        starts.append(s)
        deps.append(d)
        bisect.insort(sorted_deps, d)
        jobs.append((a, s, d))
    return jobs


def busy_periods(jobs, n, T):
    """Closed intervals during which all n channels are continuously busy, ended by T."""
    ev = []
    for a, s, d in jobs:
        if s is None:
            continue
        ev.append((s, 1))
        ev.append((d, -1))
    # at one instant a departure and the start that it triggers keep the channel busy
    ev.sort(key=lambda e: (e[0], -e[1]))
    out = []
    busy, start = 0, None
    for t, d in ev:
        if t > T:
            break
        if d == 1:
            busy += 1
            if busy == n and start is None:
                start = t
        else:
            busy -= 1
            if busy == n - 1 and start is not None:
                out.append(t - start)
                start = None
    return out


def make(case):
    from most_queue.sim.qs_sim import QueueingSystemSimulator
    qs = QueueingSystemSimulator(case["n"], buffer=case["buffer"], buffer_type=case["kind"])
    arr = times(case["arr"], 0.1)
    svc = times(case["svc"], 0.7)
    src = Script(arr, name="arrivals")
    srv = Script(svc, after=None, name="service")
    if case["order"]:
        qs.set_servers(srv, "D")
        qs.set_sources(src, "D")
    else:
        qs.set_sources(src, "D")
        qs.set_servers(srv, "D")
    at, t = [], 0.0
    for x in arr:
        t += x
        at.append(t)
    return qs, at, svc


def expected(case, at, svc, T=None):
    jobs = reference(case["n"], case["buffer"], at, svc, None)
    check_ties([a for a, _, _ in jobs] + [d for _, _, d in jobs if d is not None])
    return jobs


def check_stats(case, qs, jobs, T, sojourn_only_done=True):
    n = case["n"]
    done = sorted((d, a) for a, s, d in jobs if d is not None and d <= T + 1e-12)
    started = [(s - a) for a, s, d in jobs if s is not None and s <= T + 1e-12]
    arrived = [j for j in jobs if j[0] <= T + 1e-12]
    dropped = [j for j in arrived if j[1] is None]
    require(qs.arrived == len(arrived), f"arrived counter {qs.arrived}, expected {len(arrived)}")
    require(qs.dropped == len(dropped), f"dropped counter {qs.dropped}, expected {len(dropped)}")
    require(qs.served == len(done), f"served counter {qs.served}, expected {len(done)}")
    require(qs.taked == len(started), f"jobs taken to service {qs.taked}, expected {len(started)}")
    in_sys = len(arrived) - len(dropped) - len(done)
    require(qs.in_sys == in_sys, f"jobs in system {qs.in_sys}, expected {in_sys}")
    require_close(qs.ttek, T, "simulation clock")
    require_close_seq(qs.w, raw_moments(started), "waiting-time moments", rtol=1e-8)
    require_close_seq(qs.v, raw_moments([d - a for d, a in done]), "sojourn-time moments", rtol=1e-8)
    ev = [(a, 1) for a, s, d in jobs if s is not None] + [(d, -1) for a, s, d in jobs if s is not None]
    compare_p(qs.get_p(), state_fractions(ev, T, len(jobs) + 1))
    bp = busy_periods(jobs, n, T)
    require(qs.ppnz_moments == len(bp), f"number of busy periods {qs.ppnz_moments}, expected {len(bp)}")
    require_close_seq(qs.ppnz, raw_moments(bp), "busy-period moments", rtol=1e-8)


def test_run(case):
    """run(k): k-th departure."""
    with scripted():
        qs, at, svc = make(case)
        jobs = expected(case, at, svc)
        accepted = sum(1 for j in jobs if j[1] is not None)
        total = min(accepted, max(1, case["stop"]))
        T = sorted(d for _, _, d in jobs if d is not None)[total - 1]
        if case["split"] and total > 1:
            qs.run(total // 2)
            require(qs.served == total // 2, f"run({total // 2}) served {qs.served}")
        qs.run(total)
        check_stats(case, qs, jobs, T)
    waits = sum(1 for a, s, d in jobs if s is not None and s > a and d <= T)
    drops = sum(1 for j in jobs if j[1] is None and j[0] <= T)
    return waits > 0 and (case["buffer"] is None or drops > 0)


def test_steps(case):
    """Every event: conservation of jobs, channel occupancy, buffer bound, event-time monotonicity."""
    with scripted():
        qs, at, svc = make(case)
        jobs = expected(case, at, svc)
        evs = sorted([a for a, _, _ in jobs] + [d for _, _, d in jobs if d is not None])
        nsteps = min(len(evs), case["stop"] * 2 + 1)
        prev = 0.0
        for i in range(nsteps):
            qs.run_one_step() if case["split"] else qs.run(1, is_real_served=False)
            require_close(qs.ttek, evs[i], f"time of event {i}")
            require(qs.ttek >= prev, f"clock went backwards: {prev} -> {qs.ttek}")
            prev = qs.ttek
            busy = sum(1 for s in qs.servers if not s.is_free)
            q = qs.queue.size()
            require(qs.arrived == qs.served + qs.dropped + qs.in_sys,
                    f"after event {i}: arrived {qs.arrived} != served {qs.served} + dropped {qs.dropped} + in system {qs.in_sys}")
            require(qs.in_sys == busy + q, f"after event {i}: {qs.in_sys} in system, {busy} in service, {q} queued")
            require(qs.free_channels == case["n"] - busy, f"after event {i}: free channels {qs.free_channels}, busy {busy}")
            require(q == 0 or busy == case["n"], f"after event {i}: {q} queued while a channel is idle")
            require(case["buffer"] is None or q <= case["buffer"], f"after event {i}: queue {q} above buffer")
        check_stats(case, qs, jobs, evs[nsteps - 1])
    return nsteps > 5 and any(s is not None and s > a for a, s, d in jobs)


def cases(max_jobs):
    def build(n, buffer, kind, load, m, order, split, data):
        return {"n": n, "buffer": buffer, "kind": kind, "arr": data[0], "svc": data[1], "order": order,
                "split": split, "stop": m}

    @st.composite
    def s(draw):
        n = draw(st.integers(1, 5))
        buffer = draw(st.one_of(st.none(), st.integers(0, 4)))
        m = draw(st.integers(1, max_jobs))
        hi = draw(st.sampled_from([4, 12, 40]))
        arr = draw(ints(0, hi, m, m))
        svc = draw(ints(0, hi * n + 2, m, m))
        return {"n": n, "buffer": buffer, "kind": draw(st.sampled_from(["list", "deque"])), "arr": arr, "svc": svc,
                "order": draw(st.booleans()), "split": draw(st.booleans()), "stop": draw(st.integers(1, m))}
    return s()


SUBS = [
    Sub("run", cases(40), test_run, quick=1600, thorough=60000,
        rule="non-trivial = some job waited before the stop, and with a finite buffer some job was dropped",
        explicit=[{"n": 1, "buffer": None, "kind": "list", "arr": [1, 1, 1], "svc": [8, 8, 8], "order": False,
                   "split": False, "stop": 3}]),
    Sub("steps", cases(25), test_steps, quick=800, thorough=30000, rule="non-trivial = more than 5 events and some job waited"),
]

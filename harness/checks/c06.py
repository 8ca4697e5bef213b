"""C06: batch-arrival, finite-source and impatient simulators."""
import heapq
import math

from hypothesis import strategies as st

from ..core import Discard, Sub, require, require_close, require_close_seq
from ..simlib import FAR, Script, check_ties, compare_p, ints, raw_moments, scripted, state_fractions, times
from .c04 import busy_periods

PROPERTY = "C06"
RULE = ("random arrival/think, service and patience sequences are fed to the real simulators; the reported statistics are "
        "compared with independent recursions (batch, impatience) or a small heap model (finite source)")
ASSUMPTIONS = ["no two events fall on the same instant, except arrivals of one batch",
               "jobs that leave impatiently count as served and taken, with their time in queue as waiting and sojourn time",
               "with warm-up set, the job that starts service in an empty system gets the warm-up distribution"]


def fifo(n, buffer, arrivals, svc, warm=None, patience=None):
    """Jobs (arrival, start, departure, kind); kind in served / lost / left.  arrivals may repeat (batches)."""
    free = [0.0] * n
    heapq.heapify(free)
    jobs = []
    k = kw = 0
    for i, a in enumerate(arrivals):
        waiting = sum(1 for _, s, d, kind in jobs
                      if (kind == "served" and s > a) or (kind == "left" and d > a))
        if free[0] > a and buffer is not None and waiting >= buffer:
            jobs.append((a, None, None, "lost"))
            continue
        s = max(a, free[0])
        if patience is not None and s > a + patience[i]:
            jobs.append((a, None, a + patience[i], "left"))
            continue
        empty = all(not (kind == "served" and s0 <= a < d0) for _, s0, d0, kind in jobs) and s == a
        if warm is not None and empty:
            x = warm[kw]
            kw += 1
        else:
            x = svc[k]
            k += 1
        heapq.heappop(free)
        heapq.heappush(free, s + x)
        jobs.append((a, s, s + x, "served"))
    return jobs


def judge(qs, jobs, n, T, pwidth=None, left=False):
    eps = 1e-12
    arrived = [j for j in jobs if j[0] <= T + eps]
    lost = [j for j in arrived if j[3] == "lost"]
    gone = [j for j in jobs if j[3] != "lost" and j[2] <= T + eps]
    reneged = [j for j in gone if j[3] == "left"]
    started = [j for j in jobs if j[3] == "served" and j[1] <= T + eps]
    in_sys = len(arrived) - len(lost) - len(gone)
    require_close(qs.ttek, T, "simulation clock")
    require(qs.arrived == len(arrived), f"arrived {qs.arrived}, expected {len(arrived)}")
    require(qs.served == len(gone), f"served {qs.served}, expected {len(gone)}")
    require(qs.in_sys == in_sys, f"in system {qs.in_sys}, expected {in_sys}")
    require(qs.dropped == len(lost) + len(reneged), f"dropped {qs.dropped}, expected {len(lost) + len(reneged)}")
    require(qs.taked == len(started) + len(reneged), f"taken {qs.taked}, expected {len(started) + len(reneged)}")
    w = [s - a for a, s, _, _ in started] + [d - a for a, _, d, _ in reneged]
    require_close_seq(qs.w, raw_moments(w), "waiting moments", rtol=1e-8)
    require_close_seq(qs.v, raw_moments([d - a for a, _, d, _ in gone]), "sojourn moments", rtol=1e-8)
    acc = [j for j in jobs if j[3] != "lost"]
    ev = [(j[0], 1) for j in acc] + [(j[2], -1) for j in acc]
    p = qs.get_p()
    width = min(len(p), len(jobs) + 1)
    compare_p(p, state_fractions(ev, T, len(jobs) + 1)[:width])
    if not left:
        bp = busy_periods([(a, s, d) for a, s, d, k in jobs], n, T)
        require(qs.ppnz_moments == len(bp), f"busy periods {qs.ppnz_moments}, expected {len(bp)}")
        require_close_seq(qs.ppnz, raw_moments(bp), "busy-period moments", rtol=1e-8)


def conserve(qs, n, buffer, i, abandoned=0):
    busy = sum(1 for s in qs.servers if not s.is_free)
    q = qs.queue.size()
    require(qs.in_sys == busy + q, f"after event {i}: {qs.in_sys} in system, {busy} in service, {q} queued")
    require(qs.free_channels == n - busy, f"after event {i}: free channels {qs.free_channels}, {busy} busy")
    require(q == 0 or busy == n, f"after event {i}: {q} queued while a channel is idle")
    require(buffer is None or q <= buffer, f"after event {i}: queue {q} above buffer {buffer}")


# ---------------------------------------------------------------- batch
def test_batch(case):
    from most_queue.sim.batch_sim import QueueingSystemBatchSim
    n, buffer = case["n"], case["buffer"]
    arr, svc = times(case["arr"], 0.1), times(case["svc"], 0.7)
    warm = times(case["warm"], 1.9) if case["warm"] is not None else None
    probs = [x / sum(case["probs"]) for x in case["probs"]]
    with scripted():
        qs = QueueingSystemBatchSim(n, probs, buffer)
        qs.set_sources(Script(arr), "D")
        qs.set_servers(Script(svc, name="service"), "D")
        if warm is not None:
            qs.set_warm(Script(warm, name="warm"), "D")
        sizes, at, t, steps = [], [], 0.0, 0
        last = qs.arrived
        while len(sizes) < len(arr) and qs.ttek < FAR / 2:
            # a simulator that neither serves nor admits jobs must not make the harness spin
            steps += 1
            require(steps < 50 * len(arr) + 500, "the simulation makes no progress")
            before = qs.ttek
            qs.run_one_step()
            require(qs.ttek >= before, "clock went backwards")
            conserve(qs, n, buffer, steps)
            require(qs.arrived == qs.served + qs.dropped + qs.in_sys, f"jobs not conserved after event {steps}")
            if qs.arrived != last:
                size = qs.arrived - last
                last = qs.arrived
                require(size <= len(probs) and probs[size - 1] > 0, f"a batch of size {size} has probability zero")
                t += arr[len(sizes)]
                require_close(qs.ttek, t, "batch arrival instant")
                sizes.append(size)
                at += [t] * size
        T = qs.ttek
        jobs = fifo(n, buffer, at, svc, warm)
        check_ties(sorted(set(at)) + [d for _, _, d, k in jobs if k == "served"])
        judge(qs, jobs, n, T)
    return max(sizes) > 1 and any(k == "served" and s > a for a, s, d, k in jobs)


def test_batch_run(case):
    """run(k) with a constant batch size."""
    from most_queue.sim.batch_sim import QueueingSystemBatchSim
    n, buffer, size = case["n"], case["buffer"], case["size"]
    arr, svc = times(case["arr"], 0.1), times(case["svc"], 0.7)
    at, t = [], 0.0
    for x in arr:
        t += x
        at += [t] * size
    jobs = fifo(n, buffer, at, svc)
    deps = sorted(d for _, _, d, k in jobs if k == "served")
    check_ties(sorted(set(at)) + deps)
    total = max(1, min(len(deps), case["stop"]))
    with scripted():
        qs = QueueingSystemBatchSim(n, [0.0] * (size - 1) + [1.0], buffer=buffer)
        qs.set_sources(Script(arr), "D")
        qs.set_servers(Script(svc, name="service"), "D")
        qs.run(total)
        judge(qs, jobs, n, deps[total - 1])
    return size > 1


def test_batch_sizes(case):
    """Batch sizes are drawn with the given probabilities."""
    from most_queue.sim.batch_sim import QueueingSystemBatchSim
    probs = [x / sum(case["probs"]) for x in case["probs"]]
    N = 4000
    with scripted():
        qs = QueueingSystemBatchSim(1, probs, buffer=0)
        qs.set_sources(Script([1.0] * N), "D")
        qs.set_servers(Script([], after=FAR, name="service"), "D")
        cnt = [0] * (len(probs) + 1)
        last = 0
        for _ in range(N - 1):
            qs.run_one_step()
            cnt[min(qs.arrived - last, len(probs))] += 1
            last = qs.arrived
    total = sum(cnt)
    for k, p in enumerate(probs):
        sd = math.sqrt(max(p * (1 - p), 1e-4) * total)
        require(abs(cnt[k + 1] - p * total) < 7 * sd + 2,
                f"batch size {k + 1}: {cnt[k + 1]} of {total}, probability {p}")
    require(cnt[0] == 0, f"{cnt[0]} arrivals without a job")
    return len(probs) > 1


# ---------------------------------------------------------------- impatience
def test_impatient(case):
    from most_queue.sim.impatient_queue_sim import ImpatientQueueSim
    n, buffer = case["n"], case["buffer"]
    arr, svc, pat = times(case["arr"], 0.1), times(case["svc"], 0.7), times(case["pat"], 1.7)
    warm = times(case["warm"], 1.9) if case["warm"] is not None else None
    at, t = [], 0.0
    for x in arr:
        t += x
        at.append(t)
    jobs = fifo(n, buffer, at, svc, warm, pat)
    gone = sorted(d for _, _, d, k in jobs if k != "lost")
    check_ties(at + gone)
    total = max(1, min(len(gone), case["stop"]))
    T = gone[total - 1]
    with scripted():
        qs = ImpatientQueueSim(n, buffer=buffer)
        qs.set_sources(Script(arr), "D")
        qs.set_servers(Script(svc, name="service"), "D")
        qs.set_impatiens(Script(pat, name="patience"), "D")
        if warm is not None:
            qs.set_warm(Script(warm, name="warm"), "D")
        if case["steps"]:
            i = 0
            while qs.served < total:
                before = qs.ttek
                qs.run_one_step()
                i += 1
                require(i < 20 * len(arr) + 100, "the simulation makes no progress")
                require(qs.ttek >= before, "clock went backwards")
                conserve(qs, n, buffer, i)
        else:
            qs.run(total)
        judge(qs, jobs, n, T, left=any(k == "left" for _, _, _, k in jobs))
    kinds = {k for _, _, d, k in jobs if d is not None and d <= T}
    return kinds == {"served", "left"}


# ---------------------------------------------------------------- finite source
def finite_source(n, m, buffer, think, svc, total, warm=None):
    k = ks = kw = 0
    pend = []
    for _ in range(m):
        heapq.heappush(pend, think[k])
        k += 1
    dep, queue, jobs = [], [], []
    done = 0
    evs = []

    def start(j, t, empty):
        nonlocal ks, kw
        if warm is not None and empty:
            x = warm[kw]
            kw += 1
        else:
            x = svc[ks]
            ks += 1
        jobs[j][1], jobs[j][2] = t, t + x
        heapq.heappush(dep, (t + x, j))

    while done < total:
        if pend and (not dep or pend[0] < dep[0][0]):
            t = heapq.heappop(pend)
            evs.append(t)
            jobs.append([t, None, None, "served"])
            j = len(jobs) - 1
            if len(dep) < n:
                start(j, t, not dep)
            elif buffer is None or len(queue) < buffer:
                queue.append(j)
            else:
                jobs[j][3] = "lost"
                heapq.heappush(pend, t + think[k])
                k += 1
        else:
            t, j = heapq.heappop(dep)
            evs.append(t)
            done += 1
            heapq.heappush(pend, t + think[k])
            k += 1
            if queue:
                start(queue.pop(0), t, False)
        if k + m > len(think) or ks + 2 > len(svc):
            break
    for j in jobs:          # jobs not started yet
        if j[3] == "served" and j[1] is None:
            j[1] = j[2] = math.inf
    return [tuple(j) for j in jobs], done, evs


def test_finite(case):
    from most_queue.sim.queue_finite_source_sim import QueueingFiniteSourceSim
    n, m, buffer = case["n"], case["m"], case["buffer"]
    L = 6 * case["stop"] + 4 * m + 20
    think = times([case["think"][i % len(case["think"])] for i in range(L)], 0.1)
    svc = times([case["svc"][i % len(case["svc"])] for i in range(L)], 0.7)
    warm = times([case["warm"][i % len(case["warm"])] for i in range(L)], 1.9) if case["warm"] is not None else None
    jobs, total, evs = finite_source(n, m, buffer, think, svc, case["stop"], warm)
    if total == 0:
        raise Discard("no departure within the script")
    deps = sorted(d for _, _, d, k in jobs if k == "served")
    T = deps[total - 1]
    check_ties(evs)
    with scripted():
        qs = QueueingFiniteSourceSim(n, m, buffer=buffer)
        qs.set_sources(Script(think), "D")
        qs.set_servers(Script(svc, name="service"), "D")
        if warm is not None:
            qs.set_warm(Script(warm, name="warm"), "D")
        if case["steps"]:
            i = 0
            while qs.served < total:
                before = qs.ttek
                qs.run_one_step()
                i += 1
                require(i < 40 * L, "the simulation makes no progress")
                require(qs.ttek >= before, "clock went backwards")
                conserve(qs, n, buffer, i)
                require(0 <= qs.in_sys <= m, f"{qs.in_sys} jobs in the system, {m} sources")
                require(qs.arrived == qs.served + qs.dropped + qs.in_sys, f"jobs not conserved after event {i}")
        else:
            qs.run(total)
        require(len(qs.get_p()) == m + 1, f"{len(qs.get_p())} state probabilities for {m} sources")
        judge(qs, [j for j in jobs if j[0] <= T + 1e-12], n, T)
    lost = any(j[3] == "lost" for j in jobs)
    return (buffer is None or lost) and any(k == "served" and a < s <= T for a, s, d, k in jobs)


def opt_buffer():
    return st.one_of(st.none(), st.integers(0, 4))


@st.composite
def batch_cases(draw):
    m = draw(st.integers(1, 14))
    n = draw(st.integers(1, 4))
    probs = draw(st.lists(st.integers(0, 5), min_size=1, max_size=5).filter(sum))
    cap = m * len(probs)
    hi = draw(st.sampled_from([8, 30]))
    return {"n": n, "buffer": draw(opt_buffer()), "probs": probs, "arr": draw(ints(0, hi, m, m)),
            "svc": (draw(ints(0, hi * n, 1, 12)) * (cap + 1))[:cap + 1],
            "warm": draw(st.one_of(st.none(), st.none(), ints(0, 2 * hi, cap + 1, cap + 1)))}


@st.composite
def batch_run_cases(draw):
    m = draw(st.integers(1, 12))
    n = draw(st.integers(1, 4))
    size = draw(st.integers(1, 4))
    return {"n": n, "buffer": draw(opt_buffer()), "size": size, "arr": draw(ints(0, 20, m, m)),
            "svc": draw(ints(0, 12 * n, m * size, m * size)), "stop": draw(st.integers(1, m * size))}


@st.composite
def impatient_cases(draw):
    m = draw(st.integers(1, 30))
    n = draw(st.integers(1, 4))
    hi = draw(st.sampled_from([6, 20]))
    return {"n": n, "buffer": draw(st.one_of(st.none(), st.none(), st.integers(0, 4))), "arr": draw(ints(0, hi, m, m)),
            "svc": draw(ints(0, 2 * hi * n, m, m)), "pat": draw(ints(0, 3 * hi, m, m)),
            "warm": draw(st.one_of(st.none(), st.none(), st.none(), ints(0, 2 * hi, m, m))),
            "stop": draw(st.integers(1, m)), "steps": draw(st.booleans())}


@st.composite
def finite_cases(draw):
    n = draw(st.integers(1, 4))
    m = draw(st.integers(1, 8))
    hi = draw(st.sampled_from([6, 20, 60]))
    return {"n": n, "m": m, "buffer": draw(st.one_of(st.none(), st.integers(0, 3))),
            "think": draw(ints(0, hi, 1, 24)), "svc": draw(ints(0, hi, 1, 24)),
            "warm": draw(st.one_of(st.none(), st.none(), st.none(), ints(0, hi, 1, 8))),
            "stop": draw(st.integers(1, 25)), "steps": draw(st.booleans())}


SUBS = [
    Sub("batch", batch_cases(), test_batch, quick=800, thorough=40000,
        rule="non-trivial = some batch larger than one and some job waited"),
    Sub("batch_run", batch_run_cases(), test_batch_run, quick=240, thorough=10000, rule="non-trivial = batch size > 1"),
    Sub("batch_sizes", st.fixed_dictionaries({"probs": st.lists(st.integers(0, 6), min_size=1, max_size=6).filter(sum)}),
        test_batch_sizes, quick=24, thorough=400, rule="non-trivial = more than one possible size"),
    Sub("impatient", impatient_cases(), test_impatient, quick=1200, thorough=50000,
        rule="non-trivial = some job was served and some job left impatiently"),
    Sub("finite", finite_cases(), test_finite, quick=1200, thorough=50000,
        rule="non-trivial = some job waited and, with a finite buffer, some job was lost"),
]

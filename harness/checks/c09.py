"""C09: fork-join, split-join and delayed-start (delta) simulators."""
import heapq
import math

from hypothesis import strategies as st

from ..core import Sub, require, require_close, require_close_seq
from ..simlib import Script, check_ties, compare_p, ints, raw_moments, scripted, state_fractions, times

PROPERTY = "C09"
RULE = ("random arrival and service sequences are fed to the real simulators; statistics are compared with recursions over "
        "tasks (split-join, delta) or an event-list model (fork-join with per-channel queues, with and without purge)")
ASSUMPTIONS = ["no two events fall on the same instant (subtasks of one task excepted)",
               "subtasks that start at the same instant draw their service times in channel order",
               "split-join with delta has at least as many channels as parts; its buffer argument is not covered"]


def fork_join(n, k, purge, buffer, arr, svc):
    """Per-channel FIFO queues; a task is done when k of its n subtasks are.  Returns [(arrival, done or None, lost)]."""
    svc = iter(svc)
    chan = [None] * n              # (end, task)
    queues = [[] for _ in range(n)]
    finished, tasks, evs = [], [], []
    i = 0
    at = []
    t = 0.0
    for x in arr:
        t += x
        at.append(t)
    while True:
        end, c = min(((e[0], c) for c, e in enumerate(chan) if e is not None), default=(math.inf, -1))
        if i < len(at) and at[i] < end:
            t = at[i]
            i += 1
            waiting = sum(map(len, queues))
            will_wait = sum(1 for e in chan if e is not None)
            j = len(tasks)
            lost = buffer is not None and waiting + will_wait > buffer
            tasks.append([t, None, lost])
            finished.append(0)
            evs.append(t)
            if lost:
                continue
            for c in range(n):
                if chan[c] is None:
                    chan[c] = (t + next(svc), j)
                else:
                    queues[c].append(j)
        elif end == math.inf:
            break
        else:
            t = end
            evs.append(t)
            j = chan[c][1]
            chan[c] = None
            finished[j] += 1
            if finished[j] == k:
                tasks[j][1] = t
                if purge:
                    for d in range(n):
                        if chan[d] is not None and chan[d][1] == j:
                            chan[d] = None
                        queues[d] = [x for x in queues[d] if x != j]
            for d in range(n):
                if chan[d] is None and queues[d]:
                    chan[d] = (t + next(svc), queues[d].pop(0))
    check_ties(evs)
    return tasks


def split_join(n, buffer, arr, svc):
    svc = iter(svc)
    tasks, free, t = [], 0.0, 0.0
    starts = []
    evs = []
    for x in arr:
        t += x
        evs.append(t)
        waiting = n * sum(1 for s in starts if s > t)
        if buffer is not None and free > t and waiting + n > buffer:
            tasks.append([t, None, True])
            continue
        s = max(t, free)
        starts.append(s)
        ends = [s + next(svc) for _ in range(n)]
        free = max(ends)
        evs += ends
        tasks.append([t, free, False])
    check_ties(evs)
    return tasks


def judge(qs, tasks, T):
    eps = 1e-12
    require_close(qs.ttek, T, "simulation clock")
    seen = [x for x in tasks if x[0] <= T + eps]
    lost = sum(x[2] for x in seen)
    done = [x for x in seen if x[1] is not None and x[1] <= T + eps]
    require(qs.arrived == len(seen), f"arrived {qs.arrived}, expected {len(seen)}")
    require(qs.dropped == lost, f"dropped {qs.dropped}, expected {lost}")
    require(qs.served == len(done), f"served {qs.served}, expected {len(done)}")
    require(qs.in_sys == len(seen) - lost - len(done), f"in system {qs.in_sys}, expected {len(seen) - lost - len(done)}")
    require_close_seq(qs.v, raw_moments([d - a for a, d, _ in done]), "sojourn moments", rtol=1e-8)
    ev = [(a, 1) for a, d, x in seen if not x] + [(d, -1) for a, d, x in done]
    width = len(seen) + 1
    compare_p(qs.get_p(), state_fractions(ev, T, width)[:len(qs.get_p())])


def drive(qs, case, total, limit):
    if case["steps"]:
        i = 0
        while qs.served < total:
            before = qs.ttek
            qs.run_one_step()
            i += 1
            require(i < limit, "the simulation makes no progress")
            require(qs.ttek >= before - 1e-12, "clock went backwards")
            require(qs.arrived == qs.served + qs.dropped + qs.in_sys, f"tasks not conserved after event {i}")
            busy = sum(1 for s in qs.servers if not s.is_free)
            require(qs.free_channels == qs.n - busy, f"after event {i}: {qs.free_channels} free channels, {busy} busy")
    else:
        qs.run(total)


def test_fj(case):
    from most_queue.sim.fj_sim import ForkJoinSim
    n, k, kind, buffer = case["n"], min(case["k"], case["n"]), case["kind"], case["buffer"]
    arr, svc = times(case["arr"], 0.1), times(case["svc"], 0.7)
    if kind == "SJ":
        tasks = split_join(n, buffer, arr, svc)
    else:
        tasks = fork_join(n, k, kind == "purge", buffer, arr, svc)
    deps = sorted(d for _, d, _ in tasks if d is not None)
    total = max(1, min(len(deps), case["stop"]))
    with scripted():
        qs = ForkJoinSim(n, k, is_SJ=kind == "SJ", is_Purge=kind == "purge", buffer=buffer)
        qs.set_sources(Script(arr), "D")
        qs.set_servers(Script(svc, name="service"), "D")
        drive(qs, case, total, 60 * len(arr) * n + 100)
        judge(qs, tasks, deps[total - 1])
        if kind != "SJ":
            busy = sum(1 for s in qs.servers if not s.is_free)
            q = sum(len(x) for x in qs.queues)
            require(qs.sub_task_in_sys == busy + q, f"{qs.sub_task_in_sys} subtasks counted, {busy + q} present")
    waited = any(a2 < d1 for (a1, d1, _), (a2, _, x) in zip(tasks, tasks[1:]) if d1 is not None and not x)
    return n > 1 and waited and (buffer is None or any(x for _, _, x in tasks)) and (kind != "purge" or k < n)


def delta_fj(n, k, offs, arr, svc):
    """One FIFO queue of subtasks; subtask i of a task arrives offs later."""
    subs, t = [], 0.0
    for j, x in enumerate(arr):
        t += x
        for i in range(k):
            subs.append((t + offs[j][i], j, i))
    subs.sort()
    free = [0.0] * n
    done = [[] for _ in arr]
    start = []
    for (a, j, i), x in zip(subs, svc):
        s = max(a, heapq.heappop(free))
        heapq.heappush(free, s + x)
        done[j].append(s + x)
        start.append(s)
    at, t = [], 0.0
    for x in arr:
        t += x
        at.append(t)
    evs = sorted({a for a, _, i in subs if i == 0 or offs[0][-1] > 0} | {d for ds in done for d in ds})
    check_ties(evs)
    return [[a, max(ds), False] for a, ds in zip(at, done)]


def delta_sj(k, offs, arr, svc):
    """Tasks one at a time; subtask i starts when its task is in service and it has arrived."""
    tasks, free, t = [], 0.0, 0.0
    si = 0
    evs = []
    for j, x in enumerate(arr):
        t += x
        s = max(t, free)
        begin = [max(s, t + offs[j][i]) for i in range(k)]
        # service times are drawn in order of start; ties (present at the start of the task) in subtask order
        order = sorted(range(k), key=lambda i: (begin[i], i))
        ends = []
        for i in order:
            ends.append(begin[i] + svc[si])
            si += 1
        free = max(ends)
        evs += ends + [t]
        tasks.append([t, free, False])
    check_ties(evs)
    return tasks


def test_delta(case):
    from most_queue import rand_distribution as rd
    from most_queue.sim.fj_delta_sim import ForkJoinSimDelta
    k, sj = case["k"], case["sj"]
    n = max(case["n"], k) if sj else case["n"]
    arr, svc = times(case["arr"], 0.1), times(case["svc"], 0.7)
    asked = []
    old = rd.Gamma.__dict__["generate_static"]
    if case["random"] and k > 1:
        m1 = case["delta"] * 0.125 + 0.0371
        delta = [m1, m1 * m1 * 1.7, m1 ** 3 * 4.3]
        # the sum of i independent delays is never below the sum of i-1 of them only on average: any order is legal
        pool = times(case["delays"], 2.3)
        offs = [[0.0] + [pool[(j * (k - 1) + i) % len(pool)] + 1e-5 * (j * k + i) for i in range(k - 1)]
                for j in range(len(arr))]
        flat = [x for row in offs for x in row[1:]]

        def fake(mu, alpha, generator=None):
            asked.append((mu, alpha))
            return flat[len(asked) - 1] if len(asked) <= len(flat) else 1.0
        rd.Gamma.generate_static = staticmethod(fake)
    else:
        delta = case["delta"] * 0.125 + (0.00042 if case["delta"] else 0.0)
        offs = [[i * delta for i in range(k)] for _ in arr]
    try:
        if sj:
            tasks = delta_sj(k, offs, arr, svc)
        else:
            tasks = delta_fj(n, k, offs, arr, svc)
        deps = sorted(d for _, d, _ in tasks)
        check_ties(deps)
        total = max(1, min(len(deps), case["stop"]))
        with scripted():
            qs = ForkJoinSimDelta(n, k, delta, sj)
            qs.set_sources(Script(arr), "D")
            qs.set_servers(Script(svc, name="service"), "D")
            drive(qs, case, total, 60 * len(arr) * k + 100)
            judge(qs, tasks, deps[total - 1])
    finally:
        rd.Gamma.generate_static = old
    for c, (mu, alpha) in enumerate(asked):
        i = c % (k - 1) + 1
        require_close(alpha / mu, i * delta[0], f"mean delay of subtask {i}", rtol=1e-9)
        require_close(alpha / mu ** 2, i * (delta[1] - delta[0] ** 2), f"variance of the delay of subtask {i}", rtol=1e-8)
    waited = any(a2 < d1 for (a1, d1, _), (a2, _, _) in zip(tasks, tasks[1:]))
    return k > 1 and waited


@st.composite
def fj_cases(draw):
    n = draw(st.integers(1, 4))
    m = draw(st.integers(2, 14))
    hi = draw(st.sampled_from([8, 24]))
    return {"n": n, "k": draw(st.integers(1, n)), "kind": draw(st.sampled_from(["FJ", "purge", "SJ"])),
            "buffer": draw(st.one_of(st.none(), st.none(), st.integers(0, 9))), "arr": draw(ints(0, hi, m, m)),
            "svc": (draw(ints(0, hi + 6, 1, 24)) * (m * n))[:m * n], "stop": m - draw(st.integers(0, m - 1)),
            "steps": draw(st.booleans())}


@st.composite
def delta_cases(draw):
    k = draw(st.integers(1, 4))
    m = draw(st.integers(2, 12))
    hi = draw(st.sampled_from([8, 24]))
    return {"n": draw(st.integers(1, 5)), "k": k, "sj": draw(st.booleans()), "delta": draw(st.integers(0, 12)),
            "random": draw(st.booleans()), "delays": draw(ints(0, 30, 1, 12)), "arr": draw(ints(0, hi, m, m)),
            "svc": (draw(ints(0, hi + 4, 1, 24)) * (m * k))[:m * k], "stop": m - draw(st.integers(0, m - 1)),
            "steps": draw(st.booleans())}


SUBS = [
    Sub("fj", fj_cases(), test_fj, quick=1600, thorough=60000,
        rule="non-trivial = several channels, tasks overlap, some task lost if the buffer is finite, k < n under purge"),
    Sub("delta", delta_cases(), test_delta, quick=1600, thorough=60000,
        rule="non-trivial = several parts and overlapping tasks"),
]

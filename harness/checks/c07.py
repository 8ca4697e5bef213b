"""C07: multichannel priority simulator (PR, RS, RW, NP and no priorities)."""
import math
import re

from hypothesis import strategies as st

from ..core import Sub, require, require_close, require_close_seq
from ..simlib import FAR, Script, check_ties, ints, raw_moments, scripted, state_fractions, times
from .c04 import busy_periods

PROPERTY = "C07"
RULE = ("random per-class arrival and service sequences are fed to the real simulator under every discipline; the reported "
        "statistics are compared with an independent event-list model, and the priority rule is checked after every event")
ASSUMPTIONS = ["no two events fall on the same instant",
               "a displaced job keeps its place ahead of the waiting jobs of its class and is not subject to the buffer limit",
               "among jobs of the lowest class in service, the one on the lowest-numbered channel is displaced"]
PREEMPTIVE = ("PR", "RS", "RW")


class Node:
    """Event-list model of one multichannel node.  svc[k](), warm[k]() give the next service time of class k."""

    def __init__(self, disc, n, buffer, svc, warm=None):
        self.disc, self.n, self.buffer, self.svc, self.warm = disc, n, buffer, svc, warm
        self.chan = [None] * n
        self.queue = []                   # waiting jobs; the order is decided in depart()
        self.seq = self.pre = 0

    def next(self):
        return min(((j["end"], c) for c, j in enumerate(self.chan) if j is not None), default=(math.inf, -1))

    def begin(self, c, j, t, warmed=False):
        j["wait"] += t - j["since"]
        if j["left"] is None:
            j["need"] = self.warm[j["k"]]() if warmed else self.svc[j["k"]]()
            j["left"] = j["need"]
            j["first"] = t
        j["end"] = t + j["left"]
        self.chan[c] = j

    def arrive(self, t, k):
        self.seq += 1
        j = {"k": k, "arr": t, "since": t, "wait": 0.0, "left": None, "need": None, "end": None, "dep": None,
             "lost": False, "pos": self.seq, "pre": 0, "first": None}
        idle = [c for c in range(self.n) if self.chan[c] is None]
        if idle:
            self.begin(idle[0], j, t, self.warm is not None and len(idle) == self.n)
            return j
        if self.disc in PREEMPTIVE:
            worst = max(x["k"] for x in self.chan)
            if worst > k:
                c = [x["k"] for x in self.chan].index(worst)
                v = self.chan[c]
                v["since"] = t
                v["pre"] += 1
                self.pre += 1
                if self.disc == "PR":
                    v["left"] = v["end"] - t
                elif self.disc == "RS":
                    v["left"] = self.svc[worst]()
                else:
                    v["left"] = v["need"]
                v["pos"] = -self.pre       # goes in front of its class
                self.queue.append(v)
                self.begin(c, j, t)
                return j
        if self.buffer is None or len(self.queue) < self.buffer:
            self.queue.append(j)
        else:
            j["lost"] = True
        return j

    def depart(self):
        t, c = self.next()
        done = self.chan[c]
        done["dep"] = t
        self.chan[c] = None
        if self.queue:
            j = min(self.queue, key=lambda x: x["pos"] if self.disc == "No" else (x["k"], x["pos"]))
            self.queue.remove(j)
            self.begin(c, j, t)
        return done


def reference(disc, n, K, buffer, arr, svc, warm, total):
    """Returns jobs and the time of the total-th departure (or of the last one)."""
    at = []
    for k in range(K):
        t = 0.0
        for x in arr[k]:
            t += x
            at.append((t, k))
    at.sort()
    node = Node(disc, n, buffer, [iter(s).__next__ for s in svc], warm and [iter(s).__next__ for s in warm])
    jobs, evs = [], [t for t, _ in at]
    done, T, i = 0, 0.0, 0
    while done < total:
        nxt = node.next()[0]
        if i < len(at) and at[i][0] < nxt:
            jobs.append(node.arrive(*at[i]))
            i += 1
        elif nxt == math.inf:
            break
        else:
            T = nxt
            evs.append(T)
            node.depart()
            done += 1
    check_ties(evs)
    return jobs, T, done


def class_fractions(jobs, T, K, p, what="class"):
    """p[k][j] against the fraction of time class k had j jobs; time after the last class event may be missing."""
    require(len(p) == K, f"state probabilities of {len(p)} classes, expected {K}")
    for k in range(K):
        mine = [j for j in jobs if j["k"] == k and not j["lost"]]
        ev = [(j["arr"], 1) for j in mine] + [(j["dep"], -1) for j in mine if j["dep"] is not None]
        ev = [e for e in ev if e[0] <= T + 1e-12]
        lost = [j["arr"] for j in jobs if j["k"] == k and j["lost"] and j["arr"] <= T + 1e-12]
        last = max([e[0] for e in ev] + lost, default=0.0)
        width = len(mine) + 1
        full = state_fractions(ev, T, width)
        part = [x * last / T for x in state_fractions(ev, last, width)] if last > 0 else [0.0] * width
        for i in range(width):
            got = p[k][i]
            lo, hi = min(full[i], part[i]) - 1e-9, max(full[i], part[i]) + 1e-9
            require(lo <= got <= hi, f"{what} {k} state probabilities p[{i}]: got {got}, expected {full[i]}"
                                     f" ({part[i]} up to the last event of the class)")
        require(sum(p[k][width:]) < 1e-9, f"{what} {k}: probability mass above {width - 1} jobs")


def build(case):
    from most_queue.sim.priority_queue_sim import PriorityQueueSimulator
    K = case["K"]
    arr = [times(case["arr"][k], 0.1 + k) for k in range(K)]
    svc = [times(case["svc"][k], 10.7 + k) for k in range(K)]
    warm = [times(case["warm"][k], 20.3 + k) for k in range(K)] if case["warm"] is not None else None
    qs = PriorityQueueSimulator(case["n"], K, case["disc"], buffer=case["buffer"], calc_next_event_time=case["steps"])
    return qs, arr, svc, warm


def test_run(case):
    n, K, disc, buffer = case["n"], case["K"], case["disc"], case["buffer"]
    with scripted():
        qs, arr, svc, warm = build(case)
        jobs, T, total = reference(disc, n, K, buffer, arr, svc, warm, case["stop"])
        if total == 0:
            return False
        qs.set_sources([{"type": "D", "params": Script(a, name="arrivals")} for a in arr])
        qs.set_servers([{"type": "D", "params": Script(s, name="service")} for s in svc])
        if warm is not None:
            qs.set_warm_up([{"type": "D", "params": Script(s, name="warm")} for s in warm])
        if case["steps"]:
            i = 0
            while sum(qs.served) < total:
                if i:
                    due = qs.ttek + qs.time_to_next_event
                before = qs.ttek
                qs.run_one_step()
                require(qs.ttek >= before, "clock went backwards")
                if i:
                    require_close(qs.ttek, due, "announced time of the next event")
                i += 1
                require(i < 10 * len(jobs) + 100 and qs.ttek < FAR / 2, "the simulation makes no progress")
                conserve(qs, n, K, disc, buffer, i)
        else:
            qs.run(total)
        judge(qs, jobs, n, K, disc, buffer, T, warm)
    kinds = {j["k"] for j in jobs if j["wait"] > 0 and j["dep"] is not None and j["dep"] <= T}
    if disc in PREEMPTIVE:
        return any(j["pre"] for j in jobs if j["dep"] is not None and j["dep"] <= T)
    return len(kinds) > 1 or (K == 1 and bool(kinds))


def conserve(qs, n, K, disc, buffer, i):
    busy = [s.class_on_service for s in qs.servers if not s.is_free]
    q = [len(qs.queue)] if disc == "No" else [len(x) for x in qs.queue]
    require(qs.free_channels == n - len(busy), f"after event {i}: {qs.free_channels} free, {len(busy)} busy")
    require(sum(qs.in_sys) == len(busy) + sum(q), f"after event {i}: {qs.in_sys} in system, {busy} in service, {q} queued")
    require(sum(q) == 0 or len(busy) == n, f"after event {i}: {q} queued while a channel is idle")
    for k in range(K):
        require(qs.arrived[k] == qs.served[k] + qs.dropped[k] + qs.in_sys[k], f"after event {i}: class {k} jobs not conserved")
        if disc != "No":
            require(qs.in_sys[k] == busy.count(k) + q[k], f"after event {i}: class {k} miscounted")
    if disc in PREEMPTIVE:
        for k in range(K):
            require(q[k] == 0 or not busy or max(busy) <= k,
                    f"after event {i}: class {k} waits while class {max(busy or [0])} is in service")
    elif buffer is not None:
        require(sum(q) <= buffer, f"after event {i}: {q} queued, buffer {buffer}")


def judge(qs, jobs, n, K, disc, buffer, T, warm):
    eps = 1e-12
    jobs = [j for j in jobs if j["arr"] <= T + eps]
    require_close(qs.ttek, T, "simulation clock")
    for k in range(K):
        mine = [j for j in jobs if j["k"] == k]
        lost = sum(j["lost"] for j in mine)
        done = [j for j in mine if j["dep"] is not None and j["dep"] <= T + eps]
        require(qs.arrived[k] == len(mine), f"class {k}: arrived {qs.arrived[k]}, expected {len(mine)}")
        require(qs.dropped[k] == lost, f"class {k}: dropped {qs.dropped[k]}, expected {lost}")
        require(qs.served[k] == len(done), f"class {k}: served {qs.served[k]}, expected {len(done)}")
        require(qs.in_sys[k] == len(mine) - lost - len(done), f"class {k}: in system {qs.in_sys[k]}")
        if disc not in PREEMPTIVE:
            began = sum(1 for j in mine if j["first"] is not None and j["first"] <= T + eps)
            require(qs.taked[k] == began, f"class {k}: taken {qs.taked[k]}, expected {began}")
        require_close_seq(qs.v[k], raw_moments([j["dep"] - j["arr"] for j in done]), f"class {k} sojourn moments", rtol=1e-8)
        require_close_seq(qs.w[k], raw_moments([j["wait"] for j in done]), f"class {k} waiting moments", rtol=1e-8,
                          atol=1e-9)
    class_fractions(jobs, T, K, qs.get_p())
    if K == 1 or (disc in PREEMPTIVE and buffer is None):
        # the highest class sees its own busy periods
        mine = [(j["arr"], j["first"], j["dep"] if j["dep"] is not None else math.inf)
                for j in jobs if j["k"] == 0 and not j["lost"] and j["first"] is not None]
        bp = busy_periods(mine, n, T)
        require(qs.ppnz_moments[0] == len(bp), f"busy periods {qs.ppnz_moments[0]}, expected {len(bp)}")
        require_close_seq(qs.ppnz[0], raw_moments(bp), "busy-period moments", rtol=1e-8)


@st.composite
def run_cases(draw):
    K = draw(st.integers(1, 4))
    n = draw(st.integers(1, 4))
    disc = draw(st.sampled_from(["PR", "RS", "RW", "NP", "No"]))
    m = draw(st.integers(2, 14))
    hi = draw(st.sampled_from([8, 30, 60]))
    # every displacement under RS draws again; K*m*m draws always suffice for the short scripts used here
    need = m + (K * m if disc == "RS" else 0) + 1
    svc = [draw(ints(0, max(1, hi * n // K), 1, 16)) for _ in range(K)]
    return {"K": K, "n": n, "disc": disc, "buffer": draw(st.one_of(st.none(), st.none(), st.integers(0, 4))),
            "arr": [draw(ints(0, hi, m, m)) for _ in range(K)],
            "svc": [(s * (need // len(s) + 1))[:need] for s in svc],
            "warm": [draw(ints(0, hi * 2, m, m)) for _ in range(K)] if draw(st.integers(0, 3)) == 0 else None,
            "stop": K * m - draw(st.integers(0, K * m - 1)), "steps": draw(st.booleans())}


# ------------------------------------------------------------------ load
MEANS = {
    "M": (lambda p: p, lambda p: 1.0 / p),
    "H": (lambda p: p, lambda p: p[0] / p[1] + (1 - p[0]) / p[2]),
    "E": (lambda p: [max(1, round(p[0] * 5)), p[1]], lambda p: p[0] / p[1]),
    "Gamma": (lambda p: [p[1], p[2]], lambda p: p[1] / p[0]),
    "C": (lambda p: p, lambda p: 1 / p[1] + p[0] / p[2]),
    "Pa": (lambda p: [1.1 + p[0], p[1]], lambda p: p[0] * p[1] / (p[0] - 1)),
    "Uniform": (lambda p: [p[1], p[0] * p[1]], lambda p: p[0]),
    "D": (lambda p: p[1], lambda p: p),
}


def spec(c):
    kind, raw = c
    raw = [raw[0] / 100, raw[1] / 16, raw[2] / 16]
    make, mean = MEANS[kind]
    params = raw[1] if kind == "M" else make(raw)
    return {"type": kind, "params": params}, mean(params)


def test_load(case):
    from most_queue.sim.priority_queue_sim import PriorityQueueSimulator
    n, K = case["n"], len(case["cls"])
    src = [spec(a) for a, _ in case["cls"]]
    srv = [spec(b) for _, b in case["cls"]]
    qs = PriorityQueueSimulator(n, K, case["disc"])
    qs.set_sources([s for s, _ in src])
    qs.set_servers([s for s, _ in srv])
    want = sum(b / a for (_, a), (_, b) in zip(src, srv)) / n
    require_close(qs.calc_load(), want, "load", rtol=1e-9)
    qs.run(case["jobs"])
    shown = re.search(r"Load: ([0-9.]+)", str(qs))
    require(shown is not None and abs(float(shown.group(1)) - want) < 0.00051, "printed report does not show the load")
    require(sum(qs.served) == case["jobs"], f"served {qs.served}, asked for {case['jobs']}")
    return K > 1


kinds = st.tuples(st.sampled_from(sorted(MEANS)), st.tuples(st.integers(5, 95), st.integers(4, 60), st.integers(4, 60)))

SUBS = [
    Sub("run", run_cases(), test_run, quick=900, thorough=40000,
        rule="non-trivial = a displaced job was completed (preemptive) or jobs of two classes waited"),
    Sub("load", st.fixed_dictionaries({"n": st.integers(1, 4), "disc": st.sampled_from(["PR", "RS", "RW", "NP", "No"]),
                                       "jobs": st.integers(1, 30),
                                       "cls": st.lists(st.tuples(kinds, kinds), min_size=1, max_size=4)}),
        test_load, quick=160, thorough=4000, rule="non-trivial = several classes"),
]

"""C08: open network of priority nodes."""
import math
from itertools import permutations

import numpy as np
from hypothesis import strategies as st

from ..core import Discard, Sub, require, require_close, require_close_seq
from ..simlib import Script, check_ties, ints, raw_moments, scripted, times
from .c07 import PREEMPTIVE, Node

PROPERTY = "C08"
RULE = ("random arrivals, per-node per-class service sequences, disciplines, priority permutations and routing matrices are "
        "fed to the real network simulator; given the routes it chose, all statistics are compared with an independent model")
ASSUMPTIONS = ["no two events fall on the same instant",
               "the order of displaced jobs is as in C07",
               "routes are taken from the simulator (recorded at its nodes) and their frequencies tested separately"]


def reference(case, arr, svc, routes, total):
    """routes[k] = list of node lists in order of the jobs of class k (last element None = left the network)."""
    K, N = case["K"], len(case["n"])
    inv = [[case["prty"][m].index(c) for c in range(K)] for m in range(N)]      # node class -> real class
    nodes = [Node(case["disc"][m], case["n"][m], None,
                  [iter(svc[m][inv[m][c]]).__next__ for c in range(K)]) for m in range(N)]
    at = []
    for k in range(K):
        t = 0.0
        for x in arr[k]:
            t += x
            at.append((t, k))
    at.sort()
    jobs, evs = [], [t for t, _ in at]
    seen = [0] * K
    i = done = pre = 0
    T = 0.0
    owner = {}
    while done < total:
        m = min(range(N), key=lambda m: nodes[m].next()[0])
        nxt = nodes[m].next()[0]
        if i < len(at) and at[i][0] < nxt:
            t, k = at[i]
            i += 1
            if seen[k] >= len(routes[k]):
                require(False, f"job {seen[k] + 1} of class {k} should have entered the network by {t}")
            job = {"k": k, "arr": t, "wait": 0.0, "dep": None, "route": list(routes[k][seen[k]]), "step": 0, "pre": 0}
            seen[k] += 1
            jobs.append(job)
        else:
            if nxt == math.inf:
                break
            t = nxt
            evs.append(t)
            leg = nodes[m].depart()
            job = owner.pop(id(leg))
            job["wait"] += leg["wait"]
            job["pre"] += leg["pre"]
            job["step"] += 1
        if job["step"] >= len(job["route"]):
            require(False, f"a job of class {job['k']} should have moved on at {t}, its recorded route is {job['route']}")
        to = job["route"][job["step"]]
        if to is None:
            job["dep"] = T = t
            done += 1
        else:
            leg = nodes[to].arrive(t, case["prty"][to][job["k"]])
            leg["keep"] = job
            owner[id(leg)] = job
    check_ties(evs)
    return jobs, T, done


def matrices(case):
    N = len(case["n"])
    out = []
    for k in range(case["K"]):
        M = np.zeros((N + 1, N + 1))
        for i in range(N + 1):
            row = list(case["R"][k][i])
            if i == 0:
                row[N] = 0           # every job visits some node
            else:
                row[N] += 1          # every job can leave
            if sum(row) == 0:
                row[0] = 1
            M[i] = np.array(row, float) / sum(row)
        out.append(np.matrix(M) if case["matrix"] else M)
    return out


def record(cls, log):
    """Wrap the node simulator's public arrival() to note (node, job) as jobs enter nodes."""
    orig = cls.arrival

    def arrival(self, k, moment=None, ts=None):
        if ts is not None:
            log.append((id(self), ts))
        return orig(self, k, moment, ts)
    cls.arrival = arrival
    return orig


def test_run(case):
    from most_queue.sim.priority_network import PriorityNetwork
    from most_queue.sim.priority_queue_sim import PriorityQueueSimulator
    K, N = case["K"], len(case["n"])
    arr = [times(case["arr"][k], 0.1 + k) for k in range(K)]
    L = 60
    svc = [[times((case["svc"][m][k] * L)[:L * len(arr[k])], 10.7 + k + 5 * m) for k in range(K)] for m in range(N)]
    R = matrices(case)
    log = []
    with scripted():
        orig = record(PriorityQueueSimulator, log)
        try:
            np.random.seed(case["seed"])
            net = PriorityNetwork(K, [Script(a, name="arrivals") for a in arr], R, case["n"], case["disc"],
                                  [[{"type": "D", "params": Script(svc[m][k], after=None, name="service")}
                                    for k in range(K)] for m in range(N)], case["prty"])
            number = {id(q): m for m, q in enumerate(net.smos)}
            total = case["stop"]
            if case["steps"]:
                i = 0
                while sum(net.served) < total:
                    before = net.ttek
                    net.run_one_step()
                    i += 1
                    require(i < 3000, "the simulation makes no progress")
                    require(net.ttek >= before, "clock went backwards")
                    for k in range(K):
                        inside = sum(net.smos[m].in_sys[case["prty"][m][k]] for m in range(N))
                        require(net.in_sys[k] == inside == net.arrived[k] - net.served[k],
                                f"after event {i}: class {k}: {net.arrived[k]} arrived, {net.served[k]} served, "
                                f"{net.in_sys[k]} in the network, {inside} in nodes")
            else:
                net.run(total)
        finally:
            PriorityQueueSimulator.arrival = orig
    # routes by job, in order of network arrival
    tasks, paths = [], {}
    for q, ts in log:
        if id(ts) not in paths:
            paths[id(ts)] = []
            tasks.append(ts)
        paths[id(ts)].append(number[q])
    routes = [[] for _ in range(K)]
    for ts in tasks:
        path = paths[id(ts)]
        for a, b in zip([-1] + path, path):
            require(R[ts.k][a + 1, b] > 0, f"class {ts.k} went from node {a} to node {b}, which has probability 0")
        routes[ts.k].append(path + [None])
    # the last leg of a job still inside is not an exit: the model runs only to the last departure
    jobs, T, done = reference(case, arr, svc, routes, total)
    require(done == total, f"only {done} jobs leave the network, simulated {total}")
    require_close(net.ttek, T, "simulation clock")
    for k in range(K):
        mine = [j for j in jobs if j["k"] == k]
        out = [j for j in mine if j["dep"] is not None]
        require(net.arrived[k] == len(mine), f"class {k}: arrived {net.arrived[k]}, expected {len(mine)}")
        require(net.served[k] == len(out), f"class {k}: served {net.served[k]}, expected {len(out)}")
        require(net.in_sys[k] == len(mine) - len(out), f"class {k}: in the network {net.in_sys[k]}")
        require_close_seq(net.v_network[k], raw_moments([j["dep"] - j["arr"] for j in out]), f"class {k} sojourn moments",
                          rtol=1e-8)
        require_close_seq(net.w_network[k], raw_moments([j["wait"] for j in out]), f"class {k} waiting moments",
                          rtol=1e-8, atol=1e-9)
    return K > 1 and any(j["wait"] > 0 and len(j["route"]) > 2 for j in jobs if j["dep"] is not None)


@st.composite
def run_cases(draw):
    K = draw(st.integers(1, 3))
    N = draw(st.integers(1, 4))
    m = draw(st.integers(2, 9))
    hi = draw(st.sampled_from([10, 40]))
    return {"K": K, "n": [draw(st.integers(1, 3)) for _ in range(N)],
            "disc": [draw(st.sampled_from(["PR", "NP", "RW", "RS", "No"])) for _ in range(N)],
            "prty": [draw(st.sampled_from([list(p) for p in permutations(range(K))])) for _ in range(N)],
            "R": [[draw(st.lists(st.sampled_from([0, 0, 1, 2]), min_size=N + 1, max_size=N + 1)) for _ in range(N + 1)]
                  for _ in range(K)],
            "arr": [draw(ints(0, hi, m, m)) for _ in range(K)],
            "svc": [[draw(ints(0, hi, 1, 6)) for _ in range(K)] for _ in range(N)],
            "seed": draw(st.integers(0, 10 ** 6)), "matrix": draw(st.booleans()),
            "stop": K * m - draw(st.integers(0, K * m - 1)), "steps": draw(st.booleans())}


def test_routing(case):
    """Long-run routing frequencies follow R."""
    from most_queue.sim.priority_network import PriorityNetwork
    from most_queue.sim.priority_queue_sim import PriorityQueueSimulator
    N = len(case["n"])
    K = case["K"]
    R = matrices(case)
    log = []
    with scripted():
        orig = record(PriorityQueueSimulator, log)
        try:
            np.random.seed(case["seed"])
            net = PriorityNetwork(K, [Script([1.0 + 1e-3 * k] * 4000) for k in range(K)], R, case["n"], case["disc"],
                                  [[{"type": "D", "params": 1e-4 * (m + 1)} for k in range(K)] for m in range(N)],
                                  case["prty"])
            number = {id(q): m for m, q in enumerate(net.smos)}
            net.run(1500 * K)
        finally:
            PriorityQueueSimulator.arrival = orig
    where = {}
    cnt = np.zeros((K, N + 1, N + 1))
    for q, ts in log:
        cnt[ts.k, where.get(id(ts), -1) + 1, number[q]] += 1
        where[id(ts)] = number[q]
    for ts in {id(t): t for _, t in log}.values():
        cnt[ts.k, where[id(ts)] + 1, N] += 1      # at most a couple of jobs are still inside
    for k in range(K):
        for i in range(N + 1):
            tot = cnt[k, i].sum()
            for j in range(N + 1):
                p = float(R[k][i, j])
                sd = math.sqrt(tot * p * (1 - p))
                require(abs(cnt[k, i, j] - tot * p) <= 6.5 * sd + 3,
                        f"class {k}: {cnt[k, i, j]:.0f} of {tot:.0f} moves {i - 1} -> {j}, probability {p:.4f}")
    return N > 1


@st.composite
def routing_cases(draw):
    K = draw(st.integers(1, 2))
    N = draw(st.integers(1, 4))
    return {"K": K, "n": [draw(st.integers(1, 3)) for _ in range(N)],
            "disc": [draw(st.sampled_from(["PR", "NP"])) for _ in range(N)],
            "prty": [list(range(K)) for _ in range(N)],
            "R": [[draw(st.lists(st.integers(0, 4), min_size=N + 1, max_size=N + 1)) for _ in range(N + 1)]
                  for _ in range(K)],
            "seed": draw(st.integers(0, 10 ** 6)), "matrix": draw(st.booleans())}


SUBS = [
    Sub("run", run_cases(), test_run, quick=700, thorough=30000,
        rule="non-trivial = several classes and a completed job that waited and visited more than one node"),
    Sub("routing", routing_cases(), test_routing, quick=32, thorough=800, rule="non-trivial = more than one node"),
]
_ = (Discard, PREEMPTIVE)

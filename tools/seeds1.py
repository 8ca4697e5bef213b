SEEDS = {
"s01-buffer-zero": dict(property="C04", edits=[("sim/qs_sim.py", "        if self.buffer is None:  # queue", "        if not self.buffer:  # queue")],
 needs="a queue with no waiting places at all (buffer=0)", breaks="buffer=0 is treated as an unlimited queue: no job is ever lost",
 demo='''
from most_queue.sim.qs_sim import QueueingSystemSimulator
for q in (0, 1, 2):
    qs = QueueingSystemSimulator(1, buffer=q)
    qs.set_sources(1.0, 'D')
    qs.set_servers(2.5, 'D')
    qs.run(20)
    assert qs.dropped > 0, (q, qs.dropped)
    assert len([x for x in qs.get_p() if x > 0]) <= q + 2, (q, qs.get_p()[:6])
'''),
"s02-cold-restart": dict(property="C05", edits=[("sim/qs_sim.py", """        else:
            # Send n jobs from the queue to the channels
            for i in range(self.n):
""", """        else:
            # Send jobs from the queue to the channels
            for i in range(min(self.n, 2)):
""")],
 needs="cooling without warm-up, three or more channels and three or more jobs waiting when the cooling ends",
 breaks="only two waiting jobs are started when the cooling ends although more channels are free",
 demo='''
from most_queue.sim.qs_sim import QueueingSystemSimulator
qs = QueueingSystemSimulator(4)
qs.set_cold(4.5, 'D')
qs.set_sources(1.0, 'D')
qs.set_servers(0.75, 'D')
qs.run(4)
# arrival at 1, served until 1.75, cooling until 6.25; the jobs of 2, 3, 4, 5 start then (waits 4.25 3.25 2.25 1.25)
assert abs(qs.ttek - 7.0) < 1e-9, qs.ttek
qs.run(5)
assert abs(qs.ttek - 7.0) < 1e-9, qs.ttek
assert qs.taked >= 5
'''),
"s03-priority-buffer": dict(property="C07", edits=[("sim/priority_queue_sim.py", "                            total_queue_length = 0\n                            for q in self.queue:\n                                total_queue_length += len(q)\n", "                            for q in self.queue:\n                                total_queue_length = len(q)\n")],
 needs="preemptive discipline with a finite buffer, and a class other than the last with jobs waiting",
 breaks="the buffer limit counts only the queue of the last class, so higher classes are never lost",
 demo='''
from most_queue.sim.priority_queue_sim import PriorityQueueSimulator
qs = PriorityQueueSimulator(1, 3, "PR", buffer=2)
qs.set_sources([{'type': 'D', 'params': 1.0}, {'type': 'D', 'params': 50.3}, {'type': 'D', 'params': 70.1}])
qs.set_servers([{'type': 'D', 'params': 10.0}] * 3)
longest = 0
for _ in range(40):
    qs.run_one_step()
    longest = max(longest, len(qs.queue[0]))
assert longest <= 2, longest
assert qs.dropped[0] > 10, qs.dropped
'''),
"s04-network-route": dict(property="C08", edits=[("sim/priority_network.py", "            next_node = self.play_next_node(real_class, num_of_node_earlier)", "            next_node = self.play_next_node(ts.in_node_class_num, num_of_node_earlier)")],
 needs="a node whose priority order differs from the class numbers, and classes with different routing matrices",
 breaks="after service a job is routed by the matrix of another class",
 demo='''
import time
time.sleep = lambda s: None
import numpy as np
from most_queue.sim.priority_network import PriorityNetwork
# class 0: in -> node 0 -> out;  class 1: in -> node 0 -> node 1 -> out
R0 = np.matrix([[1, 0, 0], [0, 0, 1], [0, 0, 1]], dtype=float)
R1 = np.matrix([[1, 0, 0], [0, 1, 0], [0, 0, 1]], dtype=float)
serv = [[{'type': 'M', 'params': 5.0}] * 2] * 2
net = PriorityNetwork(2, [0.5, 0.5], [R0, R1], [1, 1], ["NP", "NP"], serv, [[1, 0], [0, 1]])
net.run(600)
a = net.smos[1].arrived
assert a[0] == 0, a
assert a[1] > 100, a
'''),
"s05-impatience-scan": dict(property="C06", edits=[("sim/impatient_queue_sim.py", """                moment_to_leave_earlier = tsk.moment_to_leave
                num_of_task_earlier = i

        # Key""", """                moment_to_leave_earlier = tsk.moment_to_leave
                num_of_task_earlier = i
            elif tsk.moment_to_leave > 2 * self.ttek - tsk.arr_time:
                break

        # Key""")],
 needs="two or more jobs waiting where a later job gives up before an earlier one",
 breaks="a job behind a more patient one does not leave at the end of its patience",
 demo='''
from most_queue.sim.impatient_queue_sim import ImpatientQueueSim
class Script:
    def __init__(self, xs):
        self.xs = list(xs)
        self.type = 'M'
    def generate(self):
        return self.xs.pop(0) if self.xs else 1e6
qs = ImpatientQueueSim(1)
qs.set_sources(1.0, 'D')
qs.set_servers(1000.0, 'D')
qs.set_impatiens(1.0, 'M')
qs.impatience = Script([5000.0, 5.0, 9.0, 0.5, 0.25])
times = []
for _ in range(7):
    left = qs.served
    qs.run_one_step()
    if qs.served > left:
        times.append(qs.ttek)
# arrivals at 1 2 3 4 5: the jobs of 4 and 5 leave at 4.5 and 5.25
assert times[:2] == [4.5, 5.25], times
'''),
"s06-mmnr-queue": dict(property="C14", edits=[("theory/mmnr_calc.py", "            for nn in range(k, r + 1):", "            for nn in range(k, r):")],
 needs="factorial moments of the queue of a small finite buffer", breaks="the state with a full buffer is left out of the queue-length moments",
 demo='''
from most_queue.theory.mmnr_calc import MMnr_calc
p = MMnr_calc.get_p(3.0, 1.0, 2, 4)
q = MMnr_calc.get_qs(3.0, 1.0, 2, 4)
assert abs(q[0] - sum(i * p[2 + i] for i in range(5))) < 1e-9, q
assert abs(q[0] - MMnr_calc.getQ(3.0, 1.0, 2, 4)) < 1e-9, q
'''),
"s07-gi-heavy": dict(property="C12", edits=[("theory/gi_m_n_calc.py", """        v, alpha, g = Gamma.get_params(a)
        while True:
            summ = 0
            for i in range(len(g)):
                summ += (g[i] / pow(mu * n""", """        v, alpha, g = Gamma.get_params(a)
        for _ in range(40):
            summ = 0
            for i in range(len(g)):
                summ += (g[i] / pow(mu * n""")],
 needs="a load close to one: the iteration for the root needs more than 40 steps", breaks="the root of the GI/M/n equation has not converged, so all probabilities and waits are off",
 demo='''
from most_queue.theory.gi_m_n_calc import get_p
def root(alpha, v, c):
    lo, hi = 0.0, 1 - 1e-9
    lo = 0.0
    for _ in range(200):
        m = (lo + hi) / 2
        if (1 + c * (1 - m) / v) ** -alpha > m:
            lo = m
        else:
            hi = m
    return lo
for rho in (0.5, 0.9, 0.98):
    for alpha in (0.4, 1.0, 4.0):
        v = alpha * 2 * rho            # mean interval 1 / (2 rho), two channels of rate one
        a = [alpha / v, alpha * (alpha + 1) / v ** 2, alpha * (alpha + 1) * (alpha + 2) / v ** 3,
             alpha * (alpha + 1) * (alpha + 2) * (alpha + 3) / v ** 4]
        p = get_p(a, 1.0, 2, num=20)
        w = root(alpha, v, 2.0)
        assert abs(p[15] / p[14] - w) < 1e-5 * (1 - w), (rho, alpha, p[15] / p[14], w)
'''),
"s08-flow-third": dict(property="C10", edits=[("theory/utils/flow_sum.py", "                f.append(self.a[j + 2])", "                f.append(self.a[j + 1])")],
 needs="three or more flows that are not all alike", breaks="the second flow is added once more instead of the third",
 demo='''
import sys, types
from most_queue.theory.utils.flow_sum import SummatorNumeric
ls = [1.0, 2.0, 5.0]
a = [[1 / l, 2 / l ** 2, 6 / l ** 3, 24 / l ** 4] for l in ls]
s = SummatorNumeric(a, is_semi=True)
s.sum_flows()
assert abs(s.result_flow[0] - 1 / 8.0) < 1e-9, s.result_flow
'''),
"s09-erlang-order": dict(property="C01", edits=[("rand_distribution.py", "        r = int(math.floor(f[0] * f[0] / (f[1] - f[0] * f[0]) + 0.5))", "        r = int(math.ceil(f[0] * f[0] / (f[1] - f[0] * f[0])))")],
 needs="moments of an Erlang law whose order comes out a rounding error above an integer (for example order 3, rate 0.7)", breaks="the fitted order is one too high",
 demo='''
from most_queue.rand_distribution import Erlang_dist
for r in range(1, 12):
    for m in range(1, 60):
        f = Erlang_dist.calc_theory_moments(r, m / 7)
        got = Erlang_dist.get_params(f)
        assert got[0] == r and abs(got[1] - m / 7) < 1e-6, (r, m / 7, got)
'''),
"s10-mgn-complex": dict(property="C15", edits=[("theory/mgn_tt.py", "                output[i, i] = (num - i - 1) * self.mu[0] * self.y[0] + i * self.mu[1] * self.y[1]", "                output[i, i] = ((num - i - 1) * self.mu[0] * self.y[0] + i * self.mu[1] * self.y[1]).real")],
 needs="service with a small coefficient of variation, whose two-phase fit has complex parameters", breaks="the real part of a complex transition rate is used, so the solution is not the stationary one",
 demo='''
import signal
signal.alarm(60)
from most_queue.theory.mgn_tt import MGnCalc
for r in (1.5, 3, 4):
    b = [1.0, (r + 1) / r, (r + 1) * (r + 2) / r ** 2]
    for n in (1, 2):
        l = 0.6 * n
        q = MGnCalc(n, l, b)
        q.run()
        p = q.get_p()
        busy = sum(min(k, n) * p[k] for k in range(len(p)))
        assert abs(busy - l) < 1e-3, (r, n, busy, l)
        if n == 1:
            w = l * b[1] / (2 * (1 - l))
            assert abs(q.get_w()[0] - w) < 1e-3 * w, (r, q.get_w()[0], w)
'''),
}

SEEDS = {
"s11-pareto-moments": dict(property="C02", edits=[("rand_distribution.py", "            if a > i + 1:\n                f.append(a * math.pow(k, i + 1) / (a - i - 1))", "            if a >= i + 1.5:\n                f.append(a * math.pow(k, i + 1) / (a - i - 1))")],
 needs="a Pareto law whose exponent lies less than one half above an integer moment order",
 breaks="existing moments of a Pareto law are left out",
 demo='''
from most_queue.rand_distribution import Pareto_dist
for a in (1.25, 1.75, 2.25, 3.5, 3.1):
    m = Pareto_dist.calc_theory_moments(a, 2.0)
    assert len(m) == sum(1 for i in (1, 2, 3) if a > i), (a, m)
    assert all(abs(x - a * 2.0 ** (i + 1) / (a - i - 1)) < 1e-9 * x for i, x in enumerate(m))
'''),
"s12-cox-generator": dict(property="C03", edits=[("rand_distribution.py", "                res = res + (-1.0 / m2) * np.log(generator.random())", "                res = res + (-1.0 / m2) * np.log(r / y1)"), ("rand_distribution.py", "            r = generator.random()\n            res = (-1.0 / m1) * np.log(generator.random())", "            r = generator.random()\n            res = (-1.0 / m1) * np.log(1.0 - r)")],
 needs="a Cox law with its own generator: the number that chooses the second phase also gives the lengths of the phases",
 breaks="the two phases of a Cox sample are no longer independent",
 demo='''
import numpy as np
from most_queue.rand_distribution import Cox_dist
y, m1, m2 = 0.6, 1.3, 0.4
x = [Cox_dist.generate_static(y, m1, m2, np.random.default_rng(7 * i)) for i in range(1)]
g = np.random.default_rng(5)
x = np.array([Cox_dist.generate_static(y, m1, m2, g) for _ in range(60000)])
f = Cox_dist.calc_theory_moments(y, m1, m2)
assert abs(x.mean() / f[0].real - 1) < 0.03, (x.mean(), f)
assert abs((x ** 2).mean() / f[1].real - 1) < 0.06, ((x ** 2).mean(), f)
'''),
"s13-splitjoin-delta": dict(property="C09", edits=[("sim/fj_delta_sim.py", "                if self.free_channels != 0 and self.serv_task_id == subtsk.task_id:", "                if self.free_channels != 0 and subtsk.task_id - self.serv_task_id <= 1:")],
 needs="split-join with delays where a delayed subtask of the next task arrives while the previous task still holds some channels and others are free",
 breaks="a subtask of the next task starts before the previous task is complete",
 demo='''
from most_queue.sim.fj_delta_sim import ForkJoinSimDelta
from most_queue.sim.utils.tasks import ForkJoinTask
ForkJoinTask.task_id = 0
class Seq:
    type = "X"
    def __init__(self, xs): self.xs = list(xs); self.i = 0
    def generate(self): self.i += 1; return self.xs[(self.i - 1) % len(self.xs)]
q = ForkJoinSimDelta(2, 2, 0.5, True)
q.set_sources(1.0, "D")
q.set_servers(1.0, "D")
q.source = Seq([1.25, 1000.0]); q.arrival_time = 1.0
d = Seq([6.0, 1.0, 1.0, 1.0])
for s in q.servers: s.dist = d
# task 1 at 1 (subtasks 6 and 1 long, from 1 and 1.5), task 2 at 2.25, delayed subtask at 2.75; task 1 is complete at 7
while q.served < 2: q.run_one_step()
assert abs(q.ttek - 8.0) < 1e-9, q.ttek
assert abs(q.v[0] - (6.0 + 5.75) / 2) < 1e-9, q.v
'''),
"s14-mg1-v3": dict(property="C11", edits=[("theory/mg1_calc.py", "    num_of_mom = min(len(b) - 1, num)\n\n    w = get_w(l, b, num_of_mom)", "    num_of_mom = min(len(b) - 1, num)\n    b = b[:num_of_mom] + b[-1:]\n\n    w = get_w(l, b, num_of_mom)")],
 needs="the sojourn time asked for with fewer moments than service moments given (num < len(b) - 1)",
 breaks="the last moment of the waiting time is taken from a wrong service moment",
 demo='''
from most_queue.theory.mg1_calc import get_v, get_w
b = [1.0, 1.5, 3.0, 7.5, 22.5, 78.75]
full = get_v(0.6, b, 3)
for num in (1, 2):
    v = get_v(0.6, b, num)
    assert len(v) == num and all(abs(x - y) < 1e-12 * y for x, y in zip(v, full)), (v, full)
for k in (3, 4):
    v = get_v(0.6, b[:k], 3)
    assert all(abs(x - y) < 1e-12 * y for x, y in zip(v, full))
'''),
"s16-cold-warm-split": dict(property="C16", edits=[("theory/mmn_with_h2_cold_and_h2_warmup.py", "        for k in range(1, self.N):\n            p_warmup += self.Y[k][0, 0] + self.Y[k][0, 1]", "        for k in range(1, self.n + 1):\n            p_warmup += self.Y[k][0, 0] + self.Y[k][0, 1]")],
 needs="jobs that gather beyond the number of channels during the warm-up (long warm-up or few channels)",
 breaks="the share of time in warm-up leaves out the states with waiting jobs",
 demo='''
from most_queue.theory.mmn_with_h2_cold_and_h2_warmup import MMn_H2warm_H2cold
from most_queue.rand_distribution import H2_dist
def run(n, l, warm):
    w = H2_dist.calc_theory_moments(0.4, 1.5 / warm, 0.8 / warm)
    c = H2_dist.calc_theory_moments(0.4, 3.0, 1.0)
    q = MMn_H2warm_H2cold(l, 1.0, w, c, n, N=60)
    q.run()
    return q, w, c
for n, l, warm in ((3, 1.2, 0.2), (1, 0.6, 2.0), (2, 1.0, 1.5)):
    q, w, c = run(n, l, warm)
    p = q.get_p()
    # a cycle has one warm-up and one cooling: the shares are as the mean times
    ratio = q.get_warmup_prob() / q.get_cold_prob()
    assert abs(ratio / (w[0] / c[0]) - 1) < 0.02, (n, ratio, w[0] / c[0])
'''),
"s17-warm-busy-fourth": dict(property="C17", edits=[("theory/priority_calc.py", "f[1] * (3 * math.pow(l * pnz[1], 2) + 4 * l * pnz[2] * z)", "f[1] * (3 * math.pow(l * pnz[1], 2) + 4 * l * pnz[2])")],
 needs="the third moment of the third or a lower class (it uses the fourth moment of the busy period of the second class)",
 breaks="the fourth moment of a busy period opened by a special job is too small",
 demo='''
import math
from most_queue.theory.priority_calc import ppnz_calc, ppnz_calc_warm_up
# a special first job with the law of the others gives the ordinary busy period
for l in (0.2, 0.5, 0.8):
    b = [math.factorial(k) for k in range(1, 7)]
    x = ppnz_calc(l, b)
    y = ppnz_calc_warm_up(l, b, x)
    assert all(abs(u / v - 1) < 1e-9 for u, v in zip(x, y)), (l, x, y)
'''),
"s20-network-unvisited": dict(property="C20", edits=[("theory/network_calc.py", "        for n in null_numbers:\n            if n == i:\n                l_out[i] = 0\n                skip = True\n        if skip:\n            continue", "        if i in null_numbers[:1]:\n            l_out[i] = 0\n            continue\n        for n in null_numbers:\n            skip = n == i\n        if skip:\n            continue")],
 needs="a class that never visits three nodes: the middle one of them takes the flow of another node",
 breaks="traffic of a visited node is credited to a node without arrivals",
 demo='''
import numpy as np
from most_queue.theory.network_calc import balance_equation
# nodes 1..5; nodes 1, 2 and 4 are never visited
R = np.zeros((6, 6))
R[0, 2] = 1.0
R[1, 5] = R[2, 5] = R[4, 5] = 1.0
R[3, 4] = 0.5
R[3, 5] = 0.5
R[5, 5] = 1.0
for zero in ([0, 1, 3], [0, 1], [3], [0]):
    R = np.zeros((6, 6))
    live = [i for i in range(5) if i not in zero]
    R[0, live[0]] = 1.0
    for a, b in zip(live, live[1:]):
        R[a + 1, b], R[a + 1, 5] = 0.5, 0.5
    R[live[-1] + 1, 5] = 1.0
    for i in zero:
        R[i + 1, 5] = 1.0
    l = balance_equation(2.0, np.matrix(R))
    want = [0.0] * 5
    x = 2.0
    for i in live:
        want[i] = x
        x /= 2
    assert np.allclose(l, want), (zero, l, want)
'''),
"s21-forkjoin-weights": dict(property="C21", edits=[("theory/fj_calc.py", "        for j in range(1, i - k + 1):\n            summ += combination(n - i + j, j) * get_A(n, k, i - j)", "        for j in range(1, min(i - k, 2) + 1):\n            summ += combination(n - i + j, j) * get_A(n, k, i - j)")],
 needs="a partial join (n, k) with n - k >= 3",
 breaks="the weights of the order statistics of three and more steps leave out terms",
 demo='''
from most_queue.theory.fj_calc import get_W, get_v1_varma_nk, get_Hn
# without load, the mean of the k-th of n exponential times
for n in range(2, 8):
    for k in range(1, n + 1):
        want = get_Hn(n) - get_Hn(n - k)
        got = sum(get_W(n, k, i) * get_Hn(i) for i in range(k, n + 1))
        assert abs(got - want) < 1e-8, (n, k, got, want)
'''),
"s15-mdn-iterations": dict(property="C13", edits=[("theory/m_d_n_calc.py", "            while not is_close:", "            for _ in range(12):")],
 needs="many channels and a load close to one: the root nearest to the unit circle converges slowly",
 breaks="the roots are not iterated to convergence",
 demo='''
import numpy as np
from most_queue.theory.m_d_n_calc import M_D_n
for n, rho in ((1, 0.5), (4, 0.7), (24, 0.96)):
    q = M_D_n(n * rho, 1.0, n)
    p = q.calc_p_up_to_n()
    for z in q.z_:
        assert abs(z ** n - np.exp(n * rho * (z - 1))) < 1e-7, (n, rho, z)
    p = q.calc_p()
    # the state after one service time: at most n jobs have left
    a = [np.exp(-n * rho)]
    for k in range(1, 60):
        a.append(a[-1] * n * rho / k)
    assert abs(sum(p[:n + 1]) * a[0] - p[0]) < 1e-8, (n, rho)
'''),
"s18-phn-inner-phase": dict(property="C18", edits=[("theory/m_ph_n_prty.py", """        # C_for_busy
        l_start = 1
        for i in range(1, self.n):
            rows""", """        # C_for_busy
        l_start = 1
        for i in range(1, min(self.n, 2)):
            rows""")],
 needs="three or more channels and a high class with two phases",
 breaks="with two high class jobs in service neither moves to its second phase",
 demo='''
import contextlib, io
import numpy as np
from most_queue.theory.m_ph_n_prty import m_ph_n_prty
# the chain of the high class below n jobs: every state of the second level has its phase moves
with contextlib.redirect_stdout(io.StringIO()):
    for n in (2, 3):
        q = m_ph_n_prty(1.0, 1.2, 0.7, 0.6, 0.3, 0.2 * n, n, N=8, verbose=False)
        C = q.C[0]
        for i in range(1, n):
            start = i * (i + 1) // 2
            for j in range(i):
                want = (i - j) * 1.2 * 0.6
                assert abs(C[start + j, start + j + 1] - want) < 1e-9, (n, i, j, C[start + j, start + j + 1], want)
'''),
"s19-gap-branch": dict(property="C19", edits=[("theory/utils/passage_time.py", "            FGG = np.dot(self.F[l_start], np.dot(self.G[l_start + 1], self.G[l_start]))", "            FGG = np.dot(self.F[l_start], np.dot(self.G[self.l_tilda], self.G[l_start]))")],
 needs="a passage over several levels that starts two or more levels below the repeating part, with levels of one size and different rates",
 breaks="the probabilities of a passage over several levels use the wrong level for the step up",
 demo='''
import copy
import numpy as np
from most_queue.theory.utils.passage_time import passage_time_calc
rng = np.random.default_rng(3)
A, B, C, D = [], [], [], []
for i in range(5):
    a, b, c = (rng.integers(1, 9, (2, 2)).astype(float) for _ in range(3))
    b *= 2
    c[0, 0] = c[1, 1] = 0
    A.append(a); B.append(b if i else 0 * b); C.append(c)
    D.append(np.diag(A[i].sum(1) + B[i].sum(1) + C[i].sum(1)))
q = passage_time_calc(A, B, C, D)
q.calc()
for s in range(1, 7):
    for e in range(s):
        got = q.G_gap_calc(s, e)
        want = np.eye(2)
        for k in range(s, e, -1):
            want = want @ np.asarray(q.G[min(k, len(q.G) - 1)])
        assert np.allclose(got, want, atol=1e-4), (s, e, got, want)
'''),
"s22-student-step": dict(property="C22", edits=[("theory/utils/student_stat.py", "    if n >= 5 and n < 20:\n        if gamma == 0.95:\n            return gamma_095[n - 5]", "    if n >= 5 and n < 20:\n        if gamma == 0.95:\n            return gamma_095[n - 5 - (n == 5)]")],
 needs="the smallest sample size of the table (n = 5) at confidence 0.95",
 breaks="the last entry of the table is returned instead of the first",
 demo='''
from scipy import stats
from most_queue.theory.utils.student_stat import get_ty
for g in (0.95, 0.99, 0.999):
    for n in range(5, 20):
        assert abs(get_ty(g, n) / stats.t.ppf((1 + g) / 2, n - 1) - 1) < 0.02, (g, n)
'''),
"s23-flow-list": dict(property="C23", edits=[("sim/flow_sum_sim.py", "            self.a = copy.deepcopy(f)", "            self.a[:] = f")],
 needs="the same list of flows used for a second calculation",
 breaks="the list of flows of the caller is shortened and overwritten",
 demo='''
from most_queue.sim.flow_sum_sim import FlowSumSim
a = [[1.0, 1.5, 3.0, 7.5], [2.0, 6.0, 24.0, 120.0], [0.5, 0.5, 0.75, 1.5]]
b = [list(x) for x in a]
for _ in range(2):
    q = FlowSumSim(a, distr="Gamma", verbose=False, num_of_jobs=300)
    q.sum_flows()
    assert len(q.flows_) == 2
assert a == b, a
'''),
"s24-batch-variance": dict(property="C24", edits=[("theory/batch_mm1.py", "        return (self.l2 + self.l) * ro_tilda / (2 * (1.0 - ro))", "        return (self.l ** 2 + self.l) * ro_tilda / (2 * (1.0 - ro))")],
 needs="batches of random size (a fixed size gives the same value)",
 breaks="the mean number of jobs leaves out the variance of the batch size",
 demo='''
from most_queue.theory.batch_mm1 import BatchMM1
for probs in ([0.0, 0.0, 1.0], [0.5, 0.0, 0.5], [0.2, 0.3, 0.1, 0.4]):
    q = BatchMM1(0.2, 1.0, probs)
    N = sum(i * p for i, p in enumerate(q.get_p()))
    assert abs(q.get_N() / N - 1) < 1e-6, (probs, q.get_N(), N)
'''),
}

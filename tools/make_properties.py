"""Writes properties.jsonl (run from /verif after editing)."""
import json
import os

M = "most_queue/"
P = []


def prop(id, title, statement, over, text, why, files, mech, observe=None):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
              "anchors": {"files": [M + f for f in files],
                          "mechanism": [{"name": n, "where": M + w} for n, w in mech],
                          "observe_at": observe or [], "hook_needed": None}})


prop("C01", "Distribution fits reproduce the requested moments",
     "For every supported family (hyperexponential, real and complex; Cox; Erlang; gamma; exponential; Pareto; uniform) parameters fitted to initial moments, or to a mean and coefficient of variation, that the family can represent have exactly these moments - as many of them as the family has free parameters. The theoretical moments a family reports for given parameters are the true raw moments of that distribution, for every order requested.",
     ["inputs"], "all feasible moment triples / (mean, coefficient of variation) pairs and all valid parameters over several orders of magnitude",
     "Tests fit a handful of fixed coefficients of variation inside end-to-end comparisons with 10 % tolerances; the fit of a general triple, the special cases near cv=1 and the complex branch are never compared with their moments.",
     ["rand_distribution.py"], [("H2_dist/Cox_dist/Erlang_dist/Gamma/Pareto_dist/Uniform_dist get_params*, calc_theory_moments", "rand_distribution.py")])

prop("C02", "Density, distribution, tail and residual functions are consistent",
     "For each family that exposes them, the distribution function is non-decreasing from 0 to 1, the tail is one minus it, the density is its derivative and is zero outside the support, and all of them agree with the family's reported moments. Residual-life moments are b[k+1]/((k+1)b[0]) of the original moments, and the incomplete-gamma helpers agree with the mathematical function.",
     ["inputs"], "all valid parameters and all arguments t >= 0 (and t < 0 where the function documents it)",
     "The functions are only reached through two plots and the formulas that use the tail; no test evaluates them.",
     ["rand_distribution.py"], [("get_pdf/get_cdf/get_tail/get_residual*, get_gamma*", "rand_distribution.py")])

prop("C03", "Samples follow the named distribution",
     "Random values produced for every supported distribution notation and parameter layout - by the generic factory used in simulators, by an instance, or by the static generator - are independent draws from exactly that distribution (support, distribution function and moments). They are reproducible from the generator passed in, which is the only source of randomness used when one is given. The load factor reported for a pair of notations is (arrival rate)*(mean service time)/(number of channels).",
     ["inputs"], "all notations M, H, E, C, Gamma, Pa, D, Uniform, Norm and all valid parameters",
     "Tests use fixed parameters of a few families and compare only aggregate results of queues fed by them.",
     ["rand_distribution.py", "sim/utils/distribution_utils.py"], [("create_distribution, calc_qs_load", "sim/utils/distribution_utils.py"), ("generate/generate_static", "rand_distribution.py")])

prop("C04", "Multichannel FIFO simulator reproduces the exact sample path",
     "For any sequence of arrival intervals and service times, any number of channels, any buffer size and either queue implementation, the simulator serves in order of arrival, starts a job as soon as a channel is free, loses a job only when all channels are busy and the buffer is full, and stops at the requested departure. The counters, raw waiting- and sojourn-time moments (over jobs started / departed), time-fraction state probabilities and moments of periods with all channels busy that it reports are those of that sample path, and after every event arrived = served + lost + in system.",
     ["inputs", "histories"], "all interarrival/service sequences, n >= 1, buffer None or >= 0, queue type list/deque, split runs",
     "Tests compare averages of a few runs with 10 % tolerance; they never check a path, a loss, the busy-period statistics or an unusual order of calls.",
     ["sim/qs_sim.py", "sim/utils/servers.py", "sim/utils/qs_queue.py", "sim/utils/stats_update.py", "sim/utils/tasks.py"],
     [("event loop arrival()/serving()/run()", "sim/qs_sim.py"), ("refresh_moments_stat", "sim/utils/stats_update.py")])

prop("C05", "Warm-up, cooling and cooling-delay follow the declared cycle",
     "With warm-up, cooling and cooling delay set in any admissible combination, a job that finds the switched-off system starts a warm-up, an emptied system cools (after its delay, which an arriving job cancels to be served at once), jobs arriving during cooling or warm-up wait, and cooling that ends with waiting jobs leads to warm-up (or to immediate service without warm-up). Waiting and sojourn moments, losses, state probabilities, busy periods, the fractions of time spent in each phase and the numbers of phase starts are those of this exact path.",
     ["inputs", "histories"], "all arrival/service/phase-duration sequences, all phase combinations, n >= 1, buffers >= 1",
     "Tests run one long random path per configuration and print or loosely compare averages.",
     ["sim/qs_sim.py", "sim/utils/phase.py"], [("on_end_warming/on_end_cold/on_end_cold_delay", "sim/qs_sim.py"), ("QsPhase", "sim/utils/phase.py")])

prop("C06", "Batch, finite-source and impatient simulators follow their exact paths",
     "The simulator with batch arrivals admits every job of a batch at one instant; the finite-source simulator lets each idle source generate its next job after its own interval and never has more jobs than sources (a lost job returns to its source at once); the impatient simulator removes a queued job exactly at its patience limit and never interrupts service. Their counters, waiting and sojourn moments (with jobs that left impatiently counted with the time they spent), losses and time-fraction state probabilities are those of the exact sample path for the given random values, for every n and buffer.",
     ["inputs", "histories"], "all batch-size distributions, interarrival/think/service/patience sequences, n >= 1, buffers None or >= 0",
     "Each simulator has at most one test, comparing one mean of one configuration; the finite-source simulator is never run by a test.",
     ["sim/batch_sim.py", "sim/queue_finite_source_sim.py", "sim/impatient_queue_sim.py"],
     [("arrival()", "sim/batch_sim.py"), ("arrival()/serving()", "sim/queue_finite_source_sim.py"), ("drop_task()", "sim/impatient_queue_sim.py")])

prop("C07", "Priority simulator honours the discipline for every class",
     "For preemptive-resume, preemptive-restart with the same time, preemptive-restart with resampling, non-preemptive and no-priority disciplines, any number of classes, channels and per-class sources/services, jobs are started, interrupted, resumed and finished exactly as the discipline prescribes (higher class first, FIFO within class, no preemption by an equal or lower class). Per-class counters, raw sojourn- and waiting-time moments and per-class time-fraction state probabilities are those of the exact sample path.",
     ["inputs", "histories"], "all per-class arrival/service sequences, 1-4 classes, 1-4 channels, all five disciplines",
     "Tests look at one utilisation, two or three classes with symmetric means, and only at averages; restart disciplines and buffers are never run.",
     ["sim/priority_queue_sim.py"], [("arrival(k)/serving(c)/send_task_to_queue", "sim/priority_queue_sim.py")])

prop("C08", "Priority queueing-network simulator routes and accounts exactly",
     "In the network simulator every job follows the routing matrix of its class from external arrival until it leaves, is served in each node with the service distribution and the priority that node assigns to its class, and no job is lost, duplicated or changes class. Per-class network sojourn moments are those of the jobs that have left, and node statistics are those of the jobs that node served.",
     ["inputs", "histories"], "all routing matrices, per-node priority orders (any permutation), disciplines, class rates and service sequences",
     "The only test uses one topology with identical services for all classes, so class mix-ups are invisible, and compares one mean with 10 % tolerance.",
     ["sim/priority_network.py"], [("PriorityNetwork.run_one_step/arrival/serving", "sim/priority_network.py")])

prop("C09", "Fork-join and split-join simulators follow the exact path",
     "A fork-join (n,k) job puts one subtask in the queue of every channel and completes when k subtasks are finished; in split-join mode a job enters service with all its subtasks only when all channels are free; with start-up delay each subtask of a job is delayed as documented. The number of served jobs, sojourn moments and state probabilities reported are those of the exact sample path for every arrival and service sequence.",
     ["inputs", "histories"], "all arrival/service sequences, n channels, 1 <= k <= n, fork-join / split-join / delayed variants",
     "Tests run split-join with k = n only and compare the mean with 10 % tolerance.",
     ["sim/fj_sim.py", "sim/fj_delta_sim.py"], [("ForkJoinSim.arrival/serving", "sim/fj_sim.py"), ("ForkJoinSimDelta", "sim/fj_delta_sim.py")])

prop("C10", "Thinned and summed flow simulation reports true flow moments",
     "The flow-summation simulator and calculator return the moments of the interval between arrivals in the superposition of the given independent flows: summation is symmetric in the flows, conserves total intensity (rates add), and summing Poisson flows gives a Poisson flow.",
     ["inputs"], "all numbers of flows and feasible interval moments",
     "No test touches these modules.",
     ["sim/flow_sum_sim.py", "theory/utils/flow_sum.py"], [("FlowSumSim", "sim/flow_sum_sim.py"), ("SumFlows", "theory/utils/flow_sum.py")])

prop("C11", "M/G/1 results are the exact Pollaczek-Khinchine values",
     "For every stable M/G/1 queue the returned waiting and sojourn moments equal the exact (Pollaczek-Khinchine/Takacs) values for the given service moments, and the returned state probabilities are the exact stationary distribution for each supported service family. With a different first service after idleness (warm-up) the sojourn moments are the exact values up to the numerical differentiation error.",
     ["inputs"], "all arrival rates and service distributions with load below 1",
     "One configuration (gamma service, one load) is compared with a simulation within tolerance.",
     ["theory/mg1_calc.py", "theory/mg1_warm_calc.py", "theory/utils/q_poisson_arrival_calc.py"],
     [("get_w/get_v/get_p", "theory/mg1_calc.py"), ("get_v", "theory/mg1_warm_calc.py")])

prop("C12", "GI/M/1 and GI/M/n results are the exact stationary values",
     "For every stable queue with renewal input and exponential service, given by interarrival moments and the approximating family chosen, the state probabilities seen at arrivals and at random times, the waiting and sojourn moments, are those of the embedded Markov chain; they are consistent with each other (Little's law, normalisation) and GI/M/n with one channel coincides with GI/M/1.",
     ["inputs"], "all interarrival distributions (gamma and Pareto approximations), service rates and n with load below 1",
     "Tests look at two configurations with 10-20 % tolerance.",
     ["theory/gi_m_1_calc.py", "theory/gi_m_n_calc.py"], [("get_w/get_v/get_p/get_pi", "theory/gi_m_1_calc.py"), ("get_w/get_v/get_p/get_pi", "theory/gi_m_n_calc.py")])

prop("C13", "M/D/n and Ek/D/n state probabilities are exact",
     "The state probabilities returned for multichannel queues with deterministic service and Poisson or Erlang input are the stationary distribution at a random time: non-negative, normalised, and equal to the solution of the exact slot-by-slot recursion. Ek/D/n with one Erlang phase coincides with M/D/n.",
     ["inputs"], "all loads below 1, Erlang orders and channel numbers in the numerically feasible range",
     "One configuration of each is compared, for one or ten probabilities, within 1e-2..1e-3.",
     ["theory/m_d_n_calc.py", "theory/ek_d_n_calc.py"], [("M_D_n.calc_p", "theory/m_d_n_calc.py"), ("Ek_D_n.calc_p", "theory/ek_d_n_calc.py")])

prop("C14", "Markovian single-station models are exact",
     "For M/M/n/r, the finite-source M/M/1//m (Engset), M^X/M/1 with batch arrivals, and M/M/1 with exponential impatience, the returned state probabilities are the stationary distribution of the corresponding Markov chain. The queue-length, waiting- and sojourn-time characteristics returned are those implied by it (Little's law with the effective arrival rate, PASTA or its finite-source counterpart).",
     ["inputs"], "all rates, sizes and batch distributions for which the model is defined",
     "At most one configuration each is exercised; the Engset test asserts nothing.",
     ["theory/mmnr_calc.py", "theory/engset_model.py", "theory/batch_mm1.py", "theory/impatience_calc.py"],
     [("MMnr_calc", "theory/mmnr_calc.py"), ("Engset", "theory/engset_model.py"), ("BatchMM1", "theory/batch_mm1.py"), ("get_v1", "theory/impatience_calc.py")])

prop("C15", "M/H2/n (Takahashi-Takami) solution is the stationary solution",
     "For every stable M/H2/n queue given by service moments (with real or complex H2 phases), and every M/H2/n/r loss variant, the returned state probabilities satisfy the balance equations of the underlying phase process and sum to one. The waiting and sojourn moments are consistent with them (Little's law, sojourn = waiting + service) and reduce to the exact M/G/1 and M/M/n values in these special cases.",
     ["inputs", "configurations"], "all service moment triples (cv below, at and above 1), n >= 1, loads below 1, buffers",
     "The test runs a few coefficients of variation at one load and compares with simulation within 10 %.",
     ["theory/mgn_tt.py"], [("MGnCalc.run/get_p/get_w/get_v", "theory/mgn_tt.py")])

prop("C16", "M/G/n models with warm-up, cooling and delay are stationary solutions",
     "For the three multichannel models with H2 warm-up, cooling and cooling-delay phases, the returned state probabilities and phase probabilities are those of the stationary phase process with the same moments, and the waiting moments obey Little's law with them. When a phase duration tends to zero the model reduces to the model without that phase, and models that describe the same system agree with each other.",
     ["inputs", "configurations"], "all service and phase moments, n >= 1 and loads below 1",
     "Tests compare one to a few configurations with simulation, mostly only printing.",
     ["theory/m_h2_h2warm.py", "theory/mmn_with_h2_cold_and_h2_warmup.py", "theory/mgn_with_h2_delay_cold_warm.py"],
     [("Mh2h2Warm", "theory/m_h2_h2warm.py"), ("MMn_H2warm_H2cold", "theory/mmn_with_h2_cold_and_h2_warmup.py"), ("MGnH2ServingColdWarmDelay", "theory/mgn_with_h2_delay_cold_warm.py")])

prop("C17", "Single-channel priority formulas are exact; invariants are consistent",
     "For one channel and Poisson classes the preemptive-resume, non-preemptive and busy-period formulas return the exact sojourn, waiting and busy-period moments for any number of classes, independently of lower classes where the discipline prescribes it. The multichannel invariant-relation results coincide with the one-channel ones when there is one channel and with the no-priority queue when there is one class.",
     ["inputs"], "all class numbers, rates and service moments with total load below 1",
     "Tests check one two/three-class configuration with 10 % tolerance.",
     ["theory/priority_calc.py"], [("get_w_np/get_v_pr/ppnz_calc/get_w_prty_invar/get_v_prty_invar", "theory/priority_calc.py")])

prop("C18", "Multichannel preemptive priority models are stationary solutions",
     "The two- and three-class preemptive multichannel models (exponential, and phase-type high class) return the low-class state probabilities and mean sojourn time of the Markov chain in which the busy period of higher classes is replaced by its fitted phase distribution; probabilities are non-negative and normalised and Little's law holds. With one channel and exponential services the result agrees with the exact preemptive M/M/1 formula.",
     ["inputs", "configurations"], "all class rates, service rates and channel numbers with load below 1",
     "One configuration per model, compared with a simulation within 10 % or only printed.",
     ["theory/mmn_prty_pnz_approx.py", "theory/mmn3_pnz_cox_approx.py", "theory/m_ph_n_prty.py"],
     [("MMn_PRTY_PNZ_Cox_approx", "theory/mmn_prty_pnz_approx.py"), ("Mmn3_pnz_cox", "theory/mmn3_pnz_cox_approx.py"), ("m_ph_n_prty", "theory/m_ph_n_prty.py")])

prop("C19", "First-passage (busy period) moments of level processes are exact",
     "For every positive recurrent level-structured Markov process given by up, down and local transition matrices, the returned level-crossing probability matrices are the minimal solution (rows sum to one) and the returned raw and conditional first three moments of the crossing times are exact, for homogeneous and inhomogeneous lower levels and for gaps of several levels.",
     ["inputs"], "all conforming block matrices with negative drift",
     "The module is only used inside models whose tests allow 10 % error of one mean.",
     ["theory/utils/passage_time.py"], [("passage_time_calc.calc", "theory/utils/passage_time.py")])

prop("C20", "Network decomposition solves the traffic equations and adds node times",
     "For any open routing the per-class node intensities solve the traffic equations (flow conservation), node loads are the resulting offered work per channel, and the per-class network sojourn moments combine the node sojourn times with the class's own routing. The result does not depend on the order in which classes or nodes are numbered (priorities relabelled accordingly).",
     ["inputs", "configurations"], "all routing matrices, per-node priority permutations, class rates and service moments with every load below 1",
     "One topology with identical services for all classes is tested, one class compared with 10 % tolerance.",
     ["theory/network_calc.py"], [("network_prty_calc/balance_equation", "theory/network_calc.py")])

prop("C21", "Fork-join and split-join calculations use the true maximum moments",
     "Moments of the maximum of n independent service times, started together or with fixed or random delays one after another, equal the exact moments of that maximum for the fitted distribution in any time unit. Fork-join response time approximations are exact for two branches where they are published as such, and reproduce the published formulas otherwise; the k-of-n approximations equal the n-branch approximation for k = n, sum over k to n mean branch times and give the exponential order statistics in light traffic; the independent-branch bound is the maximum of n M/G/1 sojourn times.",
     ["inputs"], "all n, k, service moments (cv below, at and above 1) and delays",
     "Two configurations of the n-th maximum are compared with simulation within 10 %.",
     ["theory/fj_calc.py"], [("getMaxMoments/getMaxMomentsDelta/get_v1_*", "theory/fj_calc.py")])

prop("C22", "Numerical helper routines compute what they name",
     "Convolution and deconvolution of moments, self-convolution, derivative estimates at the left grid point, binomial probabilities, Poisson-arrival counts during a service time, Student quantiles, Weibull fits and confidence intervals return the mathematical quantity they name for every admissible argument; printed tables carry every calculated and simulated value under its own heading; every module of the library can be imported on its own.",
     ["inputs"], "all admissible arguments",
     "None of the helpers has its own test.",
     ["general_utils/conv.py", "theory/utils/diff5dots.py", "theory/utils/binom_probs.py", "theory/utils/q_poisson_arrival_calc.py", "theory/utils/student_stat.py", "theory/utils/weibull.py", "general_utils/tables.py"],
     [("get_moments/get_self_conv_moments/get_moments_minus", "general_utils/conv.py"), ("get_q_*", "theory/utils/q_poisson_arrival_calc.py")])

prop("C23", "Results are free of time units and of hidden state",
     "Every calculation is equivariant under a change of time unit (rates divided by c and k-th time moments multiplied by c^k: probabilities unchanged, k-th result moments multiplied by c^k), leaves the arguments passed in unchanged, and returns the same result when repeated in the same process or after other calculations.",
     ["inputs", "histories"], "all calculators, all admissible arguments, c over several orders of magnitude, all call orders",
     "Every test uses mean interarrival time near 1 and calls each calculator once.",
     ["theory/mg1_calc.py", "theory/gi_m_n_calc.py", "theory/mgn_tt.py", "theory/priority_calc.py", "theory/network_calc.py", "theory/fj_calc.py", "rand_distribution.py"],
     [("all get_* entry points", "theory/priority_calc.py")])

prop("C24", "Simulators and calculators agree on the same model",
     "For any model that has both a simulator and a calculator, a long simulation of the model with its documented notations converges to the calculated moments and state probabilities: the deviation stays within the statistical error of the run.",
     ["inputs", "configurations"], "all stable models with both a simulator and an exact calculator, all loads",
     "Tests do this for one or two fixed configurations with 10 % tolerance.",
     ["sim/qs_sim.py", "sim/priority_queue_sim.py", "theory/mg1_calc.py", "theory/gi_m_n_calc.py", "theory/mmnr_calc.py", "theory/engset_model.py", "theory/batch_mm1.py", "theory/impatience_calc.py"],
     [("QueueingSystemSimulator.run", "sim/qs_sim.py")])

with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P), "properties")

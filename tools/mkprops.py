#!/usr/bin/env python3
"""Writes /verif/properties.jsonl.  One place to edit the property list."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mechanism, observe=None, state=None):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext},
              "why_tests_cant": why,
              "anchors": {"files": files,
                          "state": state or [],
                          "mechanism": [{"name": n, "where": w} for n, w in mechanism],
                          "observe_at": observe or [], "hook_needed": None}})
S = "most_queue/sim/"
T = "most_queue/theory/"
QS, PR, U = S+"qs_sim.py", S+"priority_queue_sim.py", S+"utils/"

prop("Q01", "Waiting jobs are served first-come-first-served, work-conserving",
 "In a simulated single-class queue, jobs enter service in exactly the order in which they were accepted, each on an idle server and holding it for exactly one sampled service time. Outside warm-up and cooling periods no server is ever idle while a job waits. Both queue containers ('list' and 'deque') behave identically.",
 ["histories", "inputs", "configurations"],
 "every sequence of inter-arrival and service times, number of servers, buffer, queue container",
 "Tests run one M-or-H2/H2/n configuration and compare means to a formula with 10% slack; any non-idling non-biased discipline has the same mean number in system, so LIFO or random order and rare idling pass.",
 [QS, U+"servers.py", U+"qs_queue.py"],
 [("arrival / serving / send_head_of_queue_to_channel", QS), ("Server.start_service/end_service", U+"servers.py"), ("QsQueueList/QsQueueDeque.pop", U+"qs_queue.py")],
 ["servers[i].tsk_on_service", "servers[i].time_to_end_service", "queue.queue"])
prop("Q02", "Loss only when the buffer is full; jobs are conserved",
 "An arriving job is refused exactly when it would have to wait and the waiting room already holds 'buffer' jobs (buffer 0 = pure loss, None = unlimited); the number waiting never exceeds the buffer. After every event arrived = served + refused + in system, in system = waiting + in service, and free channels = servers - in service.",
 ["histories", "configurations"],
 "every event history, every buffer size including 0 and None, with and without warm-up/cooling",
 "No test uses a finite buffer in the simulators except through aggregate losses; boundary behaviour (buffer 0, buffer full at a vacation) is never sampled.",
 [QS], [("send_task_to_queue", QS), ("in_sys/free_channels/dropped counters", QS)],
 ["arrived", "served", "dropped", "in_sys", "free_channels", "queue.size()"])
prop("Q03", "Events happen in time order and the clock is exact",
 "Each simulation step executes one pending event with the smallest time, sets the clock to exactly that time (so it never goes backwards), and schedules the next arrival exactly one freshly sampled interval later. run(N) returns as soon as exactly N jobs have been served in total; run(N, is_real_served=False) performs exactly N steps.",
 ["histories", "schedules"],
 "every interleaving of arrivals, completions and phase ends, including simultaneous events, on every simulator",
 "An event executed slightly out of order or a clock not advanced shifts averages by less than the statistical tolerance.",
 [QS, PR, S+"impatient_queue_sim.py", S+"queue_finite_source_sim.py", S+"batch_sim.py", S+"fj_sim.py", S+"fj_delta_sim.py"],
 [("run_one_step", QS), ("run", QS)], ["ttek", "arrival_time", "served"])
prop("Q04", "Waiting and sojourn moments are the sample moments",
 "At every moment the reported waiting-time moments of a single-class simulator are the first three raw sample moments of the waiting times (start of service minus arrival; zero for jobs that start at once) over exactly the jobs that have entered service, and the sojourn-time moments are those of departure minus arrival over exactly the jobs that have departed. This holds for plain, vacation, batch-arrival and finite-source queues.",
 ["histories", "configurations"],
 "every event history and configuration",
 "Tests compare against formulas at >=2% statistical noise; second/third moments and zero-wait accounting are mostly unchecked.",
 [QS, U+"stats_update.py", S+"batch_sim.py", S+"queue_finite_source_sim.py"],
 [("refresh_w_stat/refresh_v_stat", QS), ("refresh_moments_stat", U+"stats_update.py")], ["w", "v", "taked", "served"])
prop("Q05", "State probabilities are time fractions",
 "For every single-class simulator the reported probability of j jobs in the system equals the fraction of elapsed simulated time during which exactly j jobs were present, so the probabilities are non-negative, sum to 1 and satisfy Little's law against the sojourn times on the same history.",
 ["histories", "configurations"],
 "every event history up to the moment of the last event; plain, vacation, impatient, batch and finite-source queues",
 "Tests check p[0] or the first few probabilities within 1e-3..1e-2 on one load.",
 [QS, S+"impatient_queue_sim.py", S+"batch_sim.py", S+"queue_finite_source_sim.py"],
 [("p[in_sys] += dt at each event", QS), ("get_p", QS)], ["get_p()", "p"])
prop("Q06", "Warm-up, cooling and cooling-delay protocol",
 "With warm-up set, a job arriving to an empty switched-off system starts a warm-up of one sampled duration during which arrivals queue and nobody is served; with cooling set, an emptying system starts cooling (after the cooling delay if one is set, which an arrival cancels, being served at once) during which arrivals only queue; a cooling that ends with waiting jobs starts a warm-up (or service when no warm-up is set) and one that ends with none leaves the system off. At most one of the three phases is active at a time, and each reported phase probability is the total length of completed phases of that kind divided by the elapsed time.",
 ["histories", "schedules", "configurations"],
 "every interleaving of arrivals, completions and phase ends, for every subset of {warm-up, cooling, cooling+delay}, every n and buffer",
 "Tests sample H2 phases at one load and compare first moments within 10-30%; rare interleavings (arrival in the delay, several phases per cycle) contribute little to the mean.",
 [QS, U+"phase.py"], [("arrival, on_end_warming, on_end_cold, on_end_cold_delay", QS), ("QsPhase.start/end", U+"phase.py")],
 ["warm_phase", "cold_phase", "cold_delay_phase", "get_warmup_prob()", "get_cold_prob()", "get_cold_delay_prob()"])
prop("Q07", "Busy-period moments",
 "The busy-period moments of a single-class simulator are the raw sample moments, over all completed periods, of the time from the moment the last idle server becomes busy until the next moment a server becomes idle.",
 ["histories"], "every event history with or without queueing, n >= 1",
 "No test reads the simulated busy-period moments.",
 [QS, S+"queue_finite_source_sim.py", S+"impatient_queue_sim.py", S+"batch_sim.py"],
 [("start_ppnz / refresh_ppnz_stat", QS)], ["ppnz", "ppnz_moments"])
prop("Q08", "Impatient jobs leave exactly when their patience ends",
 "In the impatient queue every waiting job leaves unserved at exactly its arrival time plus its own sampled patience unless it has entered service before; a job in service never leaves early, and the order of the remaining jobs is unchanged. A departure by impatience counts as dropped and as a departure, its waiting and sojourn times both equal the time spent in the queue and enter the moments once.",
 ["histories", "schedules"],
 "every sequence of inter-arrival, service and patience times; several jobs expiring in any order and simultaneously with other events; with and without buffer",
 "The single test checks the mean sojourn within 10% for one exponential setting.",
 [S+"impatient_queue_sim.py"], [("drop_task, run_one_step", S+"impatient_queue_sim.py")], ["queue", "dropped", "v", "w"])
prop("Q09", "Batch arrivals",
 "In the batch-arrival queue all jobs of a batch arrive at the same instant, one inter-arrival interval after the previous batch; batch sizes are drawn with the given probabilities, jobs of a batch take idle servers and then waiting places in order, and with a finite buffer only the jobs of the batch that do not fit are refused.",
 ["histories", "configurations"], "every batch-size distribution, interleaving, n and buffer",
 "The test compares two sojourn means within 10%.",
 [S+"batch_sim.py"], [("arrival, calc_cdf_prob", S+"batch_sim.py")], ["arrived", "in_sys", "p"])
prop("Q10", "Finite sources",
 "In the finite-source queue each of the m sources has at most one job in the system: a source starts a new sampled think time exactly when its job departs (or is refused), and is silent while its job waits or is served. Hence jobs in system plus thinking sources is always m.",
 ["histories", "configurations"], "every history, m, n, buffer",
 "One mean-value comparison at one setting.",
 [S+"queue_finite_source_sim.py"], [("arrival/serving/sources_left", S+"queue_finite_source_sim.py")], ["arrival_times", "sources_left", "in_sys"])

prop("P01", "Priority order is respected",
 "In the priority queue, whenever a server becomes free the next job served is the one at the head of the highest-priority (lowest-numbered) non-empty class line; under preemptive disciplines no job ever waits while a lower-priority job is in service, and a job is interrupted only by a higher-priority arrival that found all servers busy, the interrupted job being of the lowest priority in service and going to the tail of its own class line. Under the non-preemptive discipline a job in service is never interrupted, and without priorities all classes share one first-come-first-served line; no server is ever idle while a job waits.",
 ["histories", "schedules", "configurations"], "every interleaving, number of classes, servers and discipline (No, NP, PR, RS, RW)",
 "Tests compare class means with approximate formulas within large tolerances for one discipline each and two or three classes.",
 [PR], [("arrival, serving", PR)], ["queue", "servers"])
prop("P02", "Interrupted work is resumed or repeated per discipline",
 "Under preemptive-resume every job receives in total exactly one sampled service time, continuing after an interruption with exactly the remaining part, however often it is interrupted. Under repeat-without-resampling each attempt has the full originally sampled duration; under repeat-with-resampling each attempt is a fresh sample of the job's own class distribution.",
 ["histories", "schedules"], "every sequence of repeated interruptions",
 "Only PR is tested, through class means; double interruption effects are below the tolerance.",
 [PR], [("arrival (preemption branch), Server.start_service", PR)], ["servers[i].time_to_end_service", "task.time_to_end_service"])
prop("P03", "Per-class accounting in the priority queue",
 "For every class the priority simulator conserves jobs (arrived = served + refused + in system), reports as sojourn moments the raw moments of departure minus arrival and as waiting moments those of the total time spent waiting (summed over interruptions) over the jobs of that class served, and reports state probabilities that are the time fractions with j jobs of that class present. With a buffer an arrival is refused exactly when it would have to wait and the total number waiting has reached the buffer (also for buffer 0 and for every discipline); interrupted jobs are never lost.",
 ["histories", "configurations"], "every history, discipline, number of classes/servers, buffer incl. 0 and None, warm-up on or off",
 "Finite buffers, warm-up and the RS/RW disciplines are not exercised by any test; moments above the first are compared loosely.",
 [PR], [("refresh_v_stat/refresh_w_stat/p/dropped", PR)], ["v", "w", "p", "arrived", "served", "dropped", "in_sys"])
prop("N01", "Queueing network routing and end-to-end times",
 "In the priority network a job of class k enters the network with that class's own inter-arrival times, moves between nodes only along positive entries of the class's routing matrix with those probabilities, instantly on completing service at a node, and keeps its class; at node m it has the priority and the service distribution assigned to its class there. Jobs are conserved, and the network sojourn and waiting moments of a class are the raw moments over its jobs that left of the total time in the network and of the sum of all waits.",
 ["histories", "configurations"], "every topology, routing matrix, priority permutation per node, discipline and history",
 "One seeded 5-node run compares v[0][0] within 10% only.",
 [S+"priority_network.py", PR], [("run_one_step, play_next_node", S+"priority_network.py")], ["v_network", "w_network", "served", "in_sys"])
prop("F01", "Fork-join (n,k) queue",
 "In the fork-join simulator (without a finite buffer) an arriving task puts one subtask at every server, each server serves its own line first-come-first-served without idling, and the task departs exactly when its k-th subtask completes, its sojourn time being measured from its arrival; with purging, at that moment all its other subtasks (waiting or in service) are removed and freed servers continue with their next subtask. Tasks and subtasks are conserved and state probabilities count tasks present.",
 ["histories", "schedules", "configurations"], "every history, n, 1<=k<=n, purge on or off",
 "The test compares one mean with an approximation within 10% and never enables purge.",
 [S+"fj_sim.py", U+"tasks.py"], [("arrival, serving", S+"fj_sim.py")], ["queues", "servers", "served", "in_sys", "v", "p"])
prop("F02", "Split-join queue",
 "In the split-join simulator (without a finite buffer) the subtasks of a task start simultaneously on all servers when the previous task has completely finished and not before, tasks start in arrival order, and a task departs when its last subtask completes; no task waits while all servers are idle.",
 ["histories", "schedules", "configurations"], "every history and n",
 "The test compares one mean with an M/G/1 formula within 10%.",
 [S+"fj_sim.py"], [("arrival, serving (is_SJ)", S+"fj_sim.py")], ["queue", "servers", "served", "v"])
prop("F03", "Subtasks with arrival delays",
 "In the fork-join simulator with subtask delays (k parts per task, without a finite buffer) the i-th subtask of a task becomes available exactly i*delta (or one sampled i-fold delay) after the task's arrival, never before, every subtask is served exactly once, a task departs when its last part completes and its sojourn time runs from its arrival. Subtasks that find no suitable idle server wait and are taken in order of becoming available (fork-join), or task by task in arrival order without mixing two tasks (split-join).",
 ["histories", "schedules", "configurations"], "every history, n, k, delta scalar or distribution, fork-join and split-join",
 "The single test uses split-join with n = k and a fixed delay and compares a mean.",
 [S+"fj_delta_sim.py"], [("task_arrival, subtask_arrival, serving", S+"fj_delta_sim.py")], ["subtask_arr_queue", "queue", "servers", "v"])
prop("M01", "Superposition of flows",
 "The flow-summation simulator merges the event epochs of its two input renewal flows in time order: the recorded intervals are the successive differences of the merged sequence, no epoch lost or duplicated, and the returned moments are their raw sample moments; summing n flows folds in every flow exactly once.",
 ["histories", "inputs"], "every pair of interval sequences",
 "No test touches this simulator.",
 [S+"flow_sum_sim.py"], [("sum_2_*_flows, sum_flows", S+"flow_sum_sim.py")], ["returned moments"])

prop("M02", "Numeric superposition of flows",
 "The numeric flow summation returns for two renewal flows the raw moments of the intervals of the running merged flow (exactly for hyper-exponential intervals, otherwise for the hyper-exponential laws with the given three moments), folds every further flow in once, and in its semi-invariant variant returns the interval moments of the renewal flow whose number-of-events cumulants grow at the sum of the given flows' rates; its conversions between moments, cumulants and count cumulants are exact and mutually inverse.",
 ["inputs"], "every number of flows, every moment sequence, three or four moments",
 "No test touches it (it could not even be imported without a display).",
 [T+"utils/flow_sum.py"], [("sum_2_H2_flows, sum_2_flows_semiinvariants, get_k/get_v/get_k_by_v/get_a", T+"utils/flow_sum.py")], ["flows_", "result_flow"])

prop("M03", "Comparison tables show the values they are given",
 "The tables of moments, of state probabilities and of moments by class print, for every index and class, the calculated and the simulated value of that index and class in the columns (rows) labelled so, in order and nothing skipped, up to the shorter of the two sequences and the row limit; real parts of complex values are shown, and the title says whether waiting or sojourn times are meant.",
 ["inputs"], "every pair of value sequences, complex or real, every number of classes, moments and rows",
 "The tests print tables but nobody reads them.",
 ["most_queue/general_utils/tables.py"], [("times_print, probs_print, times_print_with_classes", "most_queue/general_utils/tables.py")], [])

prop("M04", "The drawing of a network shows its routing",
 "The graph made from a routing matrix has exactly one edge from place i to place j for every non-zero probability of going from i to j (place 0 is the source, 1 to N the nodes, N+1 the drain) and shows that probability on it; it has no other edges; the graphviz form shows every place and colours the source and the drain exactly when asked to (by default).",
 ["inputs"], "every routing matrix, both graph engines",
 "No test draws a network.",
 ["most_queue/theory/network_viewer.py"], [("create_DG", "most_queue/theory/network_viewer.py")], [])

prop("D01", "Samplers draw from the stated distribution",
 "For every supported distribution and parameters, samples produced through the notation-based factory, the object and the static sampler follow the distribution of the stated parameters (phase-type samplers pass through their stages with the stated rates and probabilities), and an object given a generator draws all of its randomness from that generator so that histories are reproducible: equal generator states and equal requests give equal values, no other generator moves, and the same holds for whole runs of a simulator.",
 ["inputs", "configurations"], "all parameter values of Exp, H2, Erlang, Cox, Gamma, Uniform, Pareto, Normal, Det; all interleavings of draws from several generators",
 "Tests use them only inside simulations of M/H2 queues with statistical tolerance and a global seed.",
 ["most_queue/rand_distribution.py", U+"distribution_utils.py"],
 [("generate/generate_static", "most_queue/rand_distribution.py"), ("create_distribution", U+"distribution_utils.py")], ["generate()"])
prop("D02", "Theoretical moments, CDF, tail and density agree",
 "For every distribution the theoretical initial moments, distribution function, tail and density functions are those of the distribution its sampler draws from: moments match, CDF + tail = 1, CDF is non-decreasing from 0 to 1 and the density is its derivative.",
 ["inputs"], "all parameter values of every law (Weibull included) and arguments, before, at and beyond the support",
 "Only used indirectly through other formulas.",
 ["most_queue/rand_distribution.py"], [("calc_theory_moments/get_cdf/get_tail/get_pdf", "most_queue/rand_distribution.py")])
prop("D03", "Moment fitting is a right inverse",
 "Fitting distribution parameters by moments returns, whenever the moments are attainable by that family, parameters whose theoretical moments reproduce the given moments (as many as the family has free parameters), and helper fits by mean and coefficient of variation reproduce both; a real hyper-exponential fit whose third moment is out of reach keeps the first two, and next to the exponential and Erlang-2 laws fits keep the first two.",
 ["inputs"], "all attainable moment sequences for Exp, H2, Erlang, Cox, Gamma (with correcting polynomial), Pareto, Uniform, Weibull",
 "A handful of parameter sets appear in the tests as inputs to other code.",
 ["most_queue/rand_distribution.py", T+"utils/weibull.py"], [("get_params*, get_mu_alpha, get_a_k", "most_queue/rand_distribution.py")])
prop("D04", "Convolution of moments",
 "Moment convolution returns the raw moments of the sum of two independent variables, deconvolution is its exact inverse, and n-fold self-convolution equals repeated convolution.",
 ["inputs"], "all moment sequences",
 "Not tested; used in several solvers.",
 ["most_queue/general_utils/conv.py"], [("get_moments, get_moments_minus, get_self_conv_moments", "most_queue/general_utils/conv.py")])

prop("T01", "M/M/n/r model",
 "The state probabilities, refusal probability, mean queue and sojourn/waiting times computed for M/M/n/r are those of its birth-death chain, with times averaged over accepted jobs, for every load including load exactly 1.",
 ["inputs", "configurations"], "every n, r, arrival and service rate", "No test.",
 [T+"mmnr_calc.py"], [("M_M_n_formula", T+"mmnr_calc.py")])
prop("T02", "Finite-source (Engset) model",
 "For the finite-source single-server model the probabilities, readiness, utilisation, mean numbers and waiting/sojourn times are those of its birth-death chain.",
 ["inputs", "configurations"], "every m, rates", "One parameter set within 10%.",
 [T+"engset_model.py"], [("Engset", T+"engset_model.py")])
prop("T03", "M/M/1 with impatience",
 "The probabilities and mean sojourn time computed for M/M/1 with exponential patience are those of the infinite birth-death chain whose departure rate in state j is mu + (j-1)*gamma.",
 ["inputs"], "every arrival, service and impatience rate, including overload", "One parameter set within 10%.",
 [T+"impatience_calc.py"], [("ImpatienceMM1", T+"impatience_calc.py")])
prop("T04", "Batch-arrival M/M/1",
 "The mean number in system and sojourn-related values computed for M^[x]/M/1 are those of the Markov chain with batch up-jumps.",
 ["inputs", "configurations"], "every batch distribution and stable load", "One parameter set.",
 [T+"batch_mm1.py"], [("BatchMM1", T+"batch_mm1.py")])
prop("T05", "M/G/1 model",
 "For M/G/1 the state probabilities equal the stationary law of the chain embedded at departures with the given service-time law, waiting/sojourn moments satisfy Pollaczek-Khinchin and the distributional Little law on these probabilities; with warm-up the sojourn moments are those of the queue whose first service in a busy period is exceptional.",
 ["inputs", "configurations"], "Gamma, H2, Uniform, Pareto service; every stable load", "A few first values on one load.",
 [T+"mg1_calc.py", T+"mg1_warm_calc.py", T+"utils/q_poisson_arrival_calc.py"], [("get_p/get_w/get_v/get_q_*", T+"mg1_calc.py")])
prop("T06", "GI/M/1 and GI/M/n models",
 "For GI/M/1 and GI/M/n the probabilities at arrivals and at arbitrary times are the stationary laws of the corresponding chains for the given inter-arrival law, and waiting/sojourn moments are the raw moments of the corresponding distributions.",
 ["inputs", "configurations"], "H2, Gamma, Pareto, Erlang... arrivals, every stable load, n>=1", "One or two parameter sets with loose tolerance.",
 [T+"gi_m_1_calc.py", T+"gi_m_n_calc.py"], [("get_p/get_pi/get_w/get_v", T+"gi_m_n_calc.py")])
prop("T07", "M/D/n and Ek/D/n models",
 "The state probabilities computed for M/D/n and Ek/D/n satisfy the stationarity equations of the chain observed at intervals of one (deterministic) service time.",
 ["inputs", "configurations"], "every n, k, stable load", "One parameter set each, first probabilities within 1e-2.",
 [T+"m_d_n_calc.py", T+"ek_d_n_calc.py"], [("calc_p", T+"m_d_n_calc.py")])
prop("T08", "M/H2/n by Takahashi-Takami",
 "For hyper-exponential service the Takahashi-Takami solver (with or without buffer) returns the stationary probabilities of the M/H2/n(/N) Markov chain, and sojourn/waiting moments consistent with them.",
 ["inputs", "configurations"], "every n, stable load, H2 parameters, buffer", "One configuration, loose tolerance.",
 [T+"mgn_tt.py"], [("MGnCalc.run/get_p/get_v/get_w", T+"mgn_tt.py")])
prop("T09", "Vacation-queue solvers",
 "The solvers for queues with H2 warm-up, with cooling and warm-up, and with cooling delay return the stationary probabilities of the Markov chain of the corresponding vacation protocol (the same protocol the simulator follows), including the warm-up, cooling and delay probabilities.",
 ["inputs", "configurations"], "every n, stable load, H2 parameters", "One configuration each, loose tolerance.",
 [T+"m_h2_h2warm.py", T+"mmn_with_h2_cold_and_h2_warmup.py", T+"mgn_with_h2_delay_cold_warm.py"], [("build_matrices/run/get_p", T+"m_h2_h2warm.py")])
prop("T10", "Single-server priority formulas",
 "Single-server priority formulas (preemptive resume and non-preemptive waiting/sojourn moments, busy-period moments) equal the moments of the corresponding Markov chains.",
 ["inputs", "configurations"], "every number of classes, stable load", "Compared to simulation only for n=3 examples.",
 [T+"priority_calc.py"], [("calc_pr1, get_w_np..., ppnz_calc", T+"priority_calc.py")])
prop("T11", "Preemptive multi-server priority solvers",
 "The solvers for two-class (and three-class) preemptive M/M/n and M/PH/n queues return state probabilities and mean sojourn times that agree with the Markov chain of the system within the approximation error of the method.",
 ["inputs", "configurations"], "loads, n", "One configuration each.",
 [T+"mmn_prty_pnz_approx.py", T+"mmn3_pnz_cox_approx.py", T+"m_ph_n_prty.py"], [("run/get_p/get_v", T+"m_ph_n_prty.py")])
prop("T12", "First-passage moments",
 "The passage-time calculator returns the moments of the first-passage time between levels of the quasi-birth-death chain given by its matrices, and the state-to-state transition probabilities of the passage.",
 ["inputs", "configurations"], "all block matrices", "Used only inside approximations.",
 [T+"utils/passage_time.py"], [("passage_time_calc.calc", T+"utils/passage_time.py")])
prop("T13", "Fork-join and split-join theory",
 "The moments of the maximum of independent service times used for split-join, and the two-server fork-join mean, equal those of the corresponding absorbing/ergodic Markov chains.",
 ["inputs", "configurations"], "n, service laws", "One parameter set.",
 [T+"fj_calc.py"], [("getMaxMoments, get_v1_fj2", T+"fj_calc.py")])
prop("T14", "Load factors",
 "The load factor reported by a simulator equals the total offered work per unit time divided by the number of servers, for every combination of source and service distributions, and a network's node loads equal the solution of the traffic equations times mean service over servers.",
 ["inputs", "configurations"], "all distributions, classes", "Only printed.",
 [U+"distribution_utils.py", PR, T+"network_calc.py"], [("calc_qs_load/calc_load", U+"distribution_utils.py")])
prop("T15", "Network sojourn moments",
 "For an open priority network the sojourn-time moments reported for a class are those of a job's way through the network given the reported node sojourns, the node results respect the priority order of each node, and classes or nodes without flow are handled.",
 ["inputs", "configurations"], "all topologies, class orders, disciplines, loads", "One topology, printed next to the simulation.",
 [T+"network_calc.py", T+"priority_calc.py"], [("network_prty_calc", T+"network_calc.py"), ("get_v_prty_invar", T+"priority_calc.py")])
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P))

"""Writes properties.jsonl and MANIFEST.json (run by hand after editing)."""
import ast
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = "src/quocslib/"
OA, DC, DS = S + "optimizationalgorithms/OptimizationAlgorithm.py", S + "optimizationalgorithms/dCRABAlgorithm.py", S + "optimizationalgorithms/DirectSearchAlgorithm.py"
GR, AD = S + "optimizationalgorithms/GRAPEAlgorithm.py", S + "optimizationalgorithms/ADAlgorithm.py"
AT = S + "optimizationalgorithms/AlgorithmTemplate.py"
COM, CTRL, BP = S + "communication/AllInOneCommunication.py", S + "Controls.py", S + "pulses/BasePulse.py"
NM, CM, GF = (S + "gradientfreemethods/" + x for x in ("NelderMead.py", "CMAES.py", "GradientFreeTemplate.py"))
SC = S + "stoppingcriteria/StoppingCriteria.py"
SCN, SCC = S + "stoppingcriteria/NelderMeadStoppingCriteria.py", S + "stoppingcriteria/CMAESStoppingCriteria.py"
DUMP, OPT, RNG = S + "utils/BestDump.py", S + "Optimizer.py", S + "tools/randomgenerator.py"
DYN = S + "utils/dynamicimport.py"
BAS = S + "pulses/basis/"
P = []


def prop(pid, title, statement, over, text, why, files, mech, technique, note):
    P.append({"prop": {"id": pid, "title": title, "statement": statement, "quantifier": {"over": over, "text": text},
                       "why_tests_cant": why, "anchors": {"files": files, "mechanism": [
                           {"name": n, "where": w} for n, w in mech]}},
              "technique": technique, "note": note})


prop("C01", "The reported optimum is the best figure of merit ever returned",
     "At the end of every optimization without drift compensation and re-evaluation the reported figure of merit (result file and "
     "log summary) is the smallest value (largest in a maximization) the user's figure of merit returned without an error status "
     "in the whole run, with the sign of the user. NaN, infinite or failed evaluations neither become nor hide the optimum.",
     ["inputs", "configurations", "histories"],
     "all algorithms (dCRAB, DirectSearch with Nelder-Mead or CMA-ES, GRAPE, AD), both directions, every sequence of finite values "
     "below 1e10 mixed with NaN, infinities and error states, every way a run ends",
     "the tests run a handful of settings with one smooth figure of merit and look at no reported value",
     [OA, DC, DS, GR, AD], [("record bookkeeping", OA + ":get_is_record"), ("final results", OA + ":end"),
                            ("per algorithm results", DC + ":_get_final_results")],
     "runtime monitor: recorded evaluations against the result file, log and algorithm state",
     "Monitors every evaluation of some hundred (quick) to thousands (thorough) random real runs; assurance is for the executions "
     "seen. Trusts the recorder around the user's figure of merit.")

prop("C02", "The returned best controls are the ones the best value was measured with",
     "The controls returned by the best-controls getter after a run (pulses, time grids, parameters) are, up to rounding, those of an "
     "evaluation which returned the best figure of merit of the run, whatever was evaluated afterwards and however the run ended. The bare controls are the same pulses before guess, scaling and limits. "
     "In a direct parameter search the parameters in the result file are those of the best evaluation, too.",
     ["inputs", "configurations", "histories"],
     "all algorithms, bases, directions, numbers of super-iterations, pulses and parameters; runs ended by convergence, budget, goal, "
     "user stop or an error status; default shaping and any shaping which includes the base pulse; no noise, re-evaluation or drift compensation",
     "the tests never compare the getter with what was evaluated; a wrong super-iteration or a stale vector shows only in some histories",
     [OA, DC, DS, GR, AD, CTRL], [("best vector and base pulses", DC + ":_update_base_pulses/get_best_controls"),
                                  ("record vector", OA + ":_routine_call")],
     "runtime monitor: getter against the recorded best evaluation",
     "Compared to 1e-8 (3e-4 for the single precision AD controls) on random real runs.")

prop("C03", "At every point of a run the saved file holds the best evaluation so far",
     "Whenever the user's figure of merit is called and at the end of a run, also if the run is cut there by an exception or the death "
     "of the process, the saved best-controls file exists exactly if some evaluation gave a value, and it holds bit for bit the pulses, time "
     "grids and parameters of the best evaluation so far (of one of them if several are equally good), under their configured names, with its figure of merit in the user's sign and its evaluation number. "
     "This holds for both dump formats.",
     ["crash_points", "inputs", "configurations", "histories"],
     "every evaluation boundary as crash point (exception in the user's code, process killed), npz and json, all algorithms, any names of the controls; "
     "no re-evaluation or drift compensation; a kill inside the write itself is not claimed",
     "the tests never read the file during a run and crash nowhere",
     [COM, DUMP, OA], [("dump on record", DUMP + ":dump_controls"), ("record flag to dump", COM + ":update_controls")],
     "fault injection at evaluation boundaries with a file oracle (read back at every boundary, exceptions, os._exit)",
     "Reads the file at every evaluation boundary of random runs; kills run in forked children.")

prop("C04", "The evaluation budget is a hard limit and evaluations are counted exactly",
     "An optimization with a maximal total number of evaluations calls the user's figure of merit at most that often, in every phase "
     "(initial simplex, population, later super-iterations, drift compensation, re-evaluation), stops because of it and names it as reason. "
     "The reported total number of evaluations is exactly the number of calls made.",
     ["inputs", "configurations", "histories"],
     "budgets from 1 evaluation up, all algorithms and methods, both directions, with drift compensation and re-evaluation, runs that end otherwise first",
     "the tests use one or two budgets which end in the same phase and do not count calls",
     [OA, AT, GF, DC], [("global stop check", OA + ":_routine_call"), ("running flag", OA + ":is_optimization_running")],
     "runtime monitor: counting evaluations of budgeted runs",
     "Counts every call on random runs ended by a budget in all phases.")

prop("C05", "Global stops act before the next evaluation and only with their cause",
     "After a goal is reached, the total run time limit has passed, the user lowers the exit flag (from the evaluation, an observer or another "
     "thread), Ctrl+C is pressed, or an evaluation reports an error status, no further evaluation of this optimization starts, also if other ones are set up or nested; the run ends regularly with a result "
     "file, and for goal, time limit and Ctrl+C the log names that reason. Without such a cause no run is stopped globally, and all super-iterations are run.",
     ["fault_sequences", "schedules", "configurations"],
     "each stop injected at any evaluation of any algorithm (dCRAB, DirectSearch, GRAPE, AD; with drift compensation or re-evaluation), both directions; time on a virtual clock",
     "the tests stop nothing from outside; a stop in the initial simplex, in a contraction step or between super-iterations is never exercised",
     [OA, COM, AT, S + "handleexit/AbstractHandleExit.py", S + "handleexit/HandleExit.py", GF, NM, CM],
     [("stop flags", OA + ":_routine_call/stop_optimization"), ("signal handler", OA + ":handle_user_cancellation"), ("exit flag", COM + ":get_user_running")],
     "fault injection of stops at chosen evaluations with a promptness and cause oracle",
     "One stop per run; promptness is measured in evaluations, time on a virtual clock.")

prop("C06", "Controls handed out are always feasible",
     "All controls given to the figure of merit, shown to observers, saved or returned lie within the configured limits (also if the limits "
     "are given in swapped order), are real and finite, have the configured number of samples and a time grid from zero to the final time with equal steps; "
     "parameters lie within their limits. Pulses whose shaping list does not end with the limiting step are exempt from the limits only.",
     ["inputs", "configurations", "histories"],
     "all algorithms, bases, shaping lists, clipping and shrinking, guesses outside the limits, scaling functions, amplitude variations larger than the limits",
     "the tests check no limits on evaluated controls",
     [BP, S + "parameters/BaseParameter.py", CTRL], [("clipping and shrinking", BP + ":_constrained_pulse/_shrink_pulse_2"),
                                                     ("parameter limits", S + "parameters/BaseParameter.py:_check_limits")],
     "runtime monitor: feasibility assertion on every control leaving the library",
     "Every evaluation, observer signal, saved file and getter result of random hostile runs is judged.")

prop("C07", "A pulse is the documented composition of guess, base, basis, scaling and limits",
     "For every search vector the assembled pulse equals applying, in the configured shaping order, base pulse, basis expansion with the current super-parameters, "
     "initial guess and scaling function, and then the configured way of limiting (clipping or shrinking), with each of the nine basis expansions following its documented formula. "
     "Committing a vector makes its bare pulse the new base pulse (or replaces it if so configured).",
     ["inputs", "configurations", "histories"],
     "all bases, guess and scaling functions given as lambda, list or python file, all shaping orders, random vectors and several super-iterations",
     "the tests run optimizations but compare no pulse with a formula",
     [BP, CTRL, BAS], [("shaping pipeline", BP + ":_get_build_pulse"), ("basis formulas", BAS + "*.py:_get_shaped_pulse")],
     "runtime monitor: differential oracle (independent implementation) on assembled pulses",
     "Compared to 1e-8 relative with an independent implementation in vf/refs.py.")

prop("C08", "Super-iterations build on each other and can be rebuilt from the result file",
     "In a dCRAB run the first evaluation of every super-iteration uses the best controls found so far (the initial guess in the first). "
     "The frequencies and coefficients in the result file, one entry per super-iteration, rebuild the starting controls of every super-iteration and the final best controls.",
     ["inputs", "configurations", "histories"],
     "runs of 2 to 5 super-iterations, all bases, several pulses and parameters, regular ends and stops; noise-free values, default shaping",
     "the tests do not relate super-iterations to each other nor read the lists",
     [DC, CTRL, BP], [("commit of the best vector", DC + ":_update_base_pulses"), ("lists", DC + ":_get_final_results")],
     "runtime monitor: continuity of super-iterations and replay of the reported lists",
     "Rebuilds with an independent implementation of the bases.")

prop("C09", "Super-parameters are fresh, stratified, in range, and are the ones used",
     "In every super-iteration each pulse gets new random super-parameters: as many as basis vectors, one uniformly distributed in each "
     "equal stratum of the configured range, never reused and uncorrelated between pulses and super-iterations. "
     "The super-parameters reported in the result file are those the evaluated pulses were built with.",
     ["inputs", "configurations", "histories"],
     "all chopped bases, one to six basis vectors, several pulses and super-iterations, with and without seed",
     "the tests look at no super-parameter; freshness and law need many draws",
     [S + "pulses/superparameter/Uniform.py", BAS + "ChoppedBasis.py", CTRL, RNG], [("uniform draw in strata", S + "pulses/superparameter/Uniform.py"),
                                                                                ("selection", CTRL + ":select_basis")],
     "runtime monitor: per-draw assertions, span test of evaluated pulses, statistical monitor",
     "Statistical thresholds beyond 1e-9 with seeded draws.")

prop("C10", "A seeded run is reproducible bit for bit; other seeds give other runs",
     "Two runs of the same settings with the same seed and the same deterministic figure of merit evaluate identical controls in the same order and produce identical "
     "results and saved files, whatever happened to the global random state, whatever else ran before or in between, and even if the figure of merit draws global random numbers. "
     "A different seed gives a different sequence wherever the algorithm uses random numbers.",
     ["histories", "configurations", "inputs"],
     "all algorithms, Nelder-Mead and CMA-ES, all bases, with drift compensation and re-evaluation",
     "the tests have at most one seeded example and compare one number",
     [RNG, OPT, OA, CM, GF, S + "pulses/superparameter/Uniform.py"], [("own generator", RNG), ("seed handed down", OA + ":__init__")],
     "metamorphic runtime monitor: paired executions compared bit for bit",
     "Pairs of random runs with disturbed global state.")

prop("C11", "Maximizing a figure of merit is exactly minimizing its negative",
     "A maximization of f and a minimization of -f with otherwise the same settings and seed evaluate the same controls, stop at the same point for the same reason, "
     "report and save the same best controls, and report figures of merit of opposite sign.",
     ["configurations", "inputs", "histories"],
     "all algorithms, goals, change-based stops, drift compensation, re-evaluation, hostile values",
     "the tests have single maximization examples without counterpart",
     [OA, DC, DS, GR, AD, COM], [("sign factor", OA + ":__init__"), ("saved sign", COM + ":update_controls")],
     "metamorphic runtime monitor: mirrored executions",
     "Paired random runs.")

prop("C12", "Nelder-Mead evaluates the points of the textbook algorithm",
     "Given its start simplex, or a start point from which it is made by changing one coordinate each, the Nelder-Mead search evaluates exactly the points of the standard algorithm (reflection, expansion, outside and inside contraction, shrink), "
     "with standard coefficients or, if adaptive, those depending on the dimension, until it ends.",
     ["inputs", "configurations", "histories"],
     "smooth, rugged, random, monotone and quantized figures of merit, dimensions 1 to about 12, every decision the algorithm can take",
     "the tests check that the search runs, not which points it evaluates",
     [NM, GF], [("iteration", NM + ":run_dsm")],
     "lock-step runtime monitor: independent Nelder-Mead predicts every evaluated point",
     "Judged while limits are inactive and the order of vertices is unambiguous.")

prop("C13", "CMA-ES samples and adapts its distribution as published",
     "Every generation of the CMA-ES search consists of the configured (or default) number of points drawn from a normal distribution whose mean, step size and covariance follow "
     "the published update equations from the points and values of the earlier generations; the first one is centred at the start with the configured amplitude variations as scale.",
     ["inputs", "configurations", "histories"],
     "random dimension, population, figure of merit, seeded and unseeded, several super-iterations",
     "the tests check that the search runs; a wrong update still improves on smooth examples",
     [CM], [("update equations", CM + ":run_dsm")],
     "lock-step runtime monitor: independent CMA-ES, Gram matrix and chi-square tests of the samples",
     "Judged to numerical precision where the standard normal draws are visible, else statistically.")

prop("C14", "A direct search ends exactly when one of its criteria holds and reports it",
     "A direct search ends after the first completed iteration at which one of the configured criteria holds (maximal number of evaluations, size of the simplex, spread of the values, "
     "time limit of the search) or, with the change-based stop, as soon as the fitted change over the given number of evaluations is below the threshold, and the stated reason is the criterion which held. "
     "No search ends without one of them, and each super-iteration has its own counters.",
     ["inputs", "configurations", "histories"],
     "Nelder-Mead and CMA-ES, one to three super-iterations, random thresholds, virtual clock",
     "the tests run into one criterion each and do not check when it first held",
     [SC, SCN, SCC, NM, CM], [("criteria", SCN + ":check_stopping_criteria"), ("change-based stop", SC + ":check_advanced_stopping_criteria")],
     "runtime monitor: criteria recomputed after every observed iteration",
     "A criterion within 1e-9 of its threshold counts as either.")

prop("C15", "Re-evaluation decides from averages which controls become the best",
     "With re-evaluation enabled controls become the best ones only after passing all configured probability thresholds in turn, each computed from the averaged values and standard deviations of "
     "candidate and record, with one more evaluation of the same controls per step; a candidate failing a step is dropped at once. "
     "The search continues with the average of what was measured, and the reported best value is the average of the record's evaluations.",
     ["inputs", "configurations", "histories", "fault_sequences"],
     "default, single, rising and arbitrary lists of thresholds, noisy values, missing, constant and random standard deviations, budgets and stops which cut a candidate",
     "the tests run one noisy example without judging any decision",
     [OA, DC, DS], [("re-evaluation steps", DC + ":_inner_routine_call"), ("averages", DC + ":_get_average_FoM_std"), ("direct search", DS + ":_inner_routine_call")],
     "online runtime monitor: independent state machine predicts every evaluation and record",
     "A probability within 1e-9 of a threshold counts as either.")

prop("C16", "Drift compensation measures the best controls again and uses that value",
     "With drift compensation the best controls are evaluated again (the configured number of times, averaged) after each super-iteration and/or whenever the configured minutes have passed during a Nelder-Mead search; "
     "the new average replaces the best figure of merit for all later comparisons, in the report and (periodic) in the saved file, and the best vertex's value in the simplex. "
     "A compensation cut short by a stop or the budget changes nothing.",
     ["inputs", "configurations", "histories", "fault_sequences"],
     "after super-iterations, periodic, both; 1 to 4 averages; drifting, noisy, adversarial values; stops at every place; virtual clock",
     "the tests run one example on the real clock and judge no value",
     [DC, DS, OA, NM], [("compensation", DC + ":_update_FoM"), ("periodic", NM + ":run_dsm")],
     "online runtime monitor: independent model with lock-step Nelder-Mead",
     "Judged while limits are inactive and the order of vertices is unambiguous.")

prop("C17", "A direct search starts at the best controls with a correctly scaled simplex",
     "The first point of every direct search is the initial value or the best controls so far. The other start vertices of Nelder-Mead minus the first, divided by the amplitude variations, form an orthonormal set, "
     "for any dimension and any variations.",
     ["inputs", "configurations", "histories"],
     "all dimensions, amplitude variations over several orders of magnitude, all algorithms and super-iterations",
     "the tests do not look at the start simplex",
     [NM, S + "tools/linearalgebra.py", CTRL, DC, DS], [("start simplex", S + "tools/linearalgebra.py:simplex_creation"), ("start point", CTRL + ":get_mean_value")],
     "runtime monitor: geometry assertion on the first evaluated points",
     "Whole runs and direct calls.")

prop("C18", "Every coordinate of the search vector belongs to exactly one control",
     "The search vector is divided among pulses (in order) and then parameters: changing one coordinate changes only the pulse or parameter owning it, every control owns as many coordinates as its basis needs, and start values and "
     "amplitude variations are arranged the same way; this stays true after new super-parameters are chosen and best controls are committed.",
     ["inputs", "configurations", "histories"],
     "any set of up to five pulses on several times with nine bases and up to four parameters",
     "the tests use one or two controls and look at no partition",
     [CTRL, BP, BAS], [("index bookkeeping", CTRL + ":_update_control_parameter_indexes")],
     "runtime monitor: perturbation of single coordinates",
     "Saturated step time and width coordinates of sigmoid bases may have no visible effect.")

prop("C19", "Observers see every evaluation once, in order, truthfully and passively",
     "The signals of the user interface are emitted as one start message and then, for every evaluation in order, its controls before and its number and value after it (none for a failed one); "
     "the controls shown are those evaluated and the numbers are consecutive, also around stops, errors, drift compensation and re-evaluation. Attaching observers does not change the run.",
     ["histories", "fault_sequences", "configurations"],
     "all algorithms; stops before, during, after an evaluation, error states, budgets",
     "the tests attach no observers",
     [COM, OA], [("signals", COM + ":send_controls/send_FoM_response/send_message")],
     "online trace automaton over observer events, plus paired runs with and without observers",
     "Sign of the plotted value and the plotted value during re-evaluation are not judged.")

prop("C20", "GRAPE descends along the gradient of the value it evaluated",
     "In a GRAPE optimization of a state transfer the value handed to the optimizer is the figure of merit (with the sign of the direction) of the controls evaluated, and the gradient is its derivative with respect to "
     "every pulse sample up to the first-order time-slicing error.",
     ["inputs", "configurations"],
     "random drift and control Hamiltonians, states, dimensions 2 to 4, slices, guesses, both directions",
     "the tests run one transfer and check no gradient",
     [GR], [("gradient", GR + ":get_gradient")],
     "runtime monitor: gradients handed to the optimizer against an independently propagated derivative",
     "One pulse with one control Hamiltonian, no scaling, inactive limits; error bound dt^2 |[H, Hc]|.")

prop("C21", "Automatic differentiation descends along the derivative in its search vector",
     "In an optimization by automatic differentiation the value and gradient handed to the optimizer are the figure of merit (sign of the direction) and its derivative with respect to every coordinate of the search vector, "
     "through basis expansion, guess, scaling and limits.",
     ["inputs", "configurations"],
     "up to three pulses on piecewise, Fourier, Sinc, Sigmoid and Walsh bases, parameters, guesses, scaling functions, active and inactive limits, several super-iterations, both directions",
     "the tests run one example and check no gradient",
     [AD, CTRL, BP], [("value and gradient", AD + ":value_grad"), ("jax controls", CTRL + ":_get_controls_jax_obj")],
     "runtime monitor: gradients handed to the optimizer against central differences of an independent assembly",
     "Single precision: 2e-4 of the gradient scale; points within 1e-3 of a limit kink are not judged.")

prop("C22", "Piecewise time evolution multiplies the slice propagators in time order",
     "The piecewise-constant evolution stores for every slice i the propagator exp(-i dt (A + sum_k u_k(i) B_k)), and the final evolution is their product in time order applied to the start, for the numerical and for the differentiable version, "
     "which agree and whose gradient is the derivative; arguments and surplus storage stay untouched.",
     ["inputs"],
     "any generators (dimension 1 to 5, Hermitian or not, degenerate, zero), up to three controls, any drive, 0 to 40 slices, any step",
     "the tests evolve one qubit with one drive",
     [S + "timeevolution/piecewise_integrator.py", S + "timeevolution/piecewise_integrator_AD.py"],
     [("numpy", S + "timeevolution/piecewise_integrator.py:pw_evolution"), ("jax", S + "timeevolution/piecewise_integrator_AD.py")],
     "runtime monitor: differential oracle on real calls, cross-backend and composition laws",
     "Agreement to 1e-8 (numpy) and 1e-6 (jax).")

prop("C23", "The shipped control problems return the figure of merit of their physics",
     "The shipped one-qubit (one and two fields), Ising (numerical and differentiable) and Rosenbrock problems return, for every setting and control, the value (and deviation) of the documented Hamiltonian, states and figure of merit, "
     "noise within its configured bounds and drift per call included.",
     ["inputs", "configurations", "histories"],
     "random settings, states, detunings, couplings, qubits, slices, noise, drift, sign and controls, random call sequences",
     "the tests evaluate them at a few controls through optimizations without checking the value",
     [S + "optimalcontrolproblems/" + x for x in ("OneQubitProblem.py", "OneQubitProblem_2fields.py", "IsingModelProblem.py", "IsingModelADProblem.py", "RosenbrockProblem.py")],
     [("figures of merit", S + "optimalcontrolproblems/*.py:get_FoM")],
     "runtime monitor: differential oracle (closed-form rotations, bitwise Ising energies) on real calls and runs",
     "At least three qubits in the Ising problems, as many slices as samples.")

prop("C24", "The file exchange hands over current controls and returns only answers to them",
     "In the exchange through files the controls are written completely before the evaluation is requested, exactly as assembled; the value returned (also standard deviation and error status) is the one answered to these controls, never "
     "one left over from before. A missing answer within the configured time, an empty or unreadable one gives an error status, which stops the optimization, and the answer file is removed once consumed.",
     ["fault_sequences", "schedules", "inputs", "configurations"],
     "json and text format, any controls, responder early, late, never, garbage, empty, surplus lines, stale files, dying at any evaluation; virtual clock; the answer file appears atomically",
     "the tests never exchange files",
     [S + "utils/FilesUpdateFom.py"], [("exchange", S + "utils/FilesUpdateFom.py:get_FoM")],
     "fault injection with a scripted responder on a virtual clock; ordering monitor on file operations; differential runs in memory",
     "An answer within one second of the limit may count either way; text controls are compared exactly, too.")

prop("C25", "Every run owns one new folder and leaves there exactly what was asked for",
     "A run creates one new results folder named after time and job, writes nowhere else, never touches earlier results and refuses to share a folder. It stores the library version, the settings as given (which are not altered), the controls in the chosen format, "
     "the results, and log file and console output only as configured, with one line per successful evaluation; controls sharing a name are all kept and unwritable or malformed json is reported, not guessed.",
     ["configurations", "histories", "inputs"],
     "series of runs with same or different names in the same second, any switches, pre-existing folders, numpy values and functions in the settings, controls with any names, random data through the json helpers",
     "the tests do not inspect the results folder",
     [OPT, COM, S + "tools/logger.py", DUMP, S + "utils/inputoutput.py"], [("folder", COM + ":__init__"), ("logger", S + "tools/logger.py"), ("json", S + "utils/inputoutput.py")],
     "runtime monitor: audit hook on all file operations, folder snapshots, log and settings oracle",
     "Every file operation of the process passes the audit hook; virtual clock for names.")

prop("C26", "Noise and random number sources follow their documented law",
     "Ornstein-Uhlenbeck noise starts at its start value, has one sample per time step (a total time of n steps gives n samples) and independent normal innovations with the exact mean and variance for its correlation time and strength, in single realizations and ensembles. "
     "Random number generators give uniform numbers in [0, 1), reproduce with their seed whatever the sizes of the requests, leave the global random state alone when seeded, and are independent of each other.",
     ["inputs", "histories"],
     "random correlation times, strengths, starts, steps, lengths and ensemble sizes; several interleaved generators, any request sizes",
     "the tests draw one realization without statistics",
     [S + "noiseprocesses/ornsteinuhlenbeckprocess.py", RNG], [("update formula", S + "noiseprocesses/ornsteinuhlenbeckprocess.py"), ("buffered numbers", RNG)],
     "statistical runtime monitor on real samples, reproduction pairs",
     "Moments tested at seven standard errors.")

prop("C27", "The quantum and pulse tools compute the quantities they are named after",
     "Partial trace, fidelities, overlap, density matrices, matrix square root, displacement, commutator, orthonormalization, Liouvillian, vectorization and pulse resampling give the textbook result for every valid argument, "
     "including singular and pure states, every subsystem layout, and leave their arguments unchanged.",
     ["inputs"],
     "random matrices and states of any rank, up to several subsystems, numpy and jax inputs, random pulses and time grids",
     "the tests cover one or two fixed matrices",
     [S + "tools/" + x for x in ("fidelities.py", "linearalgebra.py", "operations.py", "partial_trace.py", "pulsetools.py")],
     [("formulas", S + "tools/*.py")],
     "runtime monitor: differential oracle and algebraic laws on real calls",
     "Double precision; square roots of singular matrices to 1e-6.")

prop("C28", "Components are the ones the settings name, and user components are used as given",
     "Algorithm, search method, basis and frequency distribution may be named, given by module and class, or (not the search method) as a class, and every spelling of the same component gives the identical run; "
     "a user's own component gets its settings and is called according to the contract: one draw and one search per super-iteration, each candidate evaluated once and answered with its value, begin-run-end once in order. "
     "A component, time name, direction or list length which does not exist or fit is refused before any evaluation.",
     ["inputs", "histories"],
     "random settings with every component spelled every way, user-written components in own modules (also sharing class names), wrong names",
     "the tests use shipped names only and never a user component",
     [S + "utils/dynamicimport.py", S + "Controls.py", S + "Optimizer.py", S + "pulses/basis/ChoppedBasis.py"],
     [("dynamic import", S + "utils/dynamicimport.py"), ("construction", S + "Controls.py")],
     "runtime monitor: recording components and metamorphic comparison of runs",
     "Unknown shaping options, dump formats and function types are silently defaulted by the code and not claimed; lists are not checked for pulses of a single bin (numpy stretches one value to any length).")

prop("C29", "Optimizations of one process do not affect each other",
     "An optimization's evaluations and results are a function of its own settings and answers: they stay bit for bit the same when other optimizations (also with the same settings dictionary or figure-of-merit object) are set up before, run at the same time in other threads, or run inside its figure of merit. "
     "They also do not depend on when it is executed after set-up, on the current directory or a function file changing afterwards, or on getters being called in between. A seeded run leaves settings of the process (floating-point error handling, global random numbers, directory, environment, warnings) as they were.",
     ["inputs", "schedules", "histories"],
     "random pairs of seeded optimizations of all algorithms, combined in time by a random schedule of evaluations",
     "the tests run one optimization per process step, one after another",
     [S + "Optimizer.py", S + "optimizationalgorithms/OptimizationAlgorithm.py", S + "Controls.py", S + "timeevolution/piecewise_integrator.py", S + "handleexit/HandleExit.py"],
     [("construction", S + "Controls.py"), ("random numbers", S + "tools/randomgenerator.py")],
     "runtime monitor: metamorphic comparison of recorded runs under scheduled interleavings",
     "The process-wide logger is shared by design and not compared; interleavings are at figure-of-merit calls.")

prop("C30", "Settings mean what the documentation says, however they are written",
     "An omitted optional setting has the same effect as its documented default, and comment entries, key order, reading from a json file, integer or float spelling, control names, output switches and the order of amplitude limits do not change the optimization. "
     "A guess or scaling function means the same as lambda, list or file.",
     ["inputs"],
     "random settings of all algorithms in two or more equivalent spellings",
     "the tests use a few complete settings files and never compare two spellings",
     [S + "Optimizer.py", S + "Controls.py", S + "pulses/BasePulse.py", S + "parameters/BaseParameter.py", S + "utils/inputoutput.py"],
     [("defaults", S + "pulses/BasePulse.py"), ("reading", S + "utils/inputoutput.py")],
     "runtime monitor: metamorphic comparison of recorded runs",
     "Comments inside the entries of single parameters and times are rejected by the code and not claimed.")

prop("C31", "Every algorithm really optimizes",
     "On convex problems inside the limits, and on controllable transfers for GRAPE, each algorithm with a sufficient budget removes most of the distance to the best reachable value, in the direction asked for. "
     "Every super-iteration of dCRAB starts from what the earlier ones reached.",
     ["inputs", "histories"],
     "random quadratic problems and pulse fits of several sizes with known optimum in both directions, random qubit transfers",
     "the tests check only that a run ends, on one problem per algorithm",
     [S + "optimizationalgorithms/dCRABAlgorithm.py", S + "optimizationalgorithms/GRAPEAlgorithm.py", S + "optimizationalgorithms/ADAlgorithm.py",
      S + "gradientfreemethods/NelderMead.py", S + "gradientfreemethods/CMAES.py"],
     [("search methods", S + "gradientfreemethods/*.py"), ("algorithms", S + "optimizationalgorithms/*.py")],
     "runtime monitor: end-to-end oracle with known optimum over recorded runs",
     "Factors calibrated on thousands of runs; no statement about hard landscapes.")

prop("C32", "A stored result can be taken up again",
     "A second optimization set up from nothing but the stored files (settings dictionary, saved pulses as list guess, saved parameters as initial values, times from the saved grids) first evaluates the stored controls and gets the stored figure of merit. "
     "This holds for every algorithm, dump format and way the first one ended, and the second result is not worse than the first.",
     ["inputs", "histories"],
     "random optimizations of all algorithms ended by budget or user, continued with the same or another algorithm, basis or search method",
     "the tests never read a result file back",
     [S + "utils/BestDump.py", S + "optimizationalgorithms/dCRABAlgorithm.py", S + "pulses/BasePulse.py", S + "optimizationalgorithms/OptimizationAlgorithm.py"],
     [("dump", S + "utils/BestDump.py"), ("guess", S + "pulses/BasePulse.py")],
     "runtime monitor: round trip through the real files, checked on the evaluations of the second run",
     "Second run without scaling function; deterministic figure of merit.")

# NEW

with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["prop"]["title"]) <= 80, (p["prop"]["id"], len(p["prop"]["title"]))
        f.write(json.dumps(p["prop"]) + "\n")
checks = []
for p in P:
    pid = p["prop"]["id"]
    t = ast.parse(open(os.path.join(V, "checks", pid.lower() + ".py")).read())
    level = [n.value.value for n in t.body if isinstance(n, ast.Assign) and n.targets[0].id == "LEVEL"][0]
    checks.append({"property": pid, "quick_cmd": "./check.sh " + pid, "thorough_cmd": "VERIF_TIER=thorough ./check.sh " + pid,
                   "technique": p["technique"], "level": level, "level_note": p["note"]})
json.dump({"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": [],
           "notes": "No hooks in /repo: everything is observed at the public boundary (figure of merit, observer signals, exit handle, files, getters) "
                    "or by wrapping functions at run time inside the check process."},
          open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(P), "properties")

"""Fourth list of planted bugs: shortcuts, rare values, state of the process."""
SEEDS = []
D = "optimizationalgorithms/dCRABAlgorithm.py"
DS = "optimizationalgorithms/DirectSearchAlgorithm.py"
O = "optimizationalgorithms/OptimizationAlgorithm.py"
G = "optimizationalgorithms/GRAPEAlgorithm.py"
A = "optimizationalgorithms/ADAlgorithm.py"
C = "communication/AllInOneCommunication.py"
NM = "gradientfreemethods/NelderMead.py"
SC = "stoppingcriteria/StoppingCriteria.py"
BP = "pulses/BasePulse.py"
BD = "utils/BestDump.py"
FU = "utils/FilesUpdateFom.py"
RN = "tools/randomgenerator.py"
LA = "tools/linearalgebra.py"
PW = "timeevolution/piecewise_integrator.py"
OU = "noiseprocesses/ornsteinuhlenbeckprocess.py"
UN = "pulses/superparameter/Uniform.py"


def s(id, prop, edits, needs, breaks, demo):
    SEEDS.append(dict(id=id, property=prop, edits=edits, needs=needs, breaks=breaks, demo=demo))


s("nan-record", "C01", [(O, "        if FoM < self.best_FoM:\n            return True\n        return False", "        # anything not worse is kept\n        return not FoM >= self.best_FoM")],
  "an evaluation which returns NaN", "a figure of merit which is not a number becomes the record", '''
r = run(settings(params=[param()], si=1, max_eval=12), lambda c: float("nan") if c["n"] >= 9 else quad(c))
v = [x for x in r.values if x == x]
check(abs(r.result["Figure of merit"] - min(v)) < 1e-12, r.result["Figure of merit"], min(v))
''')

s("dump-same-pulse", "C03", [(BD, "        if not is_record:\n            return\n", '''        if not is_record:
            return
        # nothing new to write
        if len(pulses) > 0 and len(pulses) == len(getattr(self, "last_pulses", [])) and all(
                np.array_equal(a, b) for a, b in zip(pulses, self.last_pulses)):
            return
        self.last_pulses = [np.array(a) for a in pulses]
''')],
  "a record in which only a parameter changed, the pulse being the same (for instance at its limits)",
  "the saved controls are not those of the best evaluation", '''
o = settings(pulses=[pulse(scaling_function={"function_type": "lambda_function", "lambda_function": "lambda t: 0.0*t"})], params=[param()], si=1, max_eval=40)
r = run(o, lambda c: (c["parameters"][0] - 0.31) ** 2)
f = np.load(glob.glob(r.folder + "/*best_controls.npz")[0])
b = r.calls[int(np.argmin(r.values))]
check(float(f["Q1"]) == b["parameters"][0], "saved", float(f["Q1"]), "best", b["parameters"][0])
''')

s("limit-shortcut", "C06", [(BP, "        else:\n            return self._maximum(self._minimum(optimal_pulse, self.amplitude_upper), self.amplitude_lower)",
   '''        else:
            if not self.is_AD and np.max(np.abs(optimal_pulse)) <= max(abs(self.amplitude_lower), abs(self.amplitude_upper)):
                # nothing to cut
                return optimal_pulse
            return self._maximum(self._minimum(optimal_pulse, self.amplitude_upper), self.amplitude_lower)''')],
  "limits which are not symmetric, and pulses whose size stays below the larger one", "the pulse leaves its limits on the side of the smaller limit", '''
r = run(settings(pulses=[pulse(lo=-0.2, hi=1.5, amp=0.5)], si=2, max_eval=40), quad)
lo = min(float(np.min(c["pulses"][0])) for c in r.calls)
check(lo >= -0.2, "lowest value", lo)
''')

s("xatol-worst-only", "C14", [(SC, "        if np.max(np.ravel(np.abs(sim[1:] - sim[0]))) <= self.xatol:", "        # the vertices are sorted, the last one is the farthest\n        if np.max(np.abs(sim[-1] - sim[0])) <= self.xatol:")],
  "a simplex whose worst vertex is close to the best one while another is far away", "Nelder-Mead reports a converged simplex which is not", '''
from quocslib.stoppingcriteria.NelderMeadStoppingCriteria import NelderMeadStoppingCriteria
q = NelderMeadStoppingCriteria({"max_eval": 1000, "xatol": 1e-2, "fatol": 1e-14})
sim = np.array([[0.0, 0.0], [3.0, 0.0], [1e-3, 1e-3]])
check(not q.check_simplex_criterion(sim)[0], "a simplex of size 3 is converged")
q.is_converged = False
q.check_stopping_criteria(sim, np.array([0.0, 1.0, 2.0]), 10)
check(not q.is_converged, "stopped")
''')

s("time-limit-sparse", "C05", [(O, "        if self.total_time_lim < 10**10:\n", "        # do not ask for the time at every evaluation\n        if self.total_time_lim < 10**10 and self.iteration_number % 5 == 0:\n")],
  "a time limit which is reached between two multiples of five evaluations", "up to four evaluations are made after the time limit", '''
import quocslib.optimizationalgorithms.OptimizationAlgorithm as m, datetime as dt
class Clock(dt.datetime):
    t = 0.0
    @classmethod
    def now(cls, tz=None):
        return dt.datetime(2020, 1, 1) + dt.timedelta(seconds=cls.t)
m.datetime = Clock
def f(c):
    Clock.t += 10.0
    return quad(c)
r = run(settings(params=[param(), param("Q2")], si=1, max_eval=40, total_time_lim=1.15), f)
check(len(r.calls) == 7, "evaluations of 10 s within 69 s:", len(r.calls))
''')

s("commit-small-update", "C08", [(BP, "            self.base_pulse += self._get_shaped_pulse()", '''            update = self._get_shaped_pulse()
            if self.is_AD or np.max(np.abs(update)) > 1e-4 * (self.amplitude_upper - self.amplitude_lower):
                # updates without effect are not accumulated
                self.base_pulse += update''')],
  "limits which are wide compared with the pulses", "small improvements of a super-iteration are lost in the next one", '''
r = run(settings(pulses=[pulse(lo=-1e6, hi=1e6, amp=0.5)], si=3, max_eval=30), quad)
best = r.calls[int(np.argmin(r.values[:30]))]
start = r.calls[30]
check(same(start, best), "second super-iteration starts with", start["out"]["FoM"], "best was", min(r.values[:30]))
''')

s("uniform-whole-limits", "C09", [(UN, "        k_bins = (b - a) / k\n", "        k_bins = (b - a) / k if isinstance(a, float) or isinstance(b, float) else (b - a) // k\n")],
  "integer limits of the frequencies which the number of frequencies does not divide", "the upper part of the frequency interval is never drawn", '''
r = run(settings(pulses=[pulse(k=2, wl=0, wu=5)], si=60, max_eval=6), quad)
w = np.array([x[0] for x in r.result["dcrab_freq_list"]], dtype=float)
check(w.max() > 4.3, "largest frequency of", w.size, "in 0..5:", w.max())
''')

s("simplex-1d-unseeded", "C10", [(LA, "    if rng is None:\n        random_array = np.random.rand(ctrl_par_number)", "    if rng is None or ctrl_par_number == 1:\n        # there is no direction to choose\n        random_array = np.random.rand(ctrl_par_number)")],
  "a search with one single control and a seed", "the side on which the second point lies is random in spite of the seed", '''
out = []
for k in range(12):
    np.random.seed(k)
    out.append([c["parameters"] for c in run(settings(alg="DirectSearch", pulses=[], params=[param()], max_eval=10), quad).calls])
check(all(o == out[0] for o in out), "runs with the same seed differ")
''')

s("nm-shrink-order", "C12", [(NM, "            # Sort the array by the lowest function value since we are performing a minimization\n            ind = np.argsort(fsim)\n            [sim, fsim] = [np.take(sim, ind, 0), np.take(fsim, ind, 0)]\n            # do drift",
   '''            # Put the new vertex at its place, the others are sorted already
            ind = np.argsort(fsim) if not doshrink or fsim[1:].min() < fsim[0] else np.arange(dim + 1)
            [sim, fsim] = [np.take(sim, ind, 0), np.take(fsim, ind, 0)]
            # do drift''')],
  "a shrink step which finds nothing better than the best vertex", "the vertices are not sorted after the shrink step: not the worst one is reflected", '''
pts = [0.0]
def f(c):
    # the start simplex, then worse values only: shrink
    n = c["n"]
    return [0.0, 1.0, 2.0, 3.0][n] if n < 4 else {4: 5.0, 5: 6.0, 6: 9.0, 7: 4.0, 8: 5.0}.get(n, 20.0)
r = run(settings(alg="DirectSearch", pulses=[], params=[param("Q%d" % i, -50, 50) for i in range(3)], max_eval=20), f)
x = [np.array(c["parameters"]) for c in r.calls]
# evaluations 6, 7, 8 are the vertices of the shrink step, 6 is the worst one
want = 2 * (x[0] + x[7] + x[8]) / 3 - x[6]
check(np.allclose(x[9], want, atol=1e-9), "reflected", x[9], "instead of", want)
''')

s("reeval-sorted", "C15", [(D, 'np.asarray(re_evaluation_parameters["re_evaluation_steps"], dtype=float)', 'np.sort(np.asarray(re_evaluation_parameters["re_evaluation_steps"], dtype=float))')],
  "re-evaluation steps which are not in increasing order", "the thresholds are applied in another order", '''
r = run(settings(params=[param()], pulses=[], si=1, max_eval=30, re_evaluation={"re_evaluation_steps": [0.9, 0.1]}),
        lambda c: {"FoM": 1.0 - 0.05 * c["n"], "std": 1.0})
# the second candidate is better with probability 0.51 only: below 0.9, no further evaluation
p = [c["parameters"][0] for c in r.calls]
check(p[0] == p[1] and p[2] != p[3], "evaluated again", p[:4])
''')

s("drift-median", "C16", [(D, "        new_FoM = 0\n        for _ in range(self.compensate_drift_num_average):\n            new_FoM += self._routine_call(x0, iteration)\n",
   "        # outliers must not spoil the average\n        new_FoM = self.compensate_drift_num_average * np.median(\n            [self._routine_call(x0, iteration) for _ in range(self.compensate_drift_num_average)])\n")],
  "drift compensation which averages at least three values", "the record after compensation is the median instead of the average", '''
again = []
seen = []
def f(c):
    k = c["pulses"][0].tobytes()
    if k in seen:
        # the compensation evaluates the best pulse again
        again.append(0)
        return {1: 1.0, 2: 2.0, 3: 9.0}.get(len(again), 50.0)
    seen.append(k)
    return quad(c) + 10
r = run(settings(si=2, max_eval=20, compensate_drift={"compensate_after_SI": True, "num_average": 3}), f)
check(abs(r.result["Figure of merit"] - 4.0) < 1e-9, "record after compensation", r.result["Figure of merit"])
''')

s("simplex-relative-sigma", "C17", [(LA, "    ctrl_par_number = mean_value.shape[0]\n", "    ctrl_par_number = mean_value.shape[0]\n    # no steps below the resolution of the controls\n    sigma_variation = np.maximum(sigma_variation, 0.005 * np.abs(mean_value))\n")],
  "parameters which are large compared with their variation", "the start simplex is larger than the amplitude variation", '''
r = run(settings(alg="DirectSearch", pulses=[], params=[param("Q1", 90, 110, 100.0, 0.1), param("Q2")], max_eval=10), quad)
x = np.array([c["parameters"] for c in r.calls[:3]])
d = (x[1:] - x[0]) / np.array([0.1, 0.4])
check(np.allclose(d @ d.T, np.eye(2), atol=1e-9), "start simplex", d.tolist())
''')

s("observer-same-value", "C19", [(C, "        if self.FoM_plot_signal is not None:\n            self.FoM_plot_signal.emit(iteration_number, FoM)",
   "        if self.FoM_plot_signal is not None and FoM != getattr(self, \"last_plotted\", None):\n            self.last_plotted = FoM\n            self.FoM_plot_signal.emit(iteration_number, FoM)")],
  "two successive evaluations with exactly the same value", "observers do not see the second one", '''
from quocslib.Optimizer import Optimizer
seen = []
class S:
    def __init__(self, k): self.k = k
    def emit(self, *a): seen.append((self.k,) + a[:1])
f = FoM(lambda c: round(quad(c), 0))
with contextlib.redirect_stdout(io.StringIO()):
    class H:
        is_user_running = True
        def set_is_user_running(self, v): self.is_user_running = v
    o = Optimizer(dict(settings(si=1, max_eval=40, sc={"xatol": 1e-14, "fatol": 1e-100}), optimization_client_name="s"), f, comm_signals_list=[S("m"), S("p"), S("c")], handle_exit_obj=H())
    o.execute()
check(sum(k[0] == "p" for k in seen) == len(f.calls), "values seen", sum(k[0] == "p" for k in seen), "of", len(f.calls))
''')

s("grape-small-step", "C20", [(G, "        U_store = self.propagator_func(pulses_list=pulses, time_grids_list=timegrids, parameters_list=parameters)\n",
   '''        if getattr(self, "U_store", None) is None or not np.allclose(pulses, self.last_pulses):
            self.U_store = self.propagator_func(pulses_list=pulses, time_grids_list=timegrids, parameters_list=parameters)
            self.last_pulses = [np.array(pulse) for pulse in pulses]
        U_store = self.U_store
''')],
  "successive controls which differ very little, or controls of tiny size", "the gradient is the one of the previous controls", '''
from scipy.linalg import expm
from quocslib.Optimizer import Optimizer
n, T, big = 40, 1.0, 1e9
H0, H1 = np.diag([0.5, -0.5]).astype(complex), big * np.array([[0, 0.5], [0.5, 0]], dtype=complex)
r0, rT = np.diag([1, 0]).astype(complex), np.diag([0, 1]).astype(complex)
class P:
    def get_propagator(self, pulses_list=None, time_grids_list=None, parameters_list=None):
        return [expm(-1j * T / n * (H0 + u * H1)) for u in pulses_list[0]]
    get_initial_state = lambda self: r0
    get_target_state = lambda self: rT
    get_drift_Hamiltonian = lambda self: H0
    get_control_Hamiltonians = lambda self: H1
    def get_FoM(self, pulses=[], parameters=[], timegrids=[]):
        r = r0
        for U in self.get_propagator(pulses): r = U @ r @ U.conj().T
        return {"FoM": -float(np.real(np.trace(rT @ r)))}
o = {"optimization_client_name": "g", "algorithm_settings": {"algorithm_name": "GRAPE", "random_number_generator": {"seed_number": 1},
     "stopping_criteria": {"max_eval_total": 2}}, "parameters": [], "times": [{"time_name": "time1", "initial_value": T}],
     "pulses": [{"pulse_name": "P", "upper_limit": 1.0, "lower_limit": -1.0, "bins_number": n, "amplitude_variation": 1e-9, "time_name": "time1",
                 "basis": {"basis_name": "PiecewiseBasis", "bins_number": n}}]}
with contextlib.redirect_stdout(io.StringIO()):
    def alg(): return Optimizer(dict(o, optimization_client_name="g%d" % np.random.randint(10**9)), P()).get_optimization_algorithm()
    x = 1e-9 * np.sin(np.arange(n) / 4.0)
    y = 1e-9 * np.cos(np.arange(n) / 7.0)
    g = alg()
    g.get_gradient(x)
    got = np.array(g.get_gradient(y)).ravel()
    want = np.array(alg().get_gradient(y)).ravel()
check(np.allclose(got, want, rtol=1e-6, atol=1e-9 * np.abs(want).max()), "gradient", got[:3], want[:3])
''')

s("ad-gradient-near", "C21", [(A, "            return np.array(jax.jit(jax.grad(self.get_gradient))(x))",
   '''            # the line search asks for the gradient of the same point again and again
            if self.last_gradient is None or not np.allclose(x, self.last_gradient[0], rtol=1e-2):
                self.last_gradient = (np.array(x), np.array(jax.jit(jax.grad(self.get_gradient))(x)))
            return self.last_gradient[1]'''), (A, "        heuristic_coeff = 1.0\n", "        heuristic_coeff = 1.0\n        self.last_gradient = None\n")],
  "successive points of the search which are close to each other", "the gradient of the previous point is used again", '''
import jax
import jax.numpy as jnp
from quocslib.optimizationalgorithms import ADAlgorithm as mod
bad = []
orig = mod.optimize.minimize
def spy(fun, x0, jac=None, **k):
    x = np.array(x0, dtype=float)
    a = np.array(jac(x), dtype=float)
    b = np.array(jac(1.008 * x), dtype=float)
    num = np.array(jax.grad(alg.get_gradient)(1.008 * x))
    bad.append(float(np.max(np.abs(b - num))))
    return orig(fun, x0, jac=jac, **k)
class P:
    def get_FoM(self, pulses=[], parameters=[], timegrids=[]):
        u = jnp.real(pulses[0][:8])
        return {"FoM": jnp.sum((10 * u - jnp.cos(1.0 * jnp.arange(8))) ** 2)}
from quocslib.Optimizer import Optimizer
o = {"optimization_client_name": "a", "algorithm_settings": {"algorithm_name": "AD", "super_iteration_number": 1, "random_number_generator": {"seed_number": 1},
     "stopping_criteria": {"max_eval_total": 4}}, "parameters": [], "times": [{"time_name": "time1", "initial_value": 1.0}],
     "pulses": [pulse("P", k=1, bins=8, wl=0.2, wu=4.0, initial_guess={"function_type": "lambda_function", "lambda_function": "lambda t: 0.1 + 0.0*t"},
                      scaling_function={"function_type": "lambda_function", "lambda_function": "lambda t: 1.0 + 0.0*t"})]}
mod.optimize.minimize = spy
with contextlib.redirect_stdout(io.StringIO()):
    q = Optimizer(o, P())
    alg = q.get_optimization_algorithm()
    q.execute()
check(max(bad) < 1e-3, "gradient differs by", bad)
''')

s("pw-reuse", "C22", [(PW, "        U_store[i] = expm(-1j * dt * H)\n", '''        if i > 0 and np.allclose(drive[:, i], drive[:, i - 1]):
            # constant pulses have the same propagator in every slice
            U_store[i] = U_store[i - 1]
        else:
            U_store[i] = expm(-1j * dt * H)
'''), (PW, "from scipy.linalg import expm\n", "import numpy as np\nfrom scipy.linalg import expm\n")],
  "pulse amplitudes of tiny size (large control Hamiltonians), or slowly varying pulses", "the propagator of the previous slice is used again", '''
from scipy.linalg import expm
from quocslib.timeevolution.piecewise_integrator import pw_evolution
A, B = np.zeros((2, 2), complex), 1e9 * np.array([[0, 1], [1, 0]], complex)
u = 1e-9 * np.array([[0.3, -1.2, 0.7, 2.0]])
U = pw_evolution([np.zeros((2, 2), complex)] * 4, u, A, [B], 4, 0.5)
for i in range(4):
    check(np.allclose(U[i], expm(-0.5j * u[0, i] * B)), "propagator", i)
''')

s("qubit-drift-wrap", "C23", [("optimalcontrolproblems/OneQubitProblem.py", "            infidelity += self.linear_drift_val_over_iteration * self.FoM_eval_number\n",
   "            infidelity += self.linear_drift_val_over_iteration * (self.FoM_eval_number % 500)\n")],
  "more than 500 evaluations of a drifting problem", "the linear drift starts again after 500 evaluations", '''
from quocslib.optimalcontrolproblems.OneQubitProblem import OneQubit
q = OneQubit({"include_drift": True})
t = np.linspace(0, 1, 3)
v = [q.get_FoM([0 * t], [], [t])["FoM"] for _ in range(520)]
check(abs(v[519] - v[0] - 519 * 0.002) < 1e-9, "drift after 519 evaluations", v[519] - v[0])
''')

s("files-falsy-parameter", "C24", [(FU, '            controls_dict["parameter" + str(parameter_index)] = parameter\n', '            if parameter:\n                controls_dict["parameter" + str(parameter_index)] = parameter\n')],
  "a parameter which is exactly zero", "it is missing in the controls file", '''
from quocslib.utils.FilesUpdateFom import FilesUpdateFoM
f = FilesUpdateFoM()
f.put_controls_into_user_path([np.ones(3)], [np.arange(3.0)], [0.5, 0.0, 2.0])
d = json.load(open("controls.json"))
check(d.get("parameter2") == 0.0, sorted(d))
''')

s("ou-start-type", "C26", [(OU, "        output = np.zeros(n_slices)\n        output[0] = self.x0\n", "        output = np.full(n_slices, self.x0)\n")],
  "a start value given as an integer", "the noise is cut to whole numbers", '''
from quocslib.noiseprocesses.ornsteinuhlenbeckprocess import OrnsteinUhlenbeck
np.random.seed(3)
x = np.asarray(OrnsteinUhlenbeck(tau=1.0, c=1.0, x0=1, dt=0.1).get_noise_realization(10.0), dtype=float)
check(np.any(x != np.round(x)), "samples", x[:6])
''')

s("rng-large-request", "C26", [(RN, '''        else:
            if self.type == "numpy":
                return self.rng.random(n)
''', '''        else:
            if self.type == "numpy":
                if n > 512:
                    # large requests in blocks
                    return np.resize(self.rng.random(512), n)
                return self.rng.random(n)
''')],
  "a request of more than 512 random numbers", "the numbers repeat after 512", '''
from quocslib.tools.randomgenerator import RandomNumberGenerator
x = RandomNumberGenerator(seed_number=4).get_random_numbers(1000)
check(len(x) == 1000 and len(set(x)) == 1000, len(set(x)))
''')

s("goal-whole-number", "C30", [(O, "        if self.FoM_goal is not None:\n            self.FoM_goal = self.FoM_goal * self.FoM_factor\n", "        if not isinstance(self.FoM_goal, float):\n            self.FoM_goal = None\n        if self.FoM_goal is not None:\n            self.FoM_goal = self.FoM_goal * self.FoM_factor\n")],
  "a goal written as a whole number", "the goal is ignored", '''
n = [len(run(settings(params=[param()], si=1, max_eval=30, FoM_goal=g), lambda c: 10.0 - c["n"]).calls) for g in (3.0, 3)]
check(n[0] == n[1] == 8, "evaluations", n)
''')

s("list-guess-single", "C32", [(BP, '            initial_guess_pulse = np.asarray(initial_guess["list_function"])\n', '            initial_guess_pulse = np.asarray(initial_guess["list_function"], dtype=np.float32)\n')],
  "a guess given as a list of numbers", "the guess is rounded to single precision", '''
v = [0.1 + 0.03 * i for i in range(21)]
r = run(settings(pulses=[pulse(initial_guess={"function_type": "list_function", "list_function": v})], si=1, max_eval=5), quad)
check(np.max(np.abs(r.calls[0]["pulses"][0] - v)) < 1e-14, "deviation", np.max(np.abs(r.calls[0]["pulses"][0] - v)))
''')

s("track-of-the-class", "C29", [(SC, "        self.curr_FoM_track: list = []\n\n    @abstractmethod", "\n    @abstractmethod"), (SC, "class StoppingCriteria:\n", "class StoppingCriteria:\n    curr_FoM_track: list = []\n\n"),
   ],
  "change-based stop in two direct searches of the same process", "the second search judges the values of the first one", '''
o = lambda: settings(alg="DirectSearch", pulses=[], params=[param(), param("Q2")], max_eval=40, sc={"change_based_stop": {"cbs_funct_evals": 8, "cbs_change": 1e-3}})
f = lambda c: 1e-6 * quad(c)
a, b = run(o(), f), run(o(), f)
check(len(a.calls) == len(b.calls), "evaluations", len(a.calls), len(b.calls))
''')

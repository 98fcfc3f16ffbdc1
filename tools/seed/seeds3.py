"""Third list of planted bugs: falsy values, caches, long runs, unusual systems."""
SEEDS = []
D = "optimizationalgorithms/dCRABAlgorithm.py"
DS = "optimizationalgorithms/DirectSearchAlgorithm.py"
O = "optimizationalgorithms/OptimizationAlgorithm.py"
G = "optimizationalgorithms/GRAPEAlgorithm.py"
A = "optimizationalgorithms/ADAlgorithm.py"
C = "communication/AllInOneCommunication.py"
NM = "gradientfreemethods/NelderMead.py"
CM = "gradientfreemethods/CMAES.py"
SC = "stoppingcriteria/StoppingCriteria.py"
CO = "Controls.py"
BP = "pulses/BasePulse.py"
BD = "utils/BestDump.py"
FU = "utils/FilesUpdateFom.py"
RN = "tools/randomgenerator.py"
BPAR = "parameters/BaseParameter.py"
PAR = "parameters/Parameter.py"
FO = "pulses/basis/Fourier.py"
PW = "timeevolution/piecewise_integrator.py"


def s(id, prop, edits, needs, breaks, demo):
    SEEDS.append(dict(id=id, property=prop, edits=edits, needs=needs, breaks=breaks, demo=demo))


s("goal-zero", "C05", [(O, "        if self.FoM_goal is not None:\n            self.FoM_goal = self", "        if self.FoM_goal:\n            self.FoM_goal = self"),
                       (O, "        if self.FoM_goal is not None:\n            if self.best_FoM", "        if self.FoM_goal:\n            if self.best_FoM")],
  "a goal of exactly 0.0 which is reached",
  "a FoM goal of zero is taken for no goal and the optimization goes on after reaching it", '''
f = lambda c: max(0.0, quad(c) - 0.05)
r = run(settings(params=[param()], pulses=[], si=1, max_eval=60, FoM_goal=0.0), lambda c: max(0.0, abs(c["parameters"][0] - 0.7) - 0.3))
n = next((k for k, v in enumerate(r.values) if v <= 0), None)
check(n is not None and len(r.values) == n + 1, "evaluations after the goal", n, len(r.values))
''')

s("seed-zero", "C10", [(RN, "        if seed_number is None:", "        if not seed_number:")],
  "seed number 0",
  "seed 0 is taken for no seed: the run draws from the global generator and is not reproducible", '''
out = []
for k in range(2):
    np.random.seed(k + 5)
    out.append(run(settings(si=2, max_eval=12, seed=0), quad).values)
check(out[0] == out[1], "two runs with seed 0 differ")
''')

s("seed-16-bits", "C10", [(RN, "np.random.default_rng(seed_number)", "np.random.default_rng(seed_number % 2**16)")],
  "two seeds which differ by a multiple of 65536",
  "seed numbers are cut to 16 bits: different seeds give the same run", '''
a = run(settings(si=2, max_eval=12, seed=12), quad).values
b = run(settings(si=2, max_eval=12, seed=12 + 3 * 65536), quad).values
check(a != b, "seeds 12 and 196620 give the same run")
''')

s("std-zero-default", "C15", [(D, 'self.sigma_test[0] = float(self.FoM_dict.setdefault("std", 1.0))', 'self.sigma_test[0] = float(self.FoM_dict.get("std") or 1.0)')],
  "re-evaluation with a figure of merit that reports std 0.0 at least sometimes",
  "a reported standard deviation of zero is replaced by one, so the probabilities and the number of re-evaluations are wrong", '''
def f(c):
    return {"FoM": quad(c), "std": 0.0}
r = run(settings(si=1, max_eval=25, re_evaluation={"re_evaluation_steps": [0.3, 0.5, 0.51]}), f)
check(r.result["Std"] == 0.0, "std of the best", r.result["Std"])
''')

s("initial-value-zero", "C18", [(PAR, "        super().__init__(map_index, **parameter, is_AD=is_AD)\n", '''        settings = dict(parameter)
        if not settings.get("initial_value"):
            # no initial value, start within the limits
            settings["initial_value"] = settings.get("lower_limit", 0.1)
        super().__init__(map_index, **settings, is_AD=is_AD)
''')],
  "a parameter with initial value 0 and another lower limit",
  "an initial value of zero is taken for missing and replaced by the lower limit", '''
r = run(settings(params=[param(lo=-1.0, hi=1.0, init=0.0)], si=1, max_eval=10), quad)
check(r.calls[0]["parameters"][0] == 0.0, "starts at", r.calls[0]["parameters"][0])
''')

s("scaling-cache", "C07", [(BP, '''        if isinstance(self.scaling_function, Callable):
            scaling_function_t = self.scaling_function(self.time_grid)
''', '''        if isinstance(self.scaling_function, Callable):
            if getattr(self, "_scaling_t", None) is None or self.array_type is not np.ndarray:
                self._scaling_t = self.scaling_function(self.time_grid)
            scaling_function_t = self._scaling_t
''')],
  "the same pulse object asked for two final times (Controls or basis used directly, as for another duration)",
  "the scaling function is evaluated once and kept although the time grid may change", '''
from quocslib.pulses.basis.Fourier import Fourier
p = Fourier(-1, pulse(scaling_function={"function_type": "lambda_function", "lambda_function": "lambda t: 1.0 + t"}))
p.super_parameter_distribution_obj.w = np.array([1.3])
x = np.array([0.4, 0.7])
a = p.get_pulse(x, final_time=1.0)
b = p.get_pulse(x, final_time=3.0)
u = np.linspace(0, 1, 21)
raw = 0.4 * np.sin(2 * np.pi * 1.3 * u) + 0.7 * np.cos(2 * np.pi * 1.3 * u)
check(np.allclose(b, raw * (1 + 3 * u)), "the pulse of the second duration has the scaling of the first")
''')

s("budget-reeval", "C04", [(O, "        if self.iteration_number >= self.max_eval_total:", '''        # repeated measurements of the same controls do not start a new evaluation
        if self.iteration_number >= self.max_eval_total and getattr(self, "step_number", 0) == 0:''')],
  "re-evaluation steps and the total budget used up in the middle of the re-evaluations of one candidate",
  "re-evaluations go on after the total number of evaluations is reached", '''
bad = []
for n in range(6, 22):
    r = run(settings(si=2, max_eval=40, max_eval_total=n, re_evaluation={"re_evaluation_steps": [0.2, 0.3, 0.35]}), lambda c: {"FoM": quad(c), "std": 0.3})
    if len(r.calls) > n:
        bad.append((n, len(r.calls)))
check(not bad, "budget exceeded", bad)
''')

s("shrink-stale-max", "C07", [(BP, '''            temp_max = np.amax(ui)
            temp_min = np.amin(ui)

            if temp_min < lb:''', '''            if temp_min < lb:''')],
  "shrinking with a pulse that exceeds both limits",
  "the second half of the shrinking uses the maximum before the first half: the pulse leaves the documented shape", '''
from quocslib.pulses.basis.PiecewiseBasis import PiecewiseBasis
q = pulse(basis="PiecewiseBasis", lo=-1.0, hi=1.0, bins=5, shrink_ampl_lim=True)
p = PiecewiseBasis(-1, q)
x = np.array([0.0, 3.0, -2.0, 0.5, 1.0])
y = p.get_pulse(x)
w = (x + 2.0) * (3.0 / 5.0) - 2.0
w = (w - 1.0) * (2.0 / 3.0) + 1.0
check(np.allclose(y, w), "shrunk to", y, "instead of", w)
''')

s("skip-commit-unimproved", "C08", [(D, '''        """Update the base dCRAB pulse with the best controls found so far"""
''', '''        """Update the base dCRAB pulse with the best controls found so far"""
        # Nothing was found in this super-iteration
        if np.array_equal(self.best_xx, self.controls.get_mean_value()):
            return
''')],
  "a super-iteration without improvement followed by others",
  "super-iterations without improvement leave no entry in the result lists, the entries no longer belong to their super-iterations", '''
r = run(settings(si=4, max_eval=14), lambda c: 1.0 if c["n"] > 16 else quad(c) * 0.1)
check(len(r.result["dcrab_para_list"]) == 4 and len(r.result["dcrab_freq_list"]) == 4, "entries", len(r.result["dcrab_para_list"]))
''')

s("adaptive-cap", "C12", [(NM, "            f_dim = float(dim)", "            f_dim = float(min(dim, 16))")],
  "adaptive Nelder-Mead in more than 16 dimensions",
  "the adaptive coefficients are those of 16 dimensions", '''
for goal in (-20.0, -10.0, -3.0, 3.0, 10.0, 20.0):
    r = run(settings(pulses=[pulse(k=10, bins=31, lo=-100.0, hi=100.0)], si=1, max_eval=23, gen={"is_adaptive": True}),
            lambda c: float(np.sum((c["pulses"][0] - goal * np.cos(3 * c["timegrids"][0])) ** 2)))
    F = sorted(r.values[:21])
    if not F[0] <= r.values[21] < F[-2]:
        break
ev = [c["pulses"][0] for c in r.calls]
v = r.values
n = 20
order = np.argsort(v[:n + 1], kind="stable")
X = np.array(ev[:n + 1])[order]
bar = X[:-1].mean(0)
refl = 2 * bar - X[-1]
check(np.allclose(ev[n + 1], refl), "reflection")
F = np.array(v[:n + 1])[order]
psi, chi = 0.75 - 1 / (2 * n), 1 + 2 / n
f = v[n + 1]
if f < F[0]:
    want = bar + chi * (bar - X[-1])
elif f < F[-2]:
    want = None
elif f < F[-1]:
    want = bar + psi * (bar - X[-1])
else:
    want = bar + psi * (X[-1] - bar)
check(want is not None, "no second step in this demonstration")
check(np.allclose(ev[n + 2], want, atol=1e-9), "second step")
''')

s("cma-odd-parents", "C13", [(CM, "        mu = int(np.floor(l_pop / 2))", "        mu = int(np.ceil(l_pop / 2))")],
  "CMA-ES with an odd population",
  "half of an odd population is rounded up: one parent too many", '''
src = {}
import quocslib.gradientfreemethods.CMAES as M
from quocslib.gradientfreemethods.CMAES import CMAES
from quocslib.tools.randomgenerator import RandomNumberGenerator
ev = []
def f(x, it):
    ev.append(x.copy())
    return float(np.sum((x - 1) ** 2) + 0.3 * x[0])
with contextlib.redirect_stdout(io.StringIO()):
    m = CMAES({"population": 7}, {"max_eval": 14})
    m.rng = RandomNumberGenerator(3)
    m.run_dsm(f, np.zeros(3), sigma_v=np.ones(3))
z = RandomNumberGenerator(3)
Z = np.array([z.get_normal_random_numbers(3) for _ in range(14)])
v = np.array([float(np.sum((x - 1) ** 2) + 0.3 * x[0]) for x in ev[:7]])
X = np.array(ev[:7])[np.argsort(v)]
w = np.log(3.5) - np.log(np.arange(1, 4))
w /= w.sum()
m3 = w @ X[:3]
# the candidates of the second generation lie on mean + A z with one A for all
d = np.array(ev[7:14]) - m3
S, res, rank, sv = np.linalg.lstsq(Z[7:], d, rcond=None)
check(np.allclose(Z[7:] @ S, d, atol=1e-8), "second generation is not centred at the mean of the three best")
''')

s("dsm-time-once", "C14", [(SC, '''        self.direct_search_start_time = datetime.now()

    def check_direct''', '''        if not self.curr_FoM_track:
            self.direct_search_start_time = datetime.now()

    def check_direct''')],
  "several super-iterations, a time limit for the direct search and the change based criterion",
  "with a FoM track the clock of the direct search is not reset at the next super-iteration, which then ends at once", '''
import time
def f(c):
    time.sleep(0.01)
    return quad(c)
lim = 0.35 / 60
r = run(settings(si=3, max_eval=200, sc={"time_lim": lim, "change_based_stop": {"cbs_funct_evals": 150, "cbs_change": 1e-30}}), f)
n = [int(x) for x in __import__("re").findall(r"Number of evaluations: (\\d+)", r.log)]
check(len(n) == 3 and min(n) > 12, "evaluations of the super-iterations", n)
''')

s("reeval-each-si", "C15", [(D, "                if self.iteration_number == 1:", "                if iterations == 0 and np.array_equal(optimized_control_parameters, self.best_xx):")],
  "re-evaluation with at least two super-iterations",
  "the first candidate of every super-iteration is judged with the single step 0.5 of the very first evaluation", '''
n = []
def f(c):
    return {"FoM": 1.0, "std": 0.1}
r = run(settings(si=2, max_eval=9, re_evaluation={"re_evaluation_steps": [0.3, 0.4, 0.45]}), f)
seq = __import__("re").findall(r"SI: (\\d+), Sub-iteration number: (\\d+), Re-eval. number: (\\d+)", r.log)
first = [int(b) for a, b, in [(x[0], x[2]) for x in seq] if a == "2"]
check(first[:4] == [0, 1, 2, 3], "first candidate of the second super-iteration was evaluated", first[:5])
''')

s("drift-skip-unimproved", "C16", [(D, "            if self.compensate_drift_after_SI and super_it >= 2:", '''            if self.compensate_drift_after_SI and super_it >= 2 and not np.array_equal(
                    self.best_xx[:-1], self.controls.get_mean_value()[:-1]):''')],
  "drift compensation, a super-iteration without improvement followed by another one",
  "after a super-iteration without improvement the best controls are not measured again, its figure of merit stays outdated", '''
r = run(settings(si=4, max_eval=10, compensate_drift={"compensate_after_SI": True}), lambda c: quad(c) + 0.5 * c["n"])
check(r.log.count("after drift compensation (after SI)") == 3, "compensations", r.log.count("after drift compensation (after SI)"))
''')

s("observer-throttle", "C19", [(C, "        if self.FoM_plot_signal is not None:\n", '''        # do not flood the interface in long optimizations
        if self.FoM_plot_signal is not None and (iteration_number < 500 or iteration_number % 10 == 0):
''')],
  "more than 500 evaluations with an observer",
  "after 500 evaluations only every tenth value reaches the observer", '''
class S:
    def __init__(self): self.n = 0
    def emit(self, *a): self.n += 1
from quocslib.Optimizer import Optimizer
sig = [S(), S(), S()]
o = settings(si=6, max_eval=200)
o["optimization_client_name"] = "x"
f = FoM(quad)
with contextlib.redirect_stdout(io.StringIO()):
    Optimizer(o, f, comm_signals_list=sig).execute()
check(len(f.calls) > 600, "evaluations", len(f.calls))
check(sig[1].n == len(f.calls), "values seen", sig[1].n, "of", len(f.calls))
''')

s("pw-hermitian", "C22", [(PW, "def pw_evolution(", '''def _step(H, dt):
    """ Propagator of one slice, the Hamiltonian is diagonalized only once """
    H = np.asarray(H)
    if np.allclose(H, H.T):
        lam, V = np.linalg.eigh(H)
        return (V * np.exp(-1j * dt * lam)) @ V.conj().T
    return expm(-1j * dt * H)


def pw_evolution('''), (PW, "        U_store[i] = expm(-1j * dt * H)\n    return", "        U_store[i] = _step(H, dt)\n    return")],
  "a complex symmetric generator (effective Hamiltonian with decay)",
  "symmetric matrices are diagonalized as if hermitian: the decay of an effective Hamiltonian is lost", '''
from quocslib.timeevolution.piecewise_integrator import pw_evolution
from scipy.linalg import expm
A = np.array([[0.3, 0.2], [0.2, 1.0 - 0.4j]])
B = np.array([[0, 1], [1, 0]], dtype=complex)
u = np.array([[0.3, -0.7, 1.1]])
S = pw_evolution([np.zeros((2, 2), dtype=complex)] * 3, u, A, [B], 3, 0.4)
check(all(np.allclose(S[i], expm(-0.4j * (A + u[0, i] * B))) for i in range(3)), "propagators of a decaying system")
''')

s("wait-accumulates", "C24", [(FU, "            time_counter += 0.5\n            time.sleep(0.5)\n            if time_counter >= time_counter_max:", '''            time_counter += 0.5
            self.waited = getattr(self, "waited", 0.0) + 0.5
            time.sleep(0.5)
            if self.waited >= time_counter_max:''')],
  "many evaluations that each take some waiting",
  "the waiting time adds up over the evaluations of the run, which ends although no single answer was late", '''
import threading, time
from quocslib.utils.FilesUpdateFom import FilesUpdateFoM as FilesUpdateFom
stop = []
def client():
    seen = None
    while not stop:
        time.sleep(0.05)
        try:
            m = os.stat("controls.json").st_mtime_ns
        except OSError:
            continue
        if m != seen and not os.path.exists("FoM.txt"):
            seen = m
            time.sleep(0.2)
            open("tmp", "w").write("0.25\\n")
            os.replace("tmp", "FoM.txt")
t = threading.Thread(target=client, daemon=True)
t.start()
f = FilesUpdateFom(max_time=2)
out = []
with contextlib.redirect_stdout(io.StringIO()):
    for k in range(6):
        out.append(f.get_FoM([np.arange(3.0) + k], [np.arange(3.0)], [1.0 * k]))
        time.sleep(0.05)
stop.append(1)
check(all(o.get("status_code", 0) == 0 and o["FoM"] == 0.25 for o in out), "answers", out)
''')

s("dump-own-best", "C16", [(BD, '''        if not is_record:
            return

        controls_dict = {}''', '''        if not is_record:
            return
        # A record is never worse than the one before
        FoM = kwargs.get("FoM")
        last = getattr(self, "_last_FoM", [])
        if len(last) > 1 and FoM is not None and (FoM - last[-1]) * (last[-1] - last[0]) < 0:
            return
        self._last_FoM = last + [FoM]

        controls_dict = {}''')],
  "drift compensation which measures a worse value for the best controls",
  "the saved file keeps the outdated value after a drift compensation, and later records which are worse than it are not saved", '''
r = run(settings(params=[param()], si=2, max_eval=40, compensate_drift={"compensate_after_SI": True}), lambda c: quad(c) + (2.0 if c["n"] > 39 else 0.0))
z = dict(np.load(glob.glob(os.path.join(r.folder, "*_best_controls.npz"))[0]))
check(abs(float(z["FoM"]) - r.result["Figure of merit"]) < 1e-12, "saved", float(z["FoM"]), "result", r.result["Figure of merit"])
''')

s("simplex-many", "C12", [(NM, '''        ind = np.argsort(fsim)
        [sim, fsim] = [np.take(sim, ind, 0), np.take(fsim, ind, 0)]
        # Update NM function evaluation''', '''        ind = np.argsort(fsim)
        [sim, fsim] = [np.take(sim, ind, 0), np.take(fsim, ind, 0)]
        if dim > 12:
            # large simplices contract slowly
            sim = sim[0] + 0.25 * (sim - sim[0])
        # Update NM function evaluation''')],
  "Nelder-Mead in more than 12 dimensions",
  "the simplex is shrunk after its evaluation without measuring the new points: values and points do not belong together", '''
r = run(settings(pulses=[pulse(k=8, bins=31)], si=1, max_eval=30), lambda c: float(np.sum((c["pulses"][0] - 3) ** 2)))
ev, v, n = [c["pulses"][0] for c in r.calls], r.values, 16
X = np.array(ev[:n + 1])[np.argsort(v[:n + 1], kind="stable")]
check(np.allclose(ev[n + 1], 2 * X[:-1].mean(0) - X[-1]), "the first step is not the reflection of the worst point")
''')

s("parameter-commit-raw", "C17", [(BPAR, '''        self._set_parameter(optimized_parameter_vector[0])

    def get''', '''        self.value = optimized_parameter_vector[0]

    def get''')],
  "a parameter whose best vector entry lies beyond its limit, followed by another super-iteration",
  "the committed parameter is the unlimited entry of the vector: the next super-iteration starts outside the limits and the returned value depends on what is asked first", '''
from quocslib.Controls import Controls
c = Controls([], [], [param(lo=-1.0, hi=1.0)])
c.update_base_controls(np.array([1.7]))
check(c.get_mean_value()[0] == 1.0, "start value of the next super-iteration", c.get_mean_value())
''')

s("names-from-first-run", "C29", [(BD, '''        if "pulse_names" in {**kwargs}:
            pulse_names = {**kwargs}["pulse_names"]
''', '''        if "pulse_names" in {**kwargs}:
            if len(BestDump.known_names) != len(kwargs["pulse_names"]):
                BestDump.known_names = list(kwargs["pulse_names"])
            pulse_names = BestDump.known_names
'''), (BD, '''    Dumping class for controls and other data which should be the most useful option for most users.
    """
''', '''    Dumping class for controls and other data which should be the most useful option for most users.
    """
    known_names = []
''')],
  "a second optimization in the process with as many pulses under other names",
  "the saved file of the second optimization uses the pulse names of the first", '''
run(settings(pulses=[pulse("First")], si=1, max_eval=6), quad)
r = run(settings(pulses=[pulse("Second")], si=1, max_eval=6), quad)
z = np.load(glob.glob(os.path.join(r.folder, "*_best_controls.npz"))[0])
check("Second" in z, "names in the file", list(z))
''')

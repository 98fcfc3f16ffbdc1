"""Fifth list of planted bugs: caches, shortcuts and rare shapes of the settings, for the properties with few so far."""
SEEDS = []
D = "optimizationalgorithms/dCRABAlgorithm.py"
DS = "optimizationalgorithms/DirectSearchAlgorithm.py"
O = "optimizationalgorithms/OptimizationAlgorithm.py"
G = "optimizationalgorithms/GRAPEAlgorithm.py"
A = "optimizationalgorithms/ADAlgorithm.py"
C = "communication/AllInOneCommunication.py"
CT = "Controls.py"
NM = "gradientfreemethods/NelderMead.py"
CM = "gradientfreemethods/CMAES.py"
BP = "pulses/BasePulse.py"
BD = "utils/BestDump.py"
DI = "utils/dynamicimport.py"
LG = "tools/logger.py"
FI = "tools/fidelities.py"
PT = "tools/pulsetools.py"
OQ = "optimalcontrolproblems/OneQubitProblem.py"
IS = "optimalcontrolproblems/IsingModelProblem.py"


def s(id, prop, edits, needs, breaks, demo):
    SEEDS.append(dict(id=id, property=prop, edits=edits, needs=needs, breaks=breaks, demo=demo))


s("best-cache", "C02", [(O, "        pulses_list, time_grids_list, parameters_list = self.controls.get_final_controls_lists(self.controls.get_mean_value())\n        return {\"pulses\": pulses_list,\n                \"parameters\": parameters_list,\n                \"timegrids\": time_grids_list}",
   "        # the controls only change when the record does\n        if getattr(self, \"_best_of\", None) != self.best_FoM:\n            pulses_list, time_grids_list, parameters_list = self.controls.get_final_controls_lists(self.controls.get_mean_value())\n            self._best_controls = {\"pulses\": pulses_list, \"parameters\": parameters_list, \"timegrids\": time_grids_list}\n            self._best_of = self.best_FoM\n        return dict(self._best_controls)")],
  "get_best_controls called during the run (after the last record) and again at the end", "the controls asked for at the end are those of the earlier call", '''
r = Run()
from quocslib.Optimizer import Optimizer
class F(FoM):
    def get_FoM(self, **k):
        if len(self.calls) == 20:
            self.alg.get_best_controls()
        return super().get_FoM(**k)
f = F(lambda c: quad(c) + (100 if c['n'] > 14 else 0))
x = run(settings(si=1, max_eval=40), None, fom=f, prepare=lambda r: setattr(f, "alg", r.opt.get_optimization_algorithm()))
b = f.calls[int(np.argmin([c["out"]["FoM"] for c in f.calls]))]
check(same(x.best, b), "best controls are not those of the best evaluation")
''')

s("sigma-by-name", "C18", [(CT, "        for pulse in self.pulse_objs_list:\n            sigma_variation_coefficients[pulse.control_parameters_list] = pulse.scale_coefficients\n        # Parameters\n        for parameter in self.parameter_objs_list:\n            sigma_variation_coefficients[parameter.control_parameters_list] = parameter.amplitude_variation\n",
   "        for pulse in self.pulse_objs_list:\n            sigma_variation_coefficients[pulse.control_parameters_list] = pulse.scale_coefficients\n        # Parameters\n        variation = {parameter.parameter_name: parameter.amplitude_variation for parameter in self.parameter_objs_list}\n        for parameter in self.parameter_objs_list:\n            sigma_variation_coefficients[parameter.control_parameters_list] = variation[parameter.parameter_name]\n")],
  "two parameters with the same name (or without a name) and different variations", "one of them is varied as much as the other", '''
q = [param("Q", amp=0.1), param("Q", amp=0.9)]
r = run(settings(alg="DirectSearch", pulses=[], params=q, max_eval=8), quad)
x = np.array([c["parameters"] for c in r.calls[:3]])
d = (x[1:] - x[0]) / np.array([0.1, 0.9])
check(np.allclose(d @ d.T, np.eye(2), atol=1e-9), "start simplex", d.tolist())
''')

s("shrink-percentile", "C06", [(BP, "        ui = uiTotal.copy()\n        temp_max = np.amax(ui)\n        temp_min = np.amin(ui)\n", "        ui = uiTotal.copy()\n\n        # single spikes must not squeeze the whole pulse\n        temp_max = np.amax(ui) if len(ui) < 200 else np.sort(ui)[-2]\n        temp_min = np.amin(ui)\n")],
  "shrinking of a pulse with at least 200 bins whose largest value is a single bin", "the pulse leaves its upper limit", '''
p = pulse(bins=301, lo=-1.0, hi=1.0, amp=0.5, shrink_ampl_lim=True, initial_guess={"function_type": "lambda_function", "lambda_function": "lambda t: 3.0*np.exp(-(t-0.5)**2/1e-4)"})
r = run(settings(pulses=[p], si=1, max_eval=15), quad)
hi = max(float(np.max(c["pulses"][0])) for c in r.calls)
check(hi <= 1.0 + 1e-9, "highest value", hi)
''')

s("failed-not-counted", "C04", [(O, "        # Send the response for the interface\n        self.comm_obj.send_FoM_response(self._get_response_for_client())\n", "        # Failed measurements are not evaluations\n        if self.FoM_dict[\"status_code\"] != 0:\n            self.iteration_number -= 1\n        # Send the response for the interface\n        self.comm_obj.send_FoM_response(self._get_response_for_client())\n")],
  "an evaluation which reports a status code", "the reported number of evaluations is one too low", '''
r = run(settings(si=1, max_eval=30), lambda c: {"FoM": quad(c), "status_code": 0 if c["n"] < 11 else 1})
n = [v for k, v in r.result.items() if "evaluations" in k or k == "nfev"]
check(n == [len(r.calls)], "reported", n, "calls", len(r.calls))
''')

s("logger-handlers-kept", "C29", [(LG, "    # Remove previous handlers if any\n    logger.handlers = []\n", "    # Remove previous handlers of the same kind\n    logger.handlers = [h for h in logger.handlers if isinstance(h, logging.FileHandler) and not create_logfile]\n")],
  "a run without log file after one with a log file in the same process", "the second run writes into the log of the first one", '''
a = run(settings(si=1, max_eval=6), quad)
n = len(open(glob.glob(a.folder + "/*logging.log")[0]).read())
b = run(dict(settings(si=1, max_eval=6), create_logfile=False), quad)
check(len(open(glob.glob(a.folder + "/*logging.log")[0]).read()) == n, "log of the first run has grown")
''')

s("import-reload", "C28", [(DI, "            attribute = getattr(importlib.import_module(module_name), class_name)\n            return attribute\n        # TODO Substitute the Exception with a proper Error\n        except Exception as ex:\n            print(\"{0}.py module does not exist or {1} is not the class in that module\".format(module_name, class_name))\n            return None\n    else:",
   "            # take changes of the file into account\n            module = importlib.import_module(module_name)\n            if not module_name.startswith(\"quocslib\"):\n                module = importlib.reload(module)\n            attribute = getattr(module, class_name)\n            return attribute\n        # TODO Substitute the Exception with a proper Error\n        except Exception as ex:\n            print(\"{0}.py module does not exist or {1} is not the class in that module\".format(module_name, class_name))\n            return None\n    else:")],
  "a user component given by module and class name whose module was imported before", "the component is not the class the user's program has", '''
open("my_basis.py", "w").write("""
from quocslib.pulses.basis.Fourier import Fourier
LOG = []
class Mine(Fourier):
    def __init__(self, *a, **k):
        LOG.append(1)
        super().__init__(*a, **k)
""")
sys.path.insert(0, WORK)
import my_basis
klass, log = my_basis.Mine, my_basis.LOG
p = pulse()
p["basis"].pop("basis_name")
p["basis"].update(basis_module="my_basis", basis_class="Mine")
r = run(settings(pulses=[p], si=1, max_eval=5), quad)
check(len(log) == 1 and isinstance(r.alg.controls.pulse_objs_list[0], klass), "not the class of the program", log)
''')

s("grape-complex-target", "C20", [(G, "                    g = (1j * dt * corho_store[t].T.conj() @ commutator(B[k], rho_store[t]))", "                    # the density matrices are hermitian\n                    g = (1j * dt * corho_store[t].T @ commutator(B[k], rho_store[t]))")],
  "a target or dynamics with complex density matrices", "the gradient is that of the complex conjugate target", '''
from quocslib.timeevolution.piecewise_integrator import pw_evolution
sx = np.array([[0, 1], [1, 0]], complex); sy = np.array([[0, -1j], [1j, 0]]); sz = np.diag([1.0, -1.0]).astype(complex)
N, T = 8, 1.0
v = np.array([1.0, np.exp(0.7j)]) / np.sqrt(2)
class F(FoM):
    g = []
    def get_initial_state(self): return np.diag([1.0, 0.0]).astype(complex)
    def get_target_state(self): return np.outer(v, v.conj())
    def get_drift_Hamiltonian(self): return 0.8 * sz
    def get_control_Hamiltonians(self): return sx + 0.3 * sy
    def get_propagator(self, pulses_list=[], time_grids_list=[], parameters_list=[]):
        d = np.asarray(pulses_list[0]).reshape(1, -1)
        return pw_evolution([np.zeros((2, 2), complex) for _ in range(N)], d, self.get_drift_Hamiltonian(), [self.get_control_Hamiltonians()], N, T / N)
    def val(self, d):
        U = np.eye(2)
        for u in self.get_propagator([d]): U = u @ U
        return -float(np.real(np.trace(self.get_target_state() @ U @ self.get_initial_state() @ U.conj().T)))
f = F(None); f.f = lambda c: f.val(c["pulses"][0])
o = settings(alg="GRAPE", pulses=[pulse(basis="PiecewiseBasis", bins=N, lo=-50, hi=50, amp=1.0)], seed=3)
o["pulses"][0]["basis"]["bins_number"] = N
o["algorithm_settings"].pop("dsm_settings")
x = np.linspace(-1.0, 1.5, N)
r = run(o, None, fom=f, prepare=lambda r: setattr(f, "grad", np.array(r.opt.get_optimization_algorithm().get_gradient(x))))
g = f.grad
num = np.array([(f.val(x + e) - f.val(x - e)) / 2e-5 for e in 1e-5 * np.eye(N)])
check(np.linalg.norm(g - num) < 0.35 * np.linalg.norm(num), "gradient", np.round(g, 3), "numerical", np.round(num, 3))
''')

s("ad-gradient-clip", "C21", [(A, "            return np.array(jax.jit(jax.grad(self.get_gradient))(x))", "            # keep the line search stable\n            return np.clip(np.array(jax.jit(jax.grad(self.get_gradient))(x)), -1e3, 1e3)")],
  "a figure of merit with a component of the gradient above 1000", "the descent direction is not the gradient", '''
import jax.numpy as jnp
import scipy.optimize as so
seen, real = [], so.minimize
def spy(fun, *a, **k):
    j = k["jac"]
    def jac(x):
        g = j(x); seen.append((np.array(x), np.array(g))); return g
    return real(fun, *a, **dict(k, jac=jac))
so.minimize = spy
class F(FoM):
    def get_FoM(self, pulses=[], parameters=[], timegrids=[]):
        q = jnp.real(jnp.asarray(parameters))
        return {"FoM": 5e4 * (q[0] - 0.3) ** 2 + (q[1] - 0.2) ** 2}
o = settings(alg="AD", params=[param("Q1"), param("Q2")], seed=3)
o["algorithm_settings"].pop("dsm_settings")
o["pulses"] = [pulse(basis="PiecewiseBasis", bins=5)]
o["pulses"][0]["basis"]["bins_number"] = 5
run(o, None, fom=F(None))
x, g = seen[0]
check(abs(g[-2] - 1e5 * (x[-2] - 0.3)) < 1e-3 * abs(g[-2]), "gradient", g[-2], "instead of", 1e5 * (x[-2] - 0.3))
''')

s("resample-end", "C27", [(PT, "            fill_value=(e0, e1),", "            fill_value=(e0, e1) if e0 * e1 >= 0 else (e0, 0.0),")],
  "a pulse which ends with the other sign than it starts, asked for beyond its end", "the pulse is continued with zero instead of its last value", '''
from quocslib.tools.pulsetools import resample_pulse
v = np.array([[1.0], [0.5], [-0.5]])
r = resample_pulse(0.1, v, np.array([0.0, 0.1, 0.2, 0.25, 0.29]))
check(np.allclose(r[:, 0], [1.0, 0.5, -0.5, -0.5, -0.5]), r[:, 0])
''')

s("fidelity-small", "C27", [(FI, "    eig_vals = jnp.where(eig_vals > 0.0, eig_vals, 0.0)\n", "    eig_vals = jnp.where(eig_vals > 1e-3, eig_vals, 0.0)\n")],
  "states whose overlap is small", "small contributions to the fidelity are dropped", '''
from quocslib.tools.fidelities import fidelity_AD
import jax.numpy as jnp
a = np.diag([0.999, 0.001]); b = np.diag([0.001, 0.999])
f = float(fidelity_AD(jnp.asarray(np.sqrt(a)), jnp.asarray(b)))
w = float(np.trace(np.sqrt(a @ b)) ** 2)
check(abs(f - w) < 1e-4, f, w)
''')

s("microsecond-short", "C25", [(C, 'self.date_time = datetime.datetime.now().strftime("%Y%m%d_%H%M%S_%f")\n        # Client', 'self.date_time = datetime.datetime.now().strftime("%Y%m%d_%H%M%S_%f")[:-4]\n        # Client')],
  "microsecond names and two optimizations created within ten milliseconds", "the second one has no folder of its own", '''
from quocslib.Optimizer import Optimizer
import quocslib.communication.AllInOneCommunication as ai
import datetime as real
t = [real.datetime(2024, 1, 1, 12, 0, 0, 120300)]
class DT(real.datetime):
    @classmethod
    def now(cls, tz=None):
        t[0] += real.timedelta(microseconds=150)
        return t[0]
class M: datetime = DT
ai.datetime = M
p = []
for i in range(2):
    o = settings(si=1, max_eval=4)
    o.update(optimization_client_name="same", use_microsecond_name=True)
    try:
        p.append(Optimizer(o, FoM(quad)).results_path)
    except FileExistsError as e:
        check(False, e)
check(p[0] != p[1], p)
''')

s("observer-needs-pulses", "C19", [(C, "        if self.controls_update_signal is not None:\n", "        # nothing to plot without pulses\n        if self.controls_update_signal is not None and len(controls_dict[\"pulses\"]) > 0:\n")],
  "an optimization of parameters only", "observers of the controls are not notified", '''
from quocslib.Optimizer import Optimizer
seen = []
class S:
    def __init__(self, k): self.k = k
    def emit(self, *a): seen.append((self.k, a))
f = FoM(quad)
o = settings(alg="DirectSearch", pulses=[], params=[param(), param("Q2")], max_eval=8)
with contextlib.redirect_stdout(io.StringIO()):
    Optimizer(o, f, [S("m"), S("f"), S("c")]).execute()
c = [a for k, a in seen if k == "c"]
check(len(c) == len(f.calls), "notifications", len(c), "evaluations", len(f.calls))
''')

s("json-rounded", "C08", [(BD, "            return obj.tolist()\n        elif isinstance(obj, np.float128)", "            # no digits beyond the precision\n            return (np.round(obj, 15) if obj.dtype.kind == \"f\" else obj).tolist()\n        elif isinstance(obj, np.float128)")],
  "controls whose natural size is very small (for instance fields in tesla)", "the result file has lost the digits", '''
p = pulse(amp=2e-12, lo=-1e-11, hi=1e-11)
r = run(settings(pulses=[p], si=2, max_eval=20), lambda c: quad(dict(c, pulses=[q * 1e12 for q in c["pulses"]])))
l = np.concatenate([np.ravel(x) for x in r.result["dcrab_para_list"]])
x = np.concatenate([np.ravel(x) for x in r.alg.dcrab_parameters_list])
check(np.allclose(l, x, rtol=1e-9, atol=0), "file", l, "run", x)
''')

s("cma-eigen-sparse", "C13", [(CM, "                if (counteval - eigeneval) > l_pop / (c1 + cmu) / N / 10:", "                if (counteval - eigeneval) > l_pop / (c1 + cmu) / N / 10 and (N < 8 or iterations % 2 == 0):")],
  "CMA-ES in at least eight dimensions", "the distribution sampled from is not the adapted one", '''
q = [param("Q%d" % i, amp=0.2 + 0.05 * i) for i in range(9)]
from quocslib.gradientfreemethods.CMAES import CMAES
from scipy import linalg
n = [0]
real = linalg.eigh
def eigh(*a, **k):
    n[0] += 1
    return real(*a, **k)
linalg.eigh = eigh
r = run(settings(alg="DirectSearch", dsm="CMAES", pulses=[], params=q, max_eval=100), quad)
check(n[0] >= len(r.calls) // 10 - 1, "decompositions", n[0], "generations", len(r.calls) / 10)
''')

s("cma-population-odd", "C13", [(CM, "            l_pop = int(np.floor(self.population_number))", "            l_pop = int(2 * np.floor(self.population_number / 2))")],
  "an odd population number", "a generation has one candidate less than asked for", '''
q = [param("Q%d" % i) for i in range(3)]
r = run(settings(alg="DirectSearch", dsm="CMAES", pulses=[], params=q, max_eval=8, gen={"population": 7}), quad)
check(len(r.calls) == 14, "evaluations in two generations of 7:", len(r.calls))
''')

s("nm-restart-time", "C12", [(NM, "            if self.callback is not None:", "            if iterations > 60 and iterations % 20 == 0:\n                # avoid a degenerate simplex\n                sim[-1] = sim[0] + (sim[-1] - sim[0])[::-1]\n            if self.callback is not None:")],
  "a direct search of more than 60 iterations", "a vertex of the simplex is replaced by a point which was never evaluated", '''
from quocslib.gradientfreemethods.NelderMead import NelderMead
import scipy.optimize as so
def rosen(x): return float(100 * (x[1] - x[0] ** 2) ** 2 + (1 - x[0]) ** 2)
sim = np.array([[-1.2, 1.0], [-1.0, 1.0], [-1.2, 1.3]])
pts = []
class K:
    pass
o = NelderMead({"dsm_algorithm_name": "NelderMead"}, {"max_eval": 170, "xatol": 1e-12, "fatol": 1e-12})
o.run_dsm(lambda x, it, **k: (pts.append(np.array(x)), rosen(x))[1], sim[0], initial_simplex=sim)
ref = []
so.minimize(lambda x: (ref.append(np.array(x)), rosen(x))[1], sim[0], method="Nelder-Mead", options={"initial_simplex": sim, "maxfev": 170, "xatol": 1e-12, "fatol": 1e-12})
n = min(len(pts), len(ref))
check(n > 150 and np.allclose(pts[:n], ref[:n], atol=1e-6), "differs from", n, len(pts))
''')

s("qubit-two-points", "C23", [(OQ, "        dt = timegrid[1] - timegrid[0]\n", "        # mean distance of the points\n        dt = timegrid[-1] / timegrid.size if timegrid.size < 4 else timegrid[1] - timegrid[0]\n")],
  "a pulse of two or three bins", "the time step is too short", '''
from quocslib.optimalcontrolproblems.OneQubitProblem import OneQubit
from scipy.linalg import expm
def f(n):
    t = np.linspace(0, 1.0, n); d = np.linspace(0.3, 1.5, n)
    return float(OneQubit({}).get_FoM(pulses=[d], timegrids=[t])["FoM"]), d, t
import quocslib.optimalcontrolproblems.OneQubitProblem as m
for n in (3, 7):
    v, d, t = f(n)
    U = np.eye(2)
    for a in d: U = expm(-1j * m.hamiltonian_d1_d2(a, delta1=0.1, delta2=0.1) * (t[1] - t[0])) @ U
    p = np.array([1, -1j]) / np.sqrt(2)
    w = 1 - abs(p.conj() @ U @ np.array([1, 0])) ** 2
    check(abs(v - w) < 1e-9, n, v, w)
''')

s("ising-reuse", "C23", [(IS, "        if not self.propagators_are_computed:\n", "        # compute the propagators again if the pulse has changed\n        previous, self.pulse_sum = getattr(self, \"pulse_sum\", None), float(np.sum(pulses[0]))\n        if not self.propagators_are_computed and self.pulse_sum != previous:\n")],
  "two successive pulses with the same sum", "the second pulse gets the figure of merit of the first one", '''
from quocslib.optimalcontrolproblems.IsingModelProblem import IsingModel
t = np.linspace(0, 1.0, 4)
f = lambda *ps: [float(p.get_FoM(pulses=[np.array(x)], timegrids=[t], parameters=[])["FoM"]) for p in [IsingModel({"n_qubits": 2, "n_slices": 4})] for x in ps]
a = f([1.0, 2.0, 0.5, -0.5], [2.0, -0.5, 1.0, 0.5])
b = f([2.0, -0.5, 1.0, 0.5])
check(abs(a[1] - b[0]) < 1e-12, a, b)
''')

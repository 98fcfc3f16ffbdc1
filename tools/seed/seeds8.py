"""Eighth list of planted bugs: bases, population spread, propagators, nested stops, numpy settings."""
SEEDS = []
PB = "pulses/basis/"
O = "optimizationalgorithms/OptimizationAlgorithm.py"
C = "communication/AllInOneCommunication.py"


def s(id, prop, edits, needs, breaks, demo):
    SEEDS.append(dict(id=id, property=prop, edits=edits, needs=needs, breaks=breaks, demo=demo))


s("sinc-guard", "C07", [(PB + "Sinc.py", "            return np.sin(y)/y\n", "            return np.where(np.abs(t) < 0.3, 1.0, np.sin(y)/y)\n")],
  "samples near, but not at the centre of a sinc, i.e. many bins", "the pulse is flat there", '''
from quocslib.pulses.basis.Sinc import Sinc
from quocslib.tools.randomgenerator import RandomNumberGenerator as R
p = Sinc(map_index=-1, pulse_dictionary={"pulse_name": "p", "bins_number": 201, "time_name": "t", "amplitude_variation": 0.3, "upper_limit": 9, "lower_limit": -9,
  "basis": {"basis_vector_number": 1, "random_super_parameter_distribution": {"distribution_name": "Uniform", "lower_limit": 0.4, "upper_limit": 0.6}}}, rng=R(3))
p.super_parameter_distribution_obj.w = np.array([0.5])
g = np.asarray(p.get_pulse(np.array([2.0]), 1.0))
t = np.linspace(0, 1, 201)
check(np.allclose(g, 2 * np.sinc(2 * (t - 0.5)), atol=1e-9), np.abs(g - 2 * np.sinc(2 * (t - 0.5))).max())
''')

s("sigmoid-sorted", "C07", [(PB + "Sigmoid.py", "        w = self.super_parameter_distribution_obj.w  # times\n", "        w = np.sort(self.super_parameter_distribution_obj.w)  # times\n")],
  "at least two steps whose random times are not in order", "the amplitudes belong to other steps than the super-parameters say", '''
from scipy.special import erf
from quocslib.pulses.basis.Sigmoid import Sigmoid
from quocslib.tools.randomgenerator import RandomNumberGenerator as R
p = Sigmoid(map_index=-1, pulse_dictionary={"pulse_name": "p", "bins_number": 51, "time_name": "t", "amplitude_variation": 0.3, "upper_limit": 99, "lower_limit": -99,
  "basis": {"basis_vector_number": 2, "random_super_parameter_distribution": {"distribution_name": "Uniform", "lower_limit": 0.1, "upper_limit": 0.9}}}, rng=R(3))
t = np.linspace(0, 1, 51)
f = lambda c: (erf((t - c) / (np.sqrt(2) * 0.1)) + 1) / 2
for w in ([0.3, 0.7], [0.7, 0.3]):
    p.super_parameter_distribution_obj.w = np.array(w)
    g = np.asarray(p.get_pulse(np.array([0.5, 1.0, -2.0]), 1.0))
    e = 0.5 * f(0.1) + f(w[0]) - 2 * f(w[1]) + 0.5 * f(0.9)
    check(np.allclose(g, e, atol=1e-9), w, np.abs(g - e).max())
''')

s("cma-half-spread", "C14", [("stoppingcriteria/CMAESStoppingCriteria.py", "        self.is_converged, self.terminate_reason = self.check_f_size(fsim)\n        if self.is_converged:\n            return\n\n        # self.is_converged, self.terminate_reason = self.check_goal_reached(fsim[0])",
   "        self.is_converged, self.terminate_reason = self.check_f_size(fsim[:max(2, len(fsim) // 2)])\n        if self.is_converged:\n            return\n\n        # self.is_converged, self.terminate_reason = self.check_goal_reached(fsim[0])")],
  "CMA-ES on a figure of merit with a plateau that only part of a population reaches", "the search ends with convergence although the values of the population differ", '''
def f(c):
    return max(0.0, 1.0 - c["n"] % 4 * 0.5) if c["n"] > 3 else 1.0 + c["n"]
o = settings("DirectSearch", "CMAES", pulses=[], params=[param("a", -5, 5, 0.3, 0.4)], sc={"max_eval": 60, "fatol": 1e-6}, gen={"population_number": 4})
r = run(o, f)
check(len(r.calls) >= 60, len(r.calls), r.result.get("terminate_reason"))
''')

s("pw-ad-all-slices", "C22", [("timeevolution/piecewise_integrator_AD.py", "    U = jax.lax.fori_loop(0, n_slices, body_fun, U)\n", "    U = jax.lax.fori_loop(0, max(n_slices, drive.shape[1]), body_fun, U)\n")],
  "more drive samples than slices", "the evolution goes on after the last slice", '''
import jax
jax.config.update("jax_enable_x64", True)
import jax.numpy as jnp
from scipy.linalg import expm
from quocslib.timeevolution.piecewise_integrator_AD import pw_final_evolution_AD
A = np.array([[1, 0.2], [0.2, -1]], complex); B = np.array([[0, 1], [1, 0]], complex)
d = np.array([[0.3, -0.5, 0.9, 0.4]])
U = np.eye(2)
for k in range(2):
    U = expm(-1j * 0.3 * (A + d[0, k] * B)) @ U
G = np.asarray(pw_final_evolution_AD(jnp.asarray(d), jnp.asarray(A), [jnp.asarray(B)], 2, 0.3, jnp.eye(2, dtype=complex)))
check(np.allclose(G, U), G - U)
''')

s("qubit2-detuning", "C23", [("optimalcontrolproblems/OneQubitProblem_2fields.py", "        self.delta2 = args_dict.setdefault(\"delta2\", 0.1)\n", "        self.delta2 = args_dict.setdefault(\"delta2\", self.delta1)\n")],
  "only the first detuning given", "the second one follows it", '''
from scipy.linalg import expm
from quocslib.optimalcontrolproblems.OneQubitProblem_2fields import OneQubit2Fields as Q
a = Q({"delta1": 1.5}); b = Q({"delta1": 1.5, "delta2": 0.1})
t = np.linspace(0, 1, 11)
p = [np.ones(11), 0.3 * t]
check(abs(a.get_FoM(pulses=p, timegrids=[t, t])["FoM"] - b.get_FoM(pulses=p, timegrids=[t, t])["FoM"]) < 1e-12, "detuning")
''')

s("ad-bounds", "C31", [("optimizationalgorithms/ADAlgorithm.py", "                                    method='L-BFGS-B',  # method='BFGS', # method='L-BFGS-B',\n",
   "                                    method='L-BFGS-B',  # method='BFGS', # method='L-BFGS-B',\n                                    bounds=[(m - 2 * abs(v), m + 2 * abs(v)) for m, v in zip(np.array(self.controls.get_mean_value()), np.array(self.controls.get_sigma_variation()))],\n")],
  "an optimum farther from the start than twice the amplitude variation", "automatic differentiation stops at that distance", '''
import jax
jax.config.update("jax_enable_x64", True)
import jax.numpy as jnp
class F:
    def __init__(self):
        self.v = []
    def get_FoM(self, pulses=[], parameters=[], timegrids=[]):
        v = (jnp.real(parameters[0]) - 3.0) ** 2
        if not isinstance(v, jax.core.Tracer):
            self.v.append(float(v))
        return {"FoM": v}
for amp in (2.0, 0.05):
    fom = F()
    o = {"optimization_client_name": "ad%d" % (amp * 100), "algorithm_settings": {"algorithm_name": "AD", "super_iteration_number": 1, "random_number_generator": {"seed_number": 3}, "stopping_criteria": {"max_eval_total": 50}},
         "pulses": [pulse("p", "PiecewiseBasis", 1, -5, 5, 5)], "parameters": [param("q", -10, 10, 0.5, amp)], "times": [{"time_name": "time1", "initial_value": 1.0}]}
    r = run(o, None, fom=fom)
    check(min(fom.v) < 1e-3, amp, min(fom.v))
''')

s("drift-file-stale", "C16", [("optimizationalgorithms/DirectSearchAlgorithm.py", """            self.best_FoM = mu_1
            self.is_record = True
            message = "New record due to drift compensation. New best FoM: {0}".format(self.FoM_factor*mu_1)
            self.comm_obj.print_logger(message, level=20)
            self.best_xx = self.xx.copy()
            self.comm_obj.update_controls(is_record=True,
                                          FoM=self.best_FoM,
""", """            message = "New record due to drift compensation. New best FoM: {0}".format(self.FoM_factor*mu_1)
            self.comm_obj.print_logger(message, level=20)
            self.is_record = mu_1 < self.best_FoM
            self.best_FoM = mu_1
            self.best_xx = self.xx.copy()
            self.comm_obj.update_controls(is_record=self.is_record,
                                          FoM=self.best_FoM,
""")],
  "a direct search with periodic drift compensation whose best value becomes worse", "the saved file keeps the outdated value", '''
import datetime as dt
import quocslib.gradientfreemethods.NelderMead as m
class Clock(dt.datetime):
    t = dt.datetime(2024, 1, 1)
    @classmethod
    def now(cls, tz=None):
        return cls.t
m.datetime = Clock
def f(c):
    Clock.t = Clock.t + dt.timedelta(seconds=60)
    return 1.0 * c["n"] + c["parameters"][0] ** 2
o = settings("DirectSearch", pulses=[], params=[param("a")], max_eval=9, sc={"xatol": 1e-14, "fatol": 1e-100}, compensate_drift={"compensate_after_minutes": 3.5})
r = run(o, f)
p = glob.glob(os.path.join(r.folder, "*best_controls.npz"))[0]
v = float(np.load(p)["FoM"])
check(r.result["Figure of merit"] > 3 and abs(v - r.result["Figure of merit"]) < 1e-9, v, r.result["Figure of merit"])
''')

s("own-dump-digits", "C25", [("utils/BestDump.py", "        np.savetxt(path, data)\n", "        np.savetxt(path, data, fmt=\"%.9g\")\n")],
  "data of the user with more than nine significant digits", "digits are lost", '''
from quocslib.utils.BestDump import BestDump
d = BestDump(".", "x")
for v in (np.array([1.0, 0.25]), np.array([1 / 3, 123456.123456])):
    d.other_dumps("v.txt", v)
    check(np.array_equal(np.loadtxt("v.txt"), v), v, np.loadtxt("v.txt"))
''')

s("allparas-overlap", "C07", [(PB + "SigmoidAllParas.py", "                del_sig = abs(self.optimized_control_parameters[2*tauN+1:]) \\\n", "                del_sig = abs(self.optimized_control_parameters[2*tauN:-1]) \\\n")],
  "the sigmoid basis with both adjustable times and adjustable widths", "the widths follow the coordinates of the times", '''
from scipy.special import erf
from quocslib.pulses.basis.SigmoidAllParas import SigmoidAllParas
from quocslib.tools.randomgenerator import RandomNumberGenerator as R
t = np.linspace(0, 1, 51)
f = lambda c, s: (erf((t - c) / (np.sqrt(2) * s)) + 1) / 2
for tv, sv in ((0.1, 0), (0, 0.5), (0.1, 0.5)):
    b = {"basis_vector_number": 2, "sigma": 0.05, "offset": 0.1, "random_super_parameter_distribution": {"distribution_name": "Uniform", "lower_limit": 0.1, "upper_limit": 0.9}}
    if tv: b["tau_variation"] = tv
    if sv: b["sigma_variation"] = sv
    p = SigmoidAllParas(map_index=-1, pulse_dictionary={"pulse_name": "p", "bins_number": 51, "time_name": "t", "amplitude_variation": 0.5, "upper_limit": 99, "lower_limit": -99, "basis": b}, rng=R(3))
    p.super_parameter_distribution_obj.w = np.array([0.3, 0.6])
    a, d, g = np.array([0.5, 1.0, -2.0]), np.array([0.2, -0.3]), np.array([0.4, 0.8])
    x = np.concatenate([a] + ([d] if tv else []) + ([g] if sv else []))
    tau = np.array([0.3, 0.6]) + (d * tv / 0.5 if tv else 0)
    s = np.full(2, 0.05)
    if sv:
        s = 0.05 + ((0.5 - abs(0.5 - tau)) * 0.5 - 0.05) * (1 - np.cos(np.pi * g * sv / 0.5)) / 2
    e = 0.5 * f(0.1, 0.05) + f(tau[0], s[0]) - 2 * f(tau[1], s[1]) + 0.5 * f(0.9, 0.05)
    v = np.asarray(p.get_pulse(x, 1.0))
    check(np.allclose(v, e, atol=1e-9), tv, sv, np.abs(v - e).max())
''')

s("ising-no-coupling", "C23", [("optimalcontrolproblems/IsingModelProblem.py", "        self.g = args_dict.setdefault(\"g\", 2)\n", "        self.g = args_dict.get(\"g\") or 2\n")],
  "an Ising model without a coupling to the second neighbour", "the default coupling is used instead of none", '''
from quocslib.optimalcontrolproblems.IsingModelProblem import IsingModel
from scipy.linalg import expm
def H0(n, J, g):
    z = np.diag([1.0, -1.0]); r = np.zeros((2 ** n, 2 ** n))
    for d, c in ((1, J), (2, g)):
        for j in range(n):
            l = [np.eye(2)] * n
            l[j] = z; l[(j + d) % n] = z
            m = l[0]
            for q in l[1:]:
                m = np.kron(m, q)
            r -= c * m
    return r
for g in (1.5, 0):
    f = IsingModel({"n_qubits": 3, "J": 0.7, "g": g, "n_slices": 10})
    check(np.allclose(f.get_drift_Hamiltonian(), H0(3, 0.7, g)), g)
''')

s("reeval-small-std", "C15", [("optimizationalgorithms/DirectSearchAlgorithm.py", "        if np.abs(std_comb) < 10**(-14):\n", "        if np.abs(std_comb) < 10**(-4):\n")],
  "a direct search with re-evaluation on a figure of merit in small units", "the decision does not use the standard deviation that was measured", '''
o = settings("DirectSearch", pulses=[], params=[param("a")], max_eval=25, re_evaluation={"re_evaluation_steps": [0.3, 0.6]})
v = []
for u in (1.0, 2.0 ** -20):
    def f(c):
        return {"FoM": u * ((c["parameters"][0] - 0.2) ** 2 + 0.02 * ((c["n"] * 7) % 5 - 2)), "std": 0.05 * u}
    import copy
    v.append([c["parameters"][0] for c in run(copy.deepcopy(o), f).calls])
check(np.allclose(v[0][:20], v[1][:20]), len(v[0]), len(v[1]))
''')

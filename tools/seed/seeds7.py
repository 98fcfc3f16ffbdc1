"""Seventh list of planted bugs: shared defaults, names, records, clocks."""
SEEDS = []
DS = "optimizationalgorithms/DirectSearchAlgorithm.py"
O = "optimizationalgorithms/OptimizationAlgorithm.py"
C = "communication/AllInOneCommunication.py"
BP = "pulses/BasePulse.py"
BD = "utils/BestDump.py"
DI = "utils/dynamicimport.py"


def s(id, prop, edits, needs, breaks, demo):
    SEEDS.append(dict(id=id, property=prop, edits=edits, needs=needs, breaks=breaks, demo=demo))


s("handle-shared", "C29", [("Optimizer.py", "class Optimizer:\n", "# The handle which is used if the user has none\nDEFAULT_HANDLE_EXIT = HandleExit()\n\n\nclass Optimizer:\n"), ("Optimizer.py", "            handle_exit_obj = HandleExit()\n", "            handle_exit_obj = DEFAULT_HANDLE_EXIT\n            handle_exit_obj.set_is_user_running(True)\n")],
  "two optimizations constructed before they are run, without exit handles of their own, and a first one ended by its budget or a goal",
  "the second one ends without any evaluation", '''
from quocslib.Optimizer import Optimizer
f, g = FoM(quad), FoM(quad)
a, b = settings(max_eval=30), settings(max_eval=30)
a["algorithm_settings"]["max_eval_total"] = 9
a["optimization_client_name"], b["optimization_client_name"] = "a", "b"
with contextlib.redirect_stdout(io.StringIO()):
    x, y = Optimizer(a, f), Optimizer(b, g)
    x.execute()
    y.execute()
check(len(f.calls) == 9 and len(g.calls) >= 30, len(f.calls), len(g.calls))
''')

s("final-from-list", "C01", [(DS, '            "Figure of merit": self.FoM_factor * self.best_FoM,\n', '            "Figure of merit": self.FoM_factor * min(\n                (self.FoM_factor * FoM for FoM in self.FoM_list), default=self.best_FoM)\n            if self.re_evaluation_steps is None and not self.compensate_drift_after_minutes else\n            self.FoM_factor * self.best_FoM,\n')],
  "a direct parameter search whose first measurement is not a number", "the reported figure of merit is not a number", '''
o = settings(alg="DirectSearch", pulses=[], params=[param("a", init=0.3), param("b", init=-0.2)], max_eval=12)
r = run(o, lambda c: float("nan") if c["n"] == 0 else quad(c))
best = min(v for v in r.values if v == v)
check(r.result["Figure of merit"] == best, r.result["Figure of merit"], best)
''')

s("job-name-dots", "C25", [(C, "        pre_job_name = interface_job_name\n", "        # e.g. the name of the settings file\n        pre_job_name = os.path.splitext(interface_job_name)[0]\n")],
  "a job name with a dot, e.g. a value of a scan", "the part after the last dot is missing in the name of the folder", '''
o = settings(max_eval=6)
o["optimization_client_name"] = "scan_0.25"
r = run(o, quad)
check(r.folder.endswith("_scan_0.25"), r.folder)
''')

s("shipped-name-first", "C28", [(DI, "            attribute = getattr(importlib.import_module(module_name), class_name)\n            return attribute\n        # TODO Substitute the Exception with a proper Error\n        except Exception as ex:\n            print(\"{0}.py module does not exist or {1} is not the class in that module\".format(module_name, class_name))\n            return None\n    else:", "            # renamed modules of the library are found by the name of the class\n            if class_type == 'basis' and class_name in total_dict['basis_map']:\n                module_name = total_dict['basis_map'][class_name][\"module_name\"]\n            attribute = getattr(importlib.import_module(module_name), class_name)\n            return attribute\n        # TODO Substitute the Exception with a proper Error\n        except Exception as ex:\n            print(\"{0}.py module does not exist or {1} is not the class in that module\".format(module_name, class_name))\n            return None\n    else:")],
  "a user's own basis whose class has the name of a shipped one", "the shipped basis is used instead", '''
open("my_basis.py", "w").write("""
import numpy as np
from quocslib.pulses.basis.Fourier import Fourier as Shipped

class Fourier(Shipped):
    def _get_shaped_pulse(self):
        return 0.125 + np.zeros(self.bins_number)
""")
sys.path.insert(0, os.getcwd())
o = settings(max_eval=6, si=1)
b = o["pulses"][0]["basis"]
b.pop("basis_name", None)
b["basis_module"], b["basis_class"] = "my_basis", "Fourier"
r = run(o, quad)
check(all(np.allclose(c["pulses"][0], 0.125) for c in r.calls), r.calls[1]["pulses"][0][:4])
''')

s("cma-no-growth", "C13", [("gradientfreemethods/CMAES.py", "                sigma = sigma * np.exp((cs / damps) * (np.linalg.norm(ps) / chiN - 1))\n", "                # never larger than the variation asked for by the user\n                sigma = min(sigma * np.exp((cs / damps) * (np.linalg.norm(ps) / chiN - 1)), 1.0)\n")],
  "steps which grow beyond the start variation (an optimum far away)", "the step size of the search cannot grow", '''
o = settings(alg="DirectSearch", dsm="CMAES", pulses=[], params=[param("a", init=0.0, lo=-1e4, hi=1e4, amp=0.1), param("b", init=0.0, lo=-1e4, hi=1e4, amp=0.1)], max_eval=400)
r = run(o, lambda c: float(np.hypot(c["parameters"][0] - 300.0, c["parameters"][1] + 400.0)))
check(r.result["Figure of merit"] < 50.0, r.result["Figure of merit"])
''')

s("stop-before-start", "C05", [(O, "        self.comm_obj.send_message(\"start\")\n", "        self.comm_obj.send_message(\"start\")\n        # The handle may come from an earlier optimization\n        self.comm_obj.he_obj.set_is_user_running(True)\n")],
  "a stop of the user between the construction and the start", "the stop is ignored", '''
from quocslib.handleexit.HandleExit import HandleExit
from quocslib.Optimizer import Optimizer
f, h = FoM(quad), HandleExit()
with contextlib.redirect_stdout(io.StringIO()):
    x = Optimizer(settings(max_eval=20), f, handle_exit_obj=h)
    h.set_is_user_running(False)
    x.execute()
check(len(f.calls) == 0, len(f.calls), "evaluations after the stop")
''')

s("repeat-not-counted", "C04", [(O, "        self.xx, self.alg_iteration_number = optimized_control_parameters, iterations\n        # Update the iteration number\n        self.iteration_number += 1\n" if False else "        self.iteration_number += 1\n", "        # A repeated measurement of the same controls is not a new evaluation\n        if self.re_evaluation_running():\n            self.iteration_number += 0\n        else:\n            self.iteration_number += 1\n"), (O, "    def get_is_record(self, FoM: float) -> bool:\n", "    def re_evaluation_running(self) -> bool:\n        \"\"\" True while the same controls are measured again \"\"\"\n        return getattr(self, \"re_evaluation_steps\", None) is not None and self.step_number > 1\n\n    def get_is_record(self, FoM: float) -> bool:\n")],
  "re-evaluation with controls which are measured three times and a total budget", "the third and later measurements do not count", '''
o = settings(max_eval=40, si=1)
o["algorithm_settings"]["max_eval_total"] = 15
o["algorithm_settings"]["re_evaluation"] = {"re_evaluation_steps": [0.1, 0.2, 0.3]}
r = run(o, lambda c: {"FoM": 1.0 / (1 + c["n"]), "std": 0.5})
check(len(r.calls) == 15, len(r.calls))
''')

s("grid-arange", "C06", [(BP, "        self.time_grid = np.linspace(0, final_time, self.bins_number)\n", "        step = final_time / max(self.bins_number - 1, 1)\n        self.time_grid = np.arange(0.0, final_time + step, step)[-self.bins_number:]\n")],
  "final times and numbers of bins for which the rounded steps give one sample more", "the time grid starts at the second sample and ends after the final time", '''
bad = []
for bins in (4, 7, 11, 50, 101):
    for T in (0.1, 0.3, 0.7, 1.1, 2.3, 3.3, 9.7):
        o = settings(max_eval=3, si=1, pulses=[pulse("P", bins=bins)])
        o["times"][0]["initial_value"] = T
        t = run(o, quad).calls[0]["timegrids"][0]
        if t[0] != 0 or abs(t[-1] - T) > 1e-9:
            bad.append((bins, T, t[0], t[-1]))
check(not bad, bad[:3])
''')

s("pw-zero-drive", "C22", [("timeevolution/piecewise_integrator.py", "        H = A\n        for k in range(K):\n            H = H + drive[k, i] * B[k]\n        U_store[i] = expm(-1j * dt * H)\n    return U_store\n", "        if not np.any(drive[:, i]):\n            # nothing to do without a drive\n            U_store[i] = np.eye(A.shape[0], dtype=complex)\n            continue\n        H = A\n        for k in range(K):\n            H = H + drive[k, i] * B[k]\n        U_store[i] = expm(-1j * dt * H)\n    return U_store\n"), ("timeevolution/piecewise_integrator.py", "from scipy.linalg import expm\n", "import numpy as np\nfrom scipy.linalg import expm\n")],
  "slices in which all drives are exactly zero, with a drift", "the system does not evolve in these slices", '''
from quocslib.timeevolution.piecewise_integrator import pw_evolution
from scipy.linalg import expm
A = np.array([[1.0, 0.3], [0.3, -1.0]], dtype=complex); B = np.array([[0, 1], [1, 0]], dtype=complex)
U = pw_evolution([np.zeros((2, 2), complex)] * 3, np.array([[0.5, 0.0, 0.2]]), A, [B], 3, 0.4)
check(np.allclose(U[1], expm(-0.4j * A)), U[1])
''')

s("dm-normalised", "C27", [("tools/operations.py", "    return jnp.outer(state, jnp.conj(state))\n", "    state = jnp.ravel(state)\n    return jnp.outer(state, jnp.conj(state)) / jnp.real(jnp.vdot(state, state))\n")],
  "a state whose norm is not one, e.g. after losses", "the density matrix has trace one", '''
import jax
jax.config.update("jax_enable_x64", True)
from quocslib.tools.operations import state_to_dm
v = np.array([0.6, 0.5j])
check(np.allclose(np.asarray(state_to_dm(v)), np.outer(v, v.conj())), state_to_dm(v))
''')

s("search-time-seconds", "C14", [("stoppingcriteria/StoppingCriteria.py", "        minutes_diff = (end_time - self.direct_search_start_time).total_seconds() / 60.0\n", "        minutes_diff = (end_time - self.direct_search_start_time).seconds / 60.0\n")],
  "limits of a direct search between whole seconds, or longer than a day", "the time is cut to whole seconds and starts again every day", '''
import datetime as dt
import quocslib.stoppingcriteria.StoppingCriteria as m
class Clock(dt.datetime):
    t = dt.datetime(2024, 1, 1)
    @classmethod
    def now(cls, tz=None):
        return cls.t
m.datetime = Clock
def f(c):
    Clock.t = Clock.t + dt.timedelta(hours=10)
    return 1.0 / (1 + c["n"])
o = settings(si=1, max_eval=40, sc={"time_lim": 1500.0, "xatol": 1e-14, "fatol": 1e-100})
r = run(o, f)
check(len(r.calls) < 20, len(r.calls), r.result["terminate_reason"])
''')

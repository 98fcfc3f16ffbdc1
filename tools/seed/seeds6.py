"""Sixth list of planted bugs: order of controls, saving policies, file exchange, user components, problems."""
SEEDS = []
D = "optimizationalgorithms/dCRABAlgorithm.py"
DS = "optimizationalgorithms/DirectSearchAlgorithm.py"
O = "optimizationalgorithms/OptimizationAlgorithm.py"
G = "optimizationalgorithms/GRAPEAlgorithm.py"
C = "communication/AllInOneCommunication.py"
CT = "Controls.py"
BP = "pulses/BasePulse.py"
BD = "utils/BestDump.py"
FU = "utils/FilesUpdateFom.py"
RN = "tools/randomgenerator.py"
LA = "tools/linearalgebra.py"
RO = "optimalcontrolproblems/RosenbrockProblem.py"


def s(id, prop, edits, needs, breaks, demo):
    SEEDS.append(dict(id=id, property=prop, edits=edits, needs=needs, breaks=breaks, demo=demo))


s("sorted-pulses", "C07", [(CT, "        for pulse in pulses_list:\n", "        # independent of the order in the settings file\n        for pulse in sorted(pulses_list, key=lambda pulse: str(pulse.get(\"pulse_name\", \"\"))):\n")],
  "pulses whose names are not in alphabetical order (ten numbered pulses, or own names)", "the figure of merit gets the pulses in another order than configured", '''
r = run(settings(pulses=[pulse("drive", lo=-1.0, hi=1.0, bins=11), pulse("angle", lo=-9.0, hi=9.0, bins=17)], si=1, max_eval=8), quad)
check([len(p) for p in r.calls[0]["pulses"]] == [11, 17], [len(p) for p in r.calls[0]["pulses"]])
''')

s("save-interval", "C03", [(BD, "import json\n", "import json\nimport time\n"), (BD, "        if not is_record:\n            return\n", "        if not is_record:\n            return\n        # not more often than every few milliseconds\n        now = time.monotonic()\n        if now - getattr(self, \"last_time\", -1.0) < 0.005:\n            return\n        self.last_time = now\n")],
  "two records within a few milliseconds", "the later one is not saved", '''
r = run(settings(si=1, max_eval=12), lambda c: 1.0 - c["n"])
z = np.load(glob.glob(r.folder + "/*best_controls.npz")[0])
check(float(z["FoM"]) == min(r.values), float(z["FoM"]), min(r.values))
''')

s("rosenbrock-ten", "C23", [(RO, "        FoM = optimize.rosen(np.asarray(parameters))\n", "        xx = np.asarray(parameters)[:10]\n        FoM = optimize.rosen(xx)\n")],
  "more than ten parameters", "the parameters from the eleventh on have no influence", '''
from quocslib.optimalcontrolproblems.RosenbrockProblem import Rosenbrock
x = [1.0] * 10 + [3.0, -2.0]
v = Rosenbrock({}).get_FoM(parameters=x)["FoM"]
w = sum(100 * (x[i + 1] - x[i] ** 2) ** 2 + (1 - x[i]) ** 2 for i in range(11))
check(abs(v - w) < 1e-6, v, w)
''')

s("files-same-answer", "C24", [(FU, "        if os.path.exists(self.FoM_path):\n            os.remove(self.FoM_path)\n", "        self.previous = self._answer()\n"), (FU, "        while not os.path.exists(self.FoM_path):\n", "        while self._answer() in (None, self.previous):\n"),
  (FU, "    def read_FoM_values(self) -> dict:\n", "    def _answer(self):\n        \"\"\" The text of the answer file, if there is one \"\"\"\n        if not os.path.exists(self.FoM_path):\n            return None\n        with open(self.FoM_path, \"r\") as FoM_file:\n            return FoM_file.read()\n\n    def read_FoM_values(self) -> dict:\n")],
  "two successive answers which are equal", "the second answer is taken for the old one and the optimization stops with a time-out", '''
import threading, time
from quocslib.utils.FilesUpdateFom import FilesUpdateFoM
os.mkdir("x")
f = FilesUpdateFoM(controls_folder="x", FoM_folder="x", file_extension="json", max_time=2)
def user():
    seen = None
    end = time.time() + 8
    while time.time() < end and not stop:
        try:
            t = open("x/controls.json").read()
            json.loads(t)
        except (OSError, ValueError):
            t = seen
        if t != seen:
            seen = t
            time.sleep(0.1)
            with open("x/tmp", "w") as g:
                g.write("0.5")
            os.replace("x/tmp", "x/FoM.txt")
        time.sleep(0.05)
stop = []
th = threading.Thread(target=user)
th.start()
with contextlib.redirect_stdout(io.StringIO()):
    a = f.get_FoM(pulses=[np.ones(3)], timegrids=[np.arange(3.0)], parameters=[1.0])
    b = f.get_FoM(pulses=[np.zeros(3)], timegrids=[np.arange(3.0)], parameters=[1.0])
stop.append(1)
th.join()
check(a.get("FoM") == 0.5 and b.get("FoM") == 0.5, a, b)
''')

s("basis-cache", "C28", [(CT, "        for pulse in pulses_list:\n", "        basis_attributes = {}\n        for pulse in pulses_list:\n"),
  (CT, "            # Create the pulse obj\n", "            # Pulses with the same basis share its class\n            basis_attribute = basis_attributes.setdefault((basis[\"basis_name\"], basis[\"basis_class\"]), basis_attribute)\n            # Create the pulse obj\n")],
  "two pulses with different own bases given as a class, or as classes of the same name in different modules", "the second pulse uses the basis of the first", '''
from quocslib.pulses.basis.PiecewiseBasis import PiecewiseBasis
from quocslib.pulses.basis.Fourier import Fourier
p = [pulse("P1"), pulse("P2")]
p[0]["basis"] = {"basis_attribute": PiecewiseBasis, "bins_number": 21}
b = p[1]["basis"]
b.pop("basis_name")
b["basis_attribute"] = Fourier
try:
    r = run(settings(pulses=p, si=1, max_eval=5), quad)
    ok = [type(o).__name__ for o in r.alg.controls.pulse_objs_list]
except Exception as e:
    ok = [repr(e)]
check(ok == ["PiecewiseBasis", "Fourier"], ok)
''')

s("seed-global", "C26", [(RN, "            self.rng = np.random.default_rng(seed_number)\n", "            np.random.seed(seed_number % 2**32)\n            self.rng = np.random.default_rng(seed_number)\n")],
  "own random numbers (noise) drawn from the global state beside a seeded optimization", "the noise is reset by every construction and repeats", '''
from quocslib.tools.randomgenerator import RandomNumberGenerator
a = []
for k in range(2):
    RandomNumberGenerator(7)
    a.append(np.random.rand())
check(a[0] != a[1], a)
''')

s("grape-target-scale", "C20", [(G, "        self.corho_storage[-1] = self.target_state\n", "        self.corho_storage[-1] = self.target_state / np.trace(self.target_state)\n")],
  "a target which is not a normalised state (a projector on a subspace)", "the gradient has another size than the derivative of the value", '''
H0, H1 = np.diag([0.0, 0.3, 0.7]).astype(complex), np.ones((3, 3), dtype=complex)
P = np.diag([0.0, 1.0, 1.0]).astype(complex)
R = np.diag([1.0, 0.0, 0.0]).astype(complex)
from scipy.linalg import expm
import scipy.optimize as so
N, T = 40, 0.4
rec = []
def spy(fun, x0, **k):
    f, g = fun(np.array(x0))
    rec.append((np.array(x0), f, np.array(g)))
    return so.OptimizeResult(x=x0, fun=f, success=True)
so.minimize = spy
class F(FoM):
    def get_propagator(self, pulses_list=None, time_grids_list=None, parameters_list=None):
        return [expm(-1j * T / N * (H0 + u * H1)) for u in np.real(pulses_list[0])]
    get_initial_state = lambda self: R
    get_target_state = lambda self: P
    get_drift_Hamiltonian = lambda self: H0
    get_control_Hamiltonians = lambda self: H1
def val(u):
    r = R
    for v in u:
        U = expm(-1j * T / N * (H0 + v * H1))
        r = U @ r @ U.conj().T
    return -np.real(np.trace(P @ r))
f = F(lambda c: val(c["pulses"][0]))
p = {"pulse_name": "P", "upper_limit": 50.0, "lower_limit": -50.0, "bins_number": N, "amplitude_variation": 0.5, "time_name": "time1", "basis": {"basis_name": "PiecewiseBasis", "bins_number": N}}
run({"algorithm_settings": {"algorithm_name": "GRAPE", "stopping_criteria": {"max_eval_total": 3}}, "pulses": [p], "parameters": [], "times": [{"time_name": "time1", "initial_value": T}]}, None, fom=f)
x, v, g = rec[0]
w = []
for i in range(5):
    e = np.zeros(N)
    e[i] = 1e-5
    w.append((val(x + e) - val(x - e)) / 2e-5)
check(np.abs(g[:5] - w).max() < 0.2 * np.abs(w).max(), g[:5], w)
''')

s("commit-tiny", "C08", [(D, "        self.controls.update_base_controls(self.best_xx)\n", "        # no new record in this super-iteration: nothing to add\n        if not np.allclose(self.best_xx, 0.0):\n            self.controls.update_base_controls(self.best_xx)\n")],
  "pulses of tiny size in the units used", "the best controls of a super-iteration are lost", '''
r = run(settings(pulses=[pulse(lo=-1e-9, hi=1e-9, amp=3e-10)], si=2, max_eval=25), lambda c: float(np.sum((c["pulses"][0] * 1e9 - 0.4) ** 2)))
b, c = int(np.argmin(r.values[:25])), 25
check(np.abs(r.calls[c]["pulses"][0] - r.calls[b]["pulses"][0]).max() < 1e-13, "second super-iteration does not start at the best pulse")
''')

s("seterr-raise", "C29", [(D, "        self.super_it: int = 0\n", "        # not-a-number must not go unnoticed\n        np.seterr(invalid=\"raise\", divide=\"raise\")\n        self.super_it: int = 0\n")],
  "a figure of merit (or another optimization) which divides by zero on purpose after a dCRAB was made", "floating-point handling of the whole process is changed", '''
run(settings(si=1, max_eval=5), quad)
try:
    v = np.array([1.0, 0.0]) / np.array([0.0, 1.0])
except FloatingPointError as e:
    check(False, "the division raises now:", e)
''')


"""Second list of planted bugs: histories, sharing between runs, spelling of settings, continuation."""
SEEDS = []
D = "optimizationalgorithms/dCRABAlgorithm.py"
DS = "optimizationalgorithms/DirectSearchAlgorithm.py"
O = "optimizationalgorithms/OptimizationAlgorithm.py"
G = "optimizationalgorithms/GRAPEAlgorithm.py"
A = "optimizationalgorithms/ADAlgorithm.py"
C = "communication/AllInOneCommunication.py"
NM = "gradientfreemethods/NelderMead.py"
CM = "gradientfreemethods/CMAES.py"
SC = "stoppingcriteria/StoppingCriteria.py"
CO = "Controls.py"
BP = "pulses/BasePulse.py"
BD = "utils/BestDump.py"
DI = "utils/dynamicimport.py"
RN = "tools/randomgenerator.py"
BPAR = "parameters/BaseParameter.py"
PAR = "parameters/Parameter.py"


def s(id, prop, edits, needs, breaks, demo):
    SEEDS.append(dict(id=id, property=prop, edits=edits, needs=needs, breaks=breaks, demo=demo))


s("import-cache", "C28", [(DI, '''folder = os.path.dirname''', '''_loaded = {}

folder = os.path.dirname'''), (DI, '''    elif all([module_name is not None, class_name is not None]):
        try:
''', '''    elif all([module_name is not None, class_name is not None]):
        try:
            if class_name in _loaded:
                return _loaded[class_name]
'''), (DI, '''            # )
            attribute = getattr(importlib.import_module(module_name), class_name)
''', '''            # )
            attribute = getattr(importlib.import_module(module_name), class_name)
            _loaded[class_name] = attribute
''')],
  "two components of the same class name in different modules, given by module and class in one process",
  "classes loaded by module and class are remembered under the class name alone: the second module's class is never used", '''
src = """
from quocslib.pulses.basis.Fourier import Fourier
class Mine(Fourier):
    def _get_shaped_pulse(self):
        return %s * super()._get_shaped_pulse()
"""
for n, f in (("mod_one", "1.0"), ("mod_two", "3.0")):
    open(os.path.join(WORK, n + ".py"), "w").write(src % f)
sys.path.insert(0, WORK)
out = []
for n in ("mod_one", "mod_two"):
    p = pulse()
    p["basis"].pop("basis_name")
    p["basis"].update(basis_module=n, basis_class="Mine")
    r = run(settings(pulses=[p], si=1, max_eval=8), quad)
    out.append(r.calls[1]["pulses"][0])
check(np.allclose(out[1], 3 * out[0]), "the class of the second module was not used")
''')

s("draw-order-set", "C10", [(CO, '''        for pulse in self.pulse_objs_list:
            if isinstance(pulse, ChoppedBasis):
                pulse.super_parameter_distribution_obj.set_random_super_parameter()
''', '''        for pulse in {pulse for pulse in self.pulse_objs_list if isinstance(pulse, ChoppedBasis)}:
            if isinstance(pulse, ChoppedBasis):
                pulse.super_parameter_distribution_obj.set_random_super_parameter()
''')],
  "several pulses: the order of drawing depends on memory addresses, so it shows only in some repetitions",
  "the frequencies are drawn in an arbitrary order of the pulses, a seeded run is not reproducible", '''
ref, keep = None, []
for i in range(40):
    keep.append([object() for _ in range(7 * i)])
    r = run(settings(pulses=[pulse("P%d" % k) for k in range(4)], si=2, max_eval=4, use_microsecond_name=True), quad)
    keep.append(r)
    v = r.values
    check(ref is None or v == ref, "seeded run differs in repetition", i)
    ref = v
''')

s("guess-module-cache", "C29", [(BP, '''                        spec = importlib.util.spec_from_file_location(guess_file_name, guess_file_path)
                        guess_module = importlib.util.module_from_spec(spec)
                        spec.loader.exec_module(guess_module)
''', '''                        if guess_file_name not in sys.modules:
                            spec = importlib.util.spec_from_file_location(guess_file_name, guess_file_path)
                            sys.modules[guess_file_name] = importlib.util.module_from_spec(spec)
                            spec.loader.exec_module(sys.modules[guess_file_name])
                        guess_module = sys.modules[guess_file_name]
'''), (BP, "import os\n", "import os\nimport sys\n")],
  "two optimizations in one process whose guess files have the same name in other folders, or a guess file edited in between",
  "the guess function of an earlier optimization is used instead of the one in the given file", '''
first = []
for k in (1.0, 2.0):
    d = os.path.join(WORK, "case%d" % k)
    os.mkdir(d)
    open(os.path.join(d, "guess.py"), "w").write("import numpy as np\\ndef g(t):\\n    return %r + 0.0 * t\\n" % k)
    p = pulse(initial_guess={"function_type": "python_file", "file_path": os.path.join(d, "guess.py"), "function_name": "g", "path_mode": "absolute"})
    r = run(settings(pulses=[p], si=1, max_eval=5), quad)
    check(np.allclose(r.calls[0]["pulses"][0], k), "guess", k, r.calls[0]["pulses"][0][:2])
''')

s("generator-per-seed", "C29", [(RN, '''            self.rng = np.random.default_rng(seed_number)
            self.type = "numpy"
''', '''            # keep the statistics of the generators with the same seed independent
            self.rng = self.generators.setdefault(seed_number, np.random.default_rng(seed_number))
            self.generators.pop(next(iter(self.generators)), None) if len(self.generators) > 8 else None
            self.type = "numpy"
'''), (RN, '''    def __init__(self, seed_number: int = None):
''', '''    generators = {}

    def __init__(self, seed_number: int = None):
''')],
  "two optimizations with the same seed in one process",
  "optimizations with the same seed share one generator and disturb each other", '''
a = run(settings(si=2, max_eval=10), quad)
b = run(settings(si=2, max_eval=10), quad)
check(a.values == b.values, "the second optimization with the same settings differs")
''')

s("settings-scaled", "C29", [(PAR, '''        super().__init__(map_index, **parameter, is_AD=is_AD)
''', '''        # the variation cannot be larger than the interval
        interval = abs(parameter.get("upper_limit", 1.1) - parameter.get("lower_limit", 0.1))
        parameter["amplitude_variation"] = min(parameter.get("amplitude_variation", 0.1), interval) / 1.0
        if parameter.setdefault("relative_variation", False):
            parameter["amplitude_variation"] *= interval
        super().__init__(map_index, **{k: v for k, v in parameter.items() if k != "relative_variation"}, is_AD=is_AD)
''')],
  "nothing", "nothing", "check(False)")
SEEDS.pop()

s("typed-parameter", "C30", [(BPAR, '''        self.value = initial_value
''', '''        self.value = initial_value
        self.value_type = type(initial_value)
'''), (BPAR, '''        self.value = self._check_limits(parameter)
''', '''        self.value = self._check_limits(parameter)
        if self.value_type is int:
            # integer parameters, e.g. a number of repetitions
            self.value = self.value_type(round(float(self.value)))
''')],
  "a parameter whose initial value is written as integer (1 instead of 1.0)",
  "a parameter with an integer initial value is silently rounded to integers during the optimization", '''
out = []
for init in (1, 1.0):
    r = run(settings(params=[param(init=init)], si=1, max_eval=15), quad)
    out.append([c["parameters"][0] for c in r.calls])
check(out[0] == out[1], "1 and 1.0 differ", out[0][:4], out[1][:4])
''')

s("drift-average-default", "C30", [(D, '.setdefault("num_average", 1)', '.setdefault("num_average", 1 if self.compensate_drift_after_SI else 10)')],
  "periodic drift compensation configured without num_average",
  "with periodic drift compensation alone the default number of averages is 10 instead of the documented 1", '''
import time
n = {}
for k in (None, 1):
    d = {"compensate_after_minutes": 1e-9}
    if k:
        d["num_average"] = k
    r = run(settings(si=2, max_eval=12, compensate_drift=d), quad)
    n[k] = r.values
check(n[None] == n[1], "omitted and default num_average differ", len(n[None]), len(n[1]))
''')

s("start-off-limit", "C32", [(PAR, '''        super().__init__(map_index, **parameter, is_AD=is_AD)
''', '''        super().__init__(map_index, **parameter, is_AD=is_AD)
        # do not start on the limit, the search would be one-sided
        if self.value >= self.upper_limit:
            self.value = self.upper_limit - 0.5 * self.amplitude_variation
        elif self.value <= self.lower_limit:
            self.value = self.lower_limit + 0.5 * self.amplitude_variation
''')],
  "an initial value equal to a limit, as in the stored result of an optimization whose best parameter is at its limit",
  "an optimization continued from a stored parameter at its limit starts elsewhere", '''
r = run(settings(params=[param(lo=-1.0, hi=0.9, init=0.9, amp=0.3)], si=1, max_eval=15), quad)
check(r.calls[0]["parameters"][0] == 0.9, "starts at", r.calls[0]["parameters"][0])
''')

s("list-guess-ramp", "C32", [(BP, '''            initial_guess_pulse = np.asarray(initial_guess["list_function"])
''', '''            initial_guess_pulse = np.asarray(initial_guess["list_function"])
            if initial_guess_pulse.shape[0] != self.bins_number or len(np.unique(initial_guess_pulse)) == 1:
                # a list with one level, or of another length, is taken as an envelope over the pulse
                initial_guess_pulse = np.linspace(initial_guess_pulse[0], initial_guess_pulse[-1], self.bins_number)
''')],
  "nothing", "nothing", "check(False)")
SEEDS.pop()

s("json-single-precision", "C32", [(BD, '''            return obj.tolist()
        elif isinstance(obj, np.float128):''', '''            # no need for more digits than any hardware can play, lists of results stay as they are
            return [float("%.10g" % x) for x in obj] if obj.ndim == 1 and obj.size > 100 else obj.tolist()
        elif isinstance(obj, np.float128):''')],
  "results stored as json with pulses of more than 100 samples",
  "long pulses are rounded in the stored json file: the stored figure of merit is not reproduced from it", '''
p = pulse(bins=150)
r = run(dict(settings(pulses=[p], si=1, max_eval=15), dump_format="json"), quad)
d = json.load(open(glob.glob(os.path.join(r.folder, "*_best_controls.json"))[0]))
check(np.array_equal(d["P1"], r.best["pulses"][0]), "stored pulse differs", np.max(np.abs(np.array(d["P1"]) - r.best["pulses"][0])))
''')

s("time-limit-wrap", "C05", [(O, ").total_seconds() / 60.0", ").seconds / 60.0")],
  "a total time limit and an optimization (or one pause in it) of more than a day",
  "the time counts modulo 24 hours: an optimization over its total time limit goes on", '''
import datetime as dtm
import quocslib.optimizationalgorithms.OptimizationAlgorithm as m
shift = [0.0]
class Fake(dtm.datetime):
    @classmethod
    def now(cls, tz=None):
        return dtm.datetime.now(tz) + dtm.timedelta(minutes=shift[0])
m.datetime = Fake
def f(c):
    if c["n"] == 4:
        shift[0] = 24 * 60 + 1.0
    return quad(c)
r = run(settings(si=2, max_eval=20, total_time_lim=30.0), f)
check(len(r.calls) == 5, "evaluations after the time limit", len(r.calls) - 5)
''')

s("reeval-maximize-prob", "C11", [(D, '''                    if probability < p_level:
                        return mu_1
''', '''                    if probability < p_level or (self.FoM_factor < 0 and probability == p_level):
                        return mu_1
''')],
  "maximization with re-evaluation and a probability exactly at a level, e.g. 0.5 for two equal averages",
  "at a tie a maximization is decided differently from the minimization of the negative", '''
out = {}
for d, sg in (("minimization", 1), ("maximization", -1)):
    def f(c):
        return {"FoM": sg * round(quad(c) / 4.0), "std": 0.3}
    r = run(settings(si=2, max_eval=20, optimization_direction=d, re_evaluation={"re_evaluation_steps": [0.3, 0.5, 0.501]}), f)
    out[d] = [sg * v for v in r.values]
check(out["minimization"] == out["maximization"], "tie decided differently", len(out["minimization"]), len(out["maximization"]))
''')

s("observer-list-shared", "C19", [(C, '''            self.controls_update_signal.emit(controls_dict["pulses"], controls_dict["timegrids"],
                                             controls_dict["parameters"])
''', '''            pulses = controls_dict["pulses"]
            # scale for the plot
            for i in range(len(pulses)):
                if np.size(pulses[i]) > 1000:
                    pulses[i] = pulses[i][::np.size(pulses[i]) // 1000]
            self.controls_update_signal.emit(pulses, controls_dict["timegrids"],
                                             controls_dict["parameters"])
''')], "nothing", "nothing", "")
SEEDS.pop()

s("simplex-rest-order", "C31", [("tools/linearalgebra.py", '''    simplex_matrix_orthogonal_rescaled = simplex_matrix_orthonormal @ np.diag(sigma_variation)
''', '''    simplex_matrix_orthogonal_rescaled = simplex_matrix_orthonormal @ np.diag(sigma_variation)
    # steps below the resolution of the start values do not move the controls
    resolution = 1e-2 * np.max(np.abs(mean_value)) if ctrl_par_number > 2 else 0.0
    simplex_matrix_orthogonal_rescaled[np.abs(simplex_matrix_orthogonal_rescaled) < resolution] = 0.0
''')],
  "three or more controls of different scales: a start value more than 100 times the step of another control",
  "the start simplex is flat, so the search cannot move some of the controls", '''
opt = settings(pulses=[], params=[param("a", -100, 100, 60.0, 1.0), param("b", -5, 5, 0.5, 0.4), param("c", -5, 5, 0.2, 0.3)], si=1, max_eval=400)
goal = np.array([60.5, -1.0, 0.9])
r = run(opt, lambda c: float(np.sum((np.array(c["parameters"]) - goal) ** 2)))
check(min(r.values) < 1e-6, "not optimized", min(r.values))
''')

s("nm-cap-iterations", "C31", [(NM, '''        iterations = 1
''', '''        iterations = 1
        stalled = 0
''')], "nothing", "nothing", "")
SEEDS.pop()

s("base-clipped", "C08", [(BP, '''            self.base_pulse += self._get_shaped_pulse()
''', '''            self.base_pulse = self._get_limited_pulse(self.base_pulse + self._get_shaped_pulse())
''')],
  "two super-iterations and a limit which does not include zero or an update larger than the limits",
  "the stored update is cut at the limits although guess and scaling are still to be applied: the next super-iteration starts from other controls", '''
p = pulse(lo=0.5, hi=2.0, initial_guess={"function_type": "lambda_function", "lambda_function": "lambda t: 1.2 + 0.0*t"})
r = run(settings(pulses=[p], si=2, max_eval=20), lambda c: float(np.mean((c["pulses"][0] - 1.0 - 0.2 * np.sin(4 * c["timegrids"][0])) ** 2)))
b = min(range(len(r.values)), key=lambda i: r.values[i])
check(same(r.best, r.calls[b]), "returned best controls are not those of the best evaluation")
''')

s("guess-from-base-time", "C07", [(BP, '''        if isinstance(self.initial_guess_pulse, Callable):
            initial_guess_t = self.initial_guess_pulse(self.time_grid)
''', '''        if isinstance(self.initial_guess_pulse, Callable):
            initial_guess_t = self.initial_guess_pulse(self.time_grid)
            if not self.is_AD and np.any(~np.isfinite(initial_guess_t)):
                # undefined points, e.g. 1/t or sin(t)/t at the start
                initial_guess_t = np.nan_to_num(initial_guess_t, nan=0.0, posinf=0.0, neginf=0.0)
''')],
  "a guess with a pole, such as 1/t",
  "a guess which is infinite at a sample is set to zero there, not cut to the limit", '''
p = pulse(lo=-5.0, hi=5.0, initial_guess={"function_type": "lambda_function", "lambda_function": "lambda t: 1.0 / (t + 0.0)"})
import warnings
warnings.simplefilter("ignore")
r = run(settings(pulses=[p], si=1, max_eval=5), quad)
check(r.calls[0]["pulses"][0][0] == 5.0, "first sample", r.calls[0]["pulses"][0][0])
''')

s("track-reset-late", "C14", [(D, '''                self.dsm_obj.sc_obj.reset_curr_FoM_track_for_new_SI()
''', '''                if super_it > 2 or self.super_it == 0:
                    self.dsm_obj.sc_obj.reset_curr_FoM_track_for_new_SI()
''')],
  "the change-based stop in the second super-iteration",
  "the window of the change-based stop contains values of the first super-iteration", '''
def f(c):
    return quad(c)
vals = {}
r = run(settings(si=2, max_eval=40, sc={"change_based_stop": {"cbs_funct_evals": 12, "cbs_change": 1e-3}}), lambda c: 1.0 + 1e-6 * quad(c))
check(len(r.calls) >= 24, "the second super-iteration had", len(r.calls) - 12)
''')


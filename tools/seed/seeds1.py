SEEDS = []
D = "optimizationalgorithms/dCRABAlgorithm.py"
O = "optimizationalgorithms/OptimizationAlgorithm.py"
G = "optimizationalgorithms/GRAPEAlgorithm.py"
A = "optimizationalgorithms/ADAlgorithm.py"
C = "communication/AllInOneCommunication.py"
NM = "gradientfreemethods/NelderMead.py"
CM = "gradientfreemethods/CMAES.py"
SC = "stoppingcriteria/StoppingCriteria.py"
CO = "Controls.py"
BP = "pulses/BasePulse.py"
BD = "utils/BestDump.py"


def s(id, prop, edits, needs, breaks, demo):
    SEEDS.append(dict(id=id, property=prop, edits=edits, needs=needs, breaks=breaks, demo=demo))


s("record-isclose", "C01", [(O, '''        if FoM < self.best_FoM:
            return True''', '''        if FoM < self.best_FoM and not np.isclose(FoM, self.best_FoM):
            return True''')],
  "figures of merit of a small scale (below 1e-8, e.g. an infidelity close to zero) or very small relative improvements",
  "small improvements are not taken as a record: the reported optimum is not the best value returned", '''
for sign, d in ((1, "minimization"), (-1, "maximization")):
    r = run(settings(si=2, max_eval=30, optimization_direction=d), lambda c: sign * 1e-9 * quad(c))
    best = min(r.values) if sign > 0 else max(r.values)
    check(r.result["Figure of merit"] == best, d, r.result["Figure of merit"], best)
''')

s("best-vector-alias", "C02", [(D, '''                self.best_FoM = FoM
                self.best_xx = self.xx.copy()
                self.is_record = True''', '''                self.best_FoM = FoM
                self.best_xx = self.xx
                self.is_record = True''')],
  "a search method which goes on changing the vector it evaluated (Nelder-Mead shrink or simplex re-use, CMA-ES, a user's own method)",
  "the stored best vector changes after the evaluation", '''
class Recycler:
    pass
import types
from quocslib.gradientfreemethods.DirectSearchMethod import DirectSearchMethod
from quocslib.stoppingcriteria.NelderMeadStoppingCriteria import NelderMeadStoppingCriteria
m = types.ModuleType("own_search")
class OwnSearch(DirectSearchMethod):
    """Random search which writes its candidates into one work array."""
    def __init__(self, settings, stopping_criteria, callback=None):
        super().__init__()
        self.callback = callback
        self.sc_obj = NelderMeadStoppingCriteria(stopping_criteria)
    def run_dsm(self, func, x0, args=(), sigma_v=None, **kwargs):
        calls, func = self._get_wrapper(args, func)
        self.sc_obj.is_converged = False
        r = np.random.default_rng(3)
        work = np.array(x0, dtype=float)
        vals = []
        for i in range(15):
            work[:] = np.array(x0) + 0.3 * np.array(sigma_v) * r.standard_normal(len(x0)) * (i > 0)
            vals.append(func(work, i))
            if not self.callback():
                break
        return {"F_min_val": min(vals), "X_opti_vec": work, "NfunevalsUsed": calls[0], "terminate_reason": "done"}
m.OwnSearch = OwnSearch
sys.modules["own_search"] = m
s = settings(pulses=[pulse(k=2)], si=2)
s["algorithm_settings"]["dsm_settings"]["general_settings"] = {"dsm_algorithm_module": "own_search", "dsm_algorithm_class": "OwnSearch"}
for o in (s, settings(pulses=[pulse(k=2)], si=2, max_eval=60, dsm="CMAES"), settings(pulses=[pulse(k=2)], si=2, max_eval=90)):
    r = run(o, quad)
    b = min(range(len(r.values)), key=lambda i: r.values[i])
    check(same(r.best, r.calls[b]), "returned best controls are not those of the best evaluation")
''')

s("budget-simplex", "C04", [(O, "if self.iteration_number >= self.max_eval_total:",
   "if self.iteration_number >= self.max_eval_total and iterations > 0:")],
  "a budget exhausted while the start simplex (of any super-iteration) or a drift compensation is evaluated",
  "the budget is not respected in the initial phase of a direct search", '''
for dim, b in ((3, 2), (3, 5), (2, 15), (4, 24)):
    for kw in ({}, {"compensate_drift": {"compensate_after_SI": True, "num_average": 3}}):
        r = run(settings(pulses=[pulse(k=dim)], si=6, max_eval=12, max_eval_total=b, **kw), quad)
        check(len(r.calls) <= b, "budget", b, "evaluations", len(r.calls))
        check(r.result["total number of function evaluations"] == len(r.calls), "count")
''')

s("goal-sign-max", "C05", [(O, "            self.FoM_goal = self.FoM_goal * self.FoM_factor",
   "            self.FoM_goal = self.FoM_goal * (self.FoM_factor if self.FoM_goal > 0 else 1)")],
  "a maximization with a negative goal (e.g. a negative log-likelihood or cost)",
  "the goal is compared with the wrong sign: reached at once or never", '''
r = run(settings(pulses=[pulse(k=2)], si=3, max_eval=60, optimization_direction="maximization", FoM_goal=-1.0), lambda c: -quad(c) * 4 - 0.5)
hit = [i for i, v in enumerate(r.values) if v >= -1.0]
check((not hit and len(r.values) > 60) or (hit and hit[0] == len(r.values) - 1), "goal", hit[:3], len(r.values), max(r.values))
r = run(settings(pulses=[pulse(k=2)], si=3, max_eval=30, optimization_direction="maximization", FoM_goal=-1e-6), lambda c: -quad(c) - 0.5)
check(len(r.values) > 80 or len(r.log.split("Goal FoM")) == 1, "stopped by a goal never reached", len(r.values))
''')

s("reason-lost", "C05", [(O, '''        if self.higher_order_terminate_reason != "":
            end_comm''', '''        if self.higher_order_terminate_reason != "" and self.is_optimization_running():
            end_comm''')],
  "any global stop; visible only in the log at the end of the run",
  "the reason of a global stop is not reported in the log", '''
r = run(settings(pulses=[pulse(k=2)], si=3, max_eval=60, FoM_goal=1e5), quad)
check(len(r.values) == 1, "goal stop", len(r.values))
check("Goal FoM reached" in r.log, "the log does not name the reason of the stop")
''')

s("base-overwrite-once", "C07", [(BP, '''        if self.overwrite_base_pulse:
            self.base_pulse = self._get_shaped_pulse()''', '''        if self.overwrite_base_pulse and not np.any(self.base_pulse):
            self.base_pulse = self._get_shaped_pulse()''')],
  "overwrite_base_pulse together with at least two super-iterations",
  "from the second commit on the base pulse is accumulated instead of replaced", '''
from quocslib.Controls import Controls
from quocslib.tools.randomgenerator import RandomNumberGenerator
c = Controls([pulse(k=2, overwrite_base_pulse=True)], [{"time_name": "time1", "initial_value": 1.0}], [], rng=RandomNumberGenerator(seed_number=4))
r = np.random.default_rng(1)
for si in range(4):
    c.select_basis()
    x = r.standard_normal(c.get_control_parameters_number())
    z = np.zeros_like(x)
    before = np.array(c.get_controls_lists(z)[0][0])
    bare = np.array(c.get_controls_lists(x)[0][0]) - before
    c.update_base_controls(x)
    after = np.array(c.get_controls_lists(z)[0][0])
    check(np.allclose(after, bare, atol=1e-9), "base pulse after commit", si)
''')

s("uniform-one-draw", "C09", [("pulses/superparameter/Uniform.py", "            random_array = self.rng.get_random_numbers(k)",
   "            random_array = np.full(k, self.rng.get_random_numbers(1)[0])")],
  "more than one basis vector and a configured seed (the unseeded branch is unaffected)",
  "all super-parameters of one selection sit at the same place of their stratum (perfectly correlated)", '''
from quocslib.pulses.superparameter.Uniform import Uniform
from quocslib.tools.randomgenerator import RandomNumberGenerator
u = Uniform(3, {"lower_limit": 1.0, "upper_limit": 4.0}, rng=RandomNumberGenerator(seed_number=5))
w = []
for _ in range(400):
    u.set_random_super_parameter()
    w.append(np.array(u.w) - np.array([1.0, 2.0, 3.0]))
w = np.array(w)
check(w.min() >= 0 and w.max() <= 1, "strata")
cc = np.corrcoef(w.T)
check(abs(cc[0, 1]) < 0.3 and abs(cc[0, 2]) < 0.3 and abs(cc[1, 2]) < 0.3, "correlated", cc)
''')

s("freq-list-alias", "C09", [(CO, "super_parameter_list.append(list(pulse.super_parameter_distribution_obj.w))",
   "super_parameter_list.append(pulse.super_parameter_distribution_obj.w)")],
  "at least two super-iterations and reading the frequencies of an earlier one from the result",
  "the reported frequencies of all super-iterations are those of the last one", '''
r = run(settings(pulses=[pulse(k=3)], si=3, max_eval=15), quad)
w = [np.array(x[0], dtype=float) for x in r.result["dcrab_freq_list"]]
check(len(w) == 3 and not np.allclose(w[0], w[1]) and not np.allclose(w[1], w[2]), "frequencies repeated", w)
''')

s("late-simplex-unseeded", "C10", [(D, '''                                         rng=self.rng)
        # Initial point''', '''                                         rng=self.rng if self.super_it < 3 else None)
        # Initial point''')],
  "a seeded run with at least three super-iterations",
  "the start simplex of later super-iterations comes from the global random state", '''
runs = []
for g in (1, 2):
    np.random.seed(g)
    runs.append(run(settings(pulses=[pulse(k=2)], si=4, max_eval=14, seed=11), quad, name="r%d" % g))
check(runs[0].values == runs[1].values, "two runs with the same seed differ", len(runs[0].values))
''')

s("goal-absolute", "C11", [(O, "            self.FoM_goal = self.FoM_goal * self.FoM_factor",
   "            self.FoM_goal = abs(self.FoM_goal) * self.FoM_factor")],
  "a goal given as a negative number",
  "a negative goal changes its sign; a minimization of -f with goal -g stops elsewhere than the maximization of f with goal g", '''
a = run(settings(pulses=[pulse(k=2)], si=2, max_eval=40, optimization_direction="maximization", FoM_goal=2.7), lambda c: 3.0 - quad(c))
b = run(settings(pulses=[pulse(k=2)], si=2, max_eval=40, FoM_goal=-2.7), lambda c: quad(c) - 3.0)
check(len(a.values) == len(b.values) and all(same(x, y) for x, y in zip(a.calls, b.calls)), "runs differ", len(a.values), len(b.values))
check(abs(a.result["Figure of merit"] + b.result["Figure of merit"]) < 1e-12, "results differ")
''')

s("nm-contraction-abs", "C12", [(NM, "                    # Perform contraction\n                    if fxr < fsim[-1]:",
   "                    # Perform contraction\n                    if abs(fxr) < abs(fsim[-1]):")],
  "values of both signs or negative values (as in every maximization of a positive figure of merit) reaching a contraction",
  "the side of the contraction depends on the sign of the value: not Nelder-Mead any more", '''
a = run(settings(pulses=[pulse(k=2)], si=1, max_eval=60, optimization_direction="maximization"), lambda c: 3.0 - quad(c))
b = run(settings(pulses=[pulse(k=2)], si=1, max_eval=60), lambda c: 3.0 + quad(c))
check(len(a.values) == len(b.values) and all(same(x, y) for x, y in zip(a.calls, b.calls)), "maximization of 3-f and minimization of 3+f differ")
''')

s("nm-inside-accept", "C12", [(NM, "if fxcc < fsim[-1]:", "if fxcc < fxr:")],
  "an inside contraction whose value lies between the worst vertex and the (even worse) reflected point",
  "inside contractions are accepted although they are not better than the worst vertex, a shrink is skipped", '''
from quocslib.gradientfreemethods.NelderMead import NelderMead
def textbook(f, sim, n):
    """Nelder and Mead with the standard coefficients; returns the values of the evaluated points."""
    out = []
    def F(x):
        out.append(np.array(x)); return f(x)
    v = [F(x) for x in sim]
    while len(out) < n:
        o = np.argsort(v, kind="stable"); sim = sim[o]; v = [v[i] for i in o]
        c = np.mean(sim[:-1], axis=0); xr = 2 * c - sim[-1]; fr = F(xr)
        if fr < v[0]:
            xe = 3 * c - 2 * sim[-1]; fe = F(xe)
            sim[-1], v[-1] = (xe, fe) if fe < fr else (xr, fr)
        elif fr < v[-2]:
            sim[-1], v[-1] = xr, fr
        else:
            if fr < v[-1]:
                x = 1.5 * c - 0.5 * sim[-1]; fx = F(x); ok = fx <= fr
            else:
                x = 0.5 * c + 0.5 * sim[-1]; fx = F(x); ok = fx < v[-1]
            if ok:
                sim[-1], v[-1] = x, fx
            else:
                for j in range(1, len(sim)):
                    sim[j] = sim[0] + 0.5 * (sim[j] - sim[0]); v[j] = F(sim[j])
    return out
for seed in range(60):
    r = np.random.default_rng(seed)
    d = int(r.integers(2, 5)); A = r.standard_normal((d, d))
    f = lambda x: float(np.sum(np.abs(A @ x)) + 0.8 * np.sum(np.cos(7 * x)))
    sim = r.standard_normal((d + 1, d)); got = []
    def g(x, it, **k):
        got.append(np.array(x)); return f(x)
    NelderMead({}, {"max_eval": 80}, callback=lambda: True).run_dsm(g, sim[0], initial_simplex=sim.copy())
    want = textbook(f, sim.copy(), 75)
    check(all(np.allclose(x, y, atol=1e-9) for x, y in zip(got[:75], want[:75])), "points differ", seed)
''')

s("cma-center", "C13", [(CM, "- np.tile(xold, (mu, 1)).T)", "- np.tile(xmean, (mu, 1)).T)")],
  "at least two generations of CMA-ES",
  "the covariance is estimated around the new mean instead of the old one (known to shrink it too early)", '''
from quocslib.gradientfreemethods.CMAES import CMAES
from quocslib.tools.randomgenerator import RandomNumberGenerator
# along a straight slope the covariance update with the OLD mean lengthens the distribution in that direction;
# around the new mean it shrinks there
ratios = []
for seed in range(30):
    o = CMAES({"population": 12}, {"max_eval": 12 * 14}, callback=lambda: True)
    o.rng = RandomNumberGenerator(seed_number=seed)
    pts = []
    with contextlib.redirect_stdout(io.StringIO()):
        o.run_dsm(lambda x, it, **k: (pts.append(np.array(x)), float(x[0]))[1], np.zeros(3), sigma_v=np.ones(3), initial_simplex=np.zeros((4, 3)))
    last = np.array(pts[-24:])
    w = last - np.repeat([last[:12].mean(0), last[12:].mean(0)], 12, axis=0)
    s_ = w.std(0)
    ratios.append(s_[0] / np.mean(s_[1:]))
check(np.median(ratios) > 1.25, "the distribution does not stretch along a slope", np.median(ratios))
''')

s("cbs-window-carry", "C14", [(SC, "        self.curr_FoM_track = []\n", "        self.curr_FoM_track = self.curr_FoM_track[-1:]\n")],
  "the change-based stop with several super-iterations",
  "the first values of a super-iteration are fitted together with the last value of the one before", '''
def f(c):
    return 5.0 if c["n"] < 9 else 5.0 - 1e-4 * c["n"]
r = run(settings(pulses=[pulse(k=1)], si=2, max_eval=500, sc={"change_based_stop": {"cbs_funct_evals": 6, "cbs_change": 1e-9}}), lambda c: 1.0)
n = len(r.values)
r2 = run(settings(pulses=[pulse(k=1)], si=1, max_eval=500, sc={"change_based_stop": {"cbs_funct_evals": 6, "cbs_change": 1e-9}}), lambda c: 1.0)
check(n == 2 * len(r2.values), "two super-iterations take", n, "evaluations, one takes", len(r2.values))
''')

s("simplex-size-signed", "C14", [(SC, "if np.max(np.ravel(np.abs(sim[1:] - sim[0]))) <= self.xatol:",
   "if np.max(np.ravel(sim[1:] - sim[0])) <= self.xatol:")],
  "a simplex whose other vertices all lie on the negative side of the best one in every coordinate",
  "a large simplex counts as converged", '''
from quocslib.gradientfreemethods.NelderMead import NelderMead
sim = np.array([[0.0, 0.0], [-1.0, -0.2], [-0.3, -1.0]])
got = []
f = lambda x: float(np.sum(np.abs(x)) + 50 * np.sum(np.maximum(x, 0)))
res = NelderMead({}, {"max_eval": 40, "xatol": 1e-6}, callback=lambda: True).run_dsm(
    lambda x, it, **k: (got.append(1), f(x))[1], sim[0], initial_simplex=sim.copy())
check(len(got) > 10, "ended after", len(got), "evaluations with a simplex of size one", res["terminate_reason"])
''')

s("re-sigma-min", "C15", [(D, "                    self.best_sigma, self.best_FoM = sigma_1, mu_1",
   "                    self.best_sigma, self.best_FoM = min(sigma_1, self.sigma_test[0]), mu_1")],
  "re-evaluation with standard deviations that vary between the evaluations of the same controls",
  "the record keeps a too small deviation, later probability tests use it", '''
STD = [0.1, 0.9, 0.2, 0.8, 0.3, 0.7, 0.15, 0.85]
r = run(settings(pulses=[pulse(k=2)], si=1, max_eval=1, seed=3, re_evaluation={"re_evaluation_steps": [0.1, 0.2, 0.3]}, max_eval_total=12),
        lambda c: {"FoM": 10.0 - c["n"], "std": STD[c["n"] % 8]})
# the first evaluation needs one repetition, every following candidate three; every candidate is better and becomes the record
groups, k = [], 0
for i, c in enumerate(r.calls):
    if groups and same(r.calls[groups[-1][-1]], c, 0):
        groups[-1].append(i)
    else:
        groups.append([i])
done = [g for j, g in enumerate(groups) if len(g) == (2 if j == 0 else 4)]
want = np.mean([STD[i % 8] for i in done[-1]])
check(abs(r.result["Std"] - want) < 1e-9, "deviation of the record", r.result["Std"], want)
''')

s("drift-shift-up", "C16", [(NM, "fsim[i] = fsim[i] + (fsim[0] - prev_FoM)",
   "fsim[i] = fsim[i] + (fsim[0] - prev_FoM) if fsim[0] > prev_FoM else fsim[i]")],
  "periodic drift compensation within a Nelder-Mead search and a drift towards better values",
  "the values of the other vertices are only shifted when the best one got worse", '''
import datetime as dt
from quocslib.gradientfreemethods import NelderMead as mod
class Clock(dt.datetime):
    t = 0.0
    @classmethod
    def now(cls, tz=None):
        return dt.datetime(2024, 1, 1) + dt.timedelta(seconds=cls.t)
mod.datetime = Clock
import quocslib.stoppingcriteria.StoppingCriteria as sc
sc.datetime = Clock
def trial(drift):
    Clock.t, pts, off = 0.0, [], [0.0]
    def g(x, it, new=None):
        if new is not None:
            return new
        Clock.t += 7.0
        # the landscape moves as a whole right before the best point is measured again for the compensation
        if not off[0] and any(np.array_equal(x, p) for p in pts):
            off[0] = 1.0
        pts.append(np.array(x))
        return float(np.sum((x - 0.4) ** 2) + 0.5 * np.sum(x ** 4) + drift * off[0])
    sim = np.array([[0.0, 0.0, 0.0], [1.0, 0.1, 0.0], [0.0, 1.2, 0.3], [0.2, 0.0, 0.9]])
    mod.NelderMead({}, {"max_eval": 40}, callback=lambda: True).run_dsm(g, sim[0], initial_simplex=sim.copy(), drift_comp_minutes=1.0)
    return pts
a, b, c = trial(0.0), trial(-0.5), trial(0.5)
# with the compensation the values of all vertices move along: the same points have to be evaluated
check(len(a) > 20 and any(np.array_equal(a[i], a[j]) for i in range(len(a)) for j in range(i)), "no compensation")
check(len(a) == len(c) and all(np.allclose(x, y) for x, y in zip(a, c)), "drift upwards changes the search")
check(len(a) == len(b) and all(np.allclose(x, y) for x, y in zip(a, b)), "drift downwards changes the search")
''')

s("simplex-scale-side", "C17", [("tools/linearalgebra.py", "simplex_matrix_orthonormal @ np.diag(sigma_variation)",
   "np.diag(sigma_variation) @ simplex_matrix_orthonormal")],
  "controls with different amplitude variations",
  "the start simplex scales vertices instead of coordinates by the amplitude variations", '''
from quocslib.tools.linearalgebra import simplex_creation
from quocslib.tools.randomgenerator import RandomNumberGenerator
sg = np.array([0.1, 5.0, 1.0, 30.0])
x = np.array([1.0, -2.0, 0.0, 4.0])
m = np.array(simplex_creation(x, sg, rng=RandomNumberGenerator(seed_number=2)))
check(np.allclose(m[0], x), "first vertex")
q = (m[1:] - x) / sg
check(np.allclose(q @ q.T, np.eye(4), atol=1e-9), "scaled start simplex is not orthonormal")
''')

s("param-variation-first", "C18", [(CO, "= parameter.amplitude_variation\n        # Times", "= self.parameter_objs_list[0].amplitude_variation\n        # Times")],
  "at least two parameters with different amplitude variations",
  "all parameters start with the amplitude variation of the first one", '''
from quocslib.Controls import Controls
from quocslib.tools.randomgenerator import RandomNumberGenerator
c = Controls([pulse(k=1, amp=0.3)], [{"time_name": "time1", "initial_value": 1.0}], [param("a", amp=0.5), param("b", amp=0.02), param("c", amp=3.0)],
             rng=RandomNumberGenerator(seed_number=1))
c.select_basis()
check(np.allclose(c.get_sigma_variation()[-3:], [0.5, 0.02, 3.0]), c.get_sigma_variation())
''')

s("observer-failed", "C19",
  [(C, '''            self.he_obj.is_user_running = False
            return
        self._print_general_log(iteration_number, FoM)''', '''            self.he_obj.is_user_running = False
        self._print_general_log(iteration_number, FoM)''')],
  "an observer attached to the run and an evaluation which reports an error status",
  "the value of a failed evaluation is shown to the observers as if it had been a result", '''
from quocslib.Optimizer import Optimizer
class Signal:
    def __init__(self): self.got = []
    def emit(self, *a): self.got.append(a)
sig = [Signal(), Signal(), Signal()]
fom = FoM(lambda c: {"FoM": 0.5, "status_code": 1} if c["n"] == 4 else quad(c))
o = settings(pulses=[pulse(k=2)], si=1, max_eval=20)
o["optimization_client_name"] = "sig"
with contextlib.redirect_stdout(io.StringIO()):
    op = Optimizer(o, fom, comm_signals_list=sig)
    op.execute()
check(len(fom.calls) == 5, "evaluations", len(fom.calls))
best = [x for x in sig if any(len(a) == 2 and isinstance(a[0], int) for a in x.got)]
check(best and len(best[0].got) == 4, "values shown", [len(x.got) for x in sig])
''')

s("grape-costate", "C20", [(G, "                corho_store[t] = U.T.conj() @ corho_store[t + 1] @ U\n",
   "                corho_store[t] = U.conj() @ corho_store[t + 1] @ U.T\n")],
  "Hamiltonians whose propagators are not symmetric matrices (any sigma_y component)",
  "the backward propagation uses the transposed propagators: the gradient is wrong", '''
from scipy.linalg import expm
rng = np.random.default_rng(5)
def herm(d):
    a = rng.standard_normal((d, d)) + 1j * rng.standard_normal((d, d)); return (a + a.conj().T) / 2
def pure(d):
    v = rng.standard_normal(d) + 1j * rng.standard_normal(d); v /= np.linalg.norm(v); return np.outer(v, v.conj())
d, n, T = 3, 400, 1.0
H0, H1, r0, rT = herm(d), herm(d), pure(d), pure(d)
class P:
    def get_propagator(self, pulses_list=None, time_grids_list=None, parameters_list=None):
        return [expm(-1j * T / n * (H0 + u * H1)) for u in pulses_list[0]]
    get_initial_state = lambda self: r0
    get_target_state = lambda self: rT
    get_drift_Hamiltonian = lambda self: H0
    get_control_Hamiltonians = lambda self: H1
    def get_FoM(self, pulses=[], parameters=[], timegrids=[]):
        r = r0
        for U in self.get_propagator(pulses): r = U @ r @ U.conj().T
        return {"FoM": -float(np.real(np.trace(rT @ r)))}
from quocslib.Optimizer import Optimizer
import copy
p = P()
o = {"optimization_client_name": "g", "algorithm_settings": {"algorithm_name": "GRAPE", "random_number_generator": {"seed_number": 1},
     "stopping_criteria": {"max_eval_total": 2}}, "parameters": [], "times": [{"time_name": "time1", "initial_value": T}],
     "pulses": [{"pulse_name": "P", "upper_limit": 1e3, "lower_limit": -1e3, "bins_number": n, "amplitude_variation": 1.0, "time_name": "time1",
                 "basis": {"basis_name": "PiecewiseBasis", "bins_number": n}}]}
with contextlib.redirect_stdout(io.StringIO()):
    g = Optimizer(o, p).get_optimization_algorithm()
x = np.sin(np.arange(n) / 40.0)
grad = np.array(g.get_gradient(x)).ravel()
num = []
for i in (0, 133, 399):
    e = np.zeros(n); e[i] = 1e-3
    num.append((p.get_FoM([x + e])["FoM"] - p.get_FoM([x - e])["FoM"]) / 2e-3)
check(np.allclose(grad[[0, 133, 399]], num, rtol=0.1, atol=1e-5), "gradient", grad[[0, 133, 399]], num)
''')

s("ad-jit-once", "C21", [(A, "            return np.array(jax.jit(jax.grad(self.get_gradient))(x))",
   '''            if not hasattr(self, "_grad_func"):
                self._grad_func = jax.jit(jax.grad(self.get_gradient))
            return np.array(self._grad_func(x))''')],
  "automatic differentiation with more than one super-iteration (new basis, new base pulse)",
  "from the second super-iteration on the gradient is that of the compiled function of the first one", '''
import jax, scipy.optimize
import jax.numpy as jnp
from quocslib.optimizationalgorithms import ADAlgorithm as mod
bad = []
orig = mod.optimize.minimize
si = [0]
def spy(fun, x0, jac=None, **k):
    si[0] += 1
    x = np.array(x0, dtype=float) + 0.05
    g = np.array(jac(x), dtype=float)
    for i in range(len(x)):
        e = np.zeros(len(x)); e[i] = 1e-2
        num = (float(alg.get_gradient(x + e)) - float(alg.get_gradient(x - e))) / 2e-2
        if abs(num - g[i]) > 0.02 * max(1, abs(num)):
            bad.append((si[0], i, num, g[i]))
    return orig(fun, x0, jac=jac, **k)
class P:
    def get_FoM(self, pulses=[], parameters=[], timegrids=[]):
        u = jnp.real(pulses[0][:8])
        return {"FoM": jnp.sum((u - jnp.cos(1.0 * jnp.arange(8))) ** 2) / 8}
from quocslib.Optimizer import Optimizer
o = {"optimization_client_name": "a", "algorithm_settings": {"algorithm_name": "AD", "super_iteration_number": 3, "random_number_generator": {"seed_number": 1},
     "stopping_criteria": {"max_eval_total": 4}}, "parameters": [], "times": [{"time_name": "time1", "initial_value": 1.0}],
     "pulses": [pulse("P", k=1, bins=8, wl=0.2, wu=4.0, initial_guess={"function_type": "lambda_function", "lambda_function": "lambda t: 0.1 + 0.0*t"},
                      scaling_function={"function_type": "lambda_function", "lambda_function": "lambda t: 1.0 + 0.0*t"})]}
mod.optimize.minimize = spy
with contextlib.redirect_stdout(io.StringIO()):
    op = Optimizer(o, P()); alg = op.get_optimization_algorithm(); op.execute()
check(si[0] == 3 and not bad, "gradient differs", bad[:3])
''')

s("evolution-third-control", "C22", [("timeevolution/piecewise_integrator.py", '''        for k in range(K):
            H = H + drive[k, i] * B[k]
        U_store[i] =''', '''        for k in range(min(K, 2)):
            H = H + drive[k, i] * B[k]
        U_store[i] =''')],
  "three or more control Hamiltonians",
  "control fields beyond the second are dropped from the stored propagators", '''
from scipy.linalg import expm
from quocslib.timeevolution.piecewise_integrator import pw_evolution
r = np.random.default_rng(2)
h = lambda: (lambda a: a + a.conj().T)(r.standard_normal((3, 3)) + 1j * r.standard_normal((3, 3)))
for K in (1, 2, 3, 4):
    A, B, u, n, dt = h(), [h() for _ in range(K)], r.standard_normal((K, 5)), 5, 0.1
    st = np.zeros((n, 3, 3), dtype=complex)
    out = pw_evolution(st, u, A, B, n, dt)
    st = np.array(out) if out is not None else st
    for i in range(n):
        check(np.allclose(st[i], expm(-1j * dt * (A + sum(u[k, i] * B[k] for k in range(K)))), atol=1e-9), "slice", i, "controls", K)
''')

s("qubit-noise-law", "C23", [("optimalcontrolproblems/OneQubitProblem.py", "noise = (self.noise_factor * 2 * (0.5 - np.random.rand(1)[0]))",
   "noise = (self.noise_factor * 2 * (0.5 - np.random.rand(1)[0] * np.random.rand(1)[0]))")],
  "the noisy one-qubit problem, seen over many evaluations",
  "the noise is not symmetric: its mean is shifted by half the noise factor", '''
from quocslib.optimalcontrolproblems.OneQubitProblem import OneQubit
np.random.seed(1)
t = np.linspace(0, 2, 41)
clean = OneQubit({}).get_FoM([np.sin(t)], [], [t])["FoM"]
q = OneQubit({"is_noisy": True, "noise_factor": 0.1})
v = np.array([q.get_FoM([np.sin(t)], [], [t])["FoM"] for _ in range(400)]) - clean
check(np.abs(v).max() <= 0.1 + 1e-12 and abs(v.mean()) < 0.02, "noise", v.mean(), np.abs(v).max())
''')

s("answer-removed-late", "C24", [("utils/FilesUpdateFom.py", '''        if os.path.exists(self.FoM_path):
            os.remove(self.FoM_path)
        # Write the pulses into a file or multiple files
        # TODO Multiple files extension
        print("Putting controls in {0}".format(self.controls_path))
        self.put_controls_into_user_path(pulses, timegrids, parameters)
''', '''        # Write the pulses into a file or multiple files
        # TODO Multiple files extension
        print("Putting controls in {0}".format(self.controls_path))
        self.put_controls_into_user_path(pulses, timegrids, parameters)
        if os.path.exists(self.FoM_path):
            os.remove(self.FoM_path)
''')],
  "an experiment which answers right after the controls have been written",
  "the answer to the current controls is deleted as if it were an old one and the evaluation ends as a timeout", '''
import builtins, threading, time
from quocslib.utils.FilesUpdateFom import FilesUpdateFoM
import inspect
f = FilesUpdateFoM(**{k: v for k, v in {"file_extension": "json", "file_path": WORK, "FoM_path": WORK, "max_time": 3.0, "lag_time": 0.05,
                                        "controls_path": None, "FoM_file_name": None}.items() if k in ("file_extension", "max_time", "lag_time")
                      and k in inspect.signature(FilesUpdateFoM.__init__).parameters})
put = f.put_controls_into_user_path
def fast(*a, **k):
    put(*a, **k)
    with open(f.FoM_path + "_tmp", "w") as h:      # a very fast experiment: the answer is there at once
        h.write("0.25\\n")
    os.replace(f.FoM_path + "_tmp", f.FoM_path)
f.put_controls_into_user_path = fast
t = np.linspace(0, 1, 5)
res = {}
def call():
    with contextlib.redirect_stdout(io.StringIO()):
        res.update(f.get_FoM([np.sin(t)], [t], [0.5]))
th = threading.Thread(target=call, daemon=True); th.start(); th.join(20)
check(res.get("FoM") == 0.25, "the answer got lost", res)
''')

s("same-name-params", "C25", [(BD, "            controls_dict[param_name] = parameter\n", "            controls_dict[parameter_names[parameter_index]] = parameter\n")],
  "two parameters with the same name (or a parameter named like a pulse)",
  "one of the controls is missing in the saved file", '''
r = run(settings(pulses=[pulse("X")], params=[param("X", init=0.5), param("Y", init=-0.5), param("Y", init=0.9)], si=1, max_eval=8), quad)
d = np.load(glob.glob(os.path.join(r.folder, "*_best_controls.npz"))[0], allow_pickle=True)
b = min(range(len(r.values)), key=lambda i: r.values[i])
vals = [float(d[k]) for k in d.files if np.shape(d[k]) == () and d[k].dtype.kind == "f"]
for q in r.calls[b]["parameters"]:
    check(any(v == q for v in vals), "parameter not saved", q, d.files)
check(any(np.shape(d[k]) == (21,) and np.array_equal(d[k], r.calls[b]["pulses"][0]) for k in d.files), "pulse not saved")
''')

s("ou-small-step", "C26", [("noiseprocesses/ornsteinuhlenbeckprocess.py", "(1 - np.exp(-2 / self.tau * self.dt))",
   "(2 / self.tau * self.dt)")],
  "time steps which are not small against the correlation time",
  "the innovations of the Ornstein-Uhlenbeck noise have the variance of the small-step limit", '''
from quocslib.noiseprocesses.ornsteinuhlenbeckprocess import OrnsteinUhlenbeck
np.random.seed(3)
for tau, c, dt in ((1.0, 2.0, 0.01), (0.5, 1.0, 0.5), (0.2, 3.0, 0.3)):
    x = OrnsteinUhlenbeck(tau=tau, c=c, x0=0.0, dt=dt).get_noise_realization(dt * 20000)
    inn = x[1:] - x[:-1] * np.exp(-dt / tau)
    want = c * tau / 2 * (1 - np.exp(-2 * dt / tau))
    check(abs(np.var(inn) / want - 1) < 0.08, "variance", np.var(inn), want)
''')

s("displace-phase", "C27", [("tools/operations.py", "D = jsp.linalg.expm(alpha * a_dag - jnp.conj(alpha) * a)",
   "D = jsp.linalg.expm(alpha * a_dag - alpha * a)")],
  "a displacement with an imaginary part",
  "the displacement operator is not unitary for complex amplitudes", '''
from quocslib.tools import operations as op
a = np.diag(np.sqrt(np.arange(1, 24)), 1).astype(complex)
for alpha in (0.7, 0.5j, 0.4 + 0.6j):
    d = np.array(op._displace(a, alpha))
    check(np.allclose((d.conj().T @ d)[:6, :6], np.eye(6), atol=1e-4), "displacement is not unitary", alpha)
    check(abs((d.conj().T @ a @ d)[0, 0] - alpha) < 1e-3, "mean", alpha)
''')

s("commit-wrong-time", "C08", [(CO, """            pulse.set_base_pulse(optimized_parameters_vector[pulse.control_parameters_list],
                                 final_time=self.times_obj_dictionary[time_name].get_time())""",
"""            pulse.set_base_pulse(optimized_parameters_vector[pulse.control_parameters_list],
                                 final_time=time.get_time())""")],
  "two pulses with different final times (and a basis which does not scale with the final time) and at least two super-iterations",
  "the base pulse is committed with the final time of another pulse: later super-iterations do not start from the best controls", """
r = run(settings(pulses=[pulse("A", "Sinc", k=2, wl=0.0, wu=1.0), pulse("B", "Sinc", k=1, wl=0.0, wu=2.5, time="time2")], T=(1.0, 2.5), si=3, max_eval=25), quad)
b = min(range(len(r.values)), key=lambda i: r.values[i])
check(same(r.best, r.calls[b]), "returned best controls are not those of the best evaluation")
""")

s("saved-first-grid", "C03", [(BD, "            controls_dict[time_name] = time_grid\n", "            controls_dict[time_name] = timegrids[0]\n")],
  "pulses with different final times or numbers of samples, and reading the time grid of the second one from the file",
  "the saved time grids are all those of the first pulse", """
r = run(settings(pulses=[pulse("A"), pulse("B", bins=15, time="time2")], T=(1.0, 2.5), si=1, max_eval=10), quad)
d = np.load(glob.glob(os.path.join(r.folder, "*_best_controls.npz"))[0], allow_pickle=True)
b = min(range(len(r.values)), key=lambda i: r.values[i])
for i, n in enumerate("AB"):
    check(np.array_equal(d[n], r.calls[b]["pulses"][i]), "pulse", n)
    check(np.array_equal(d["time_grid_for_" + n], r.calls[b]["timegrids"][i]), "time grid", n)
""")

s("limit-before-scaling", "C06", [(BP, """                                    self.scale_pulse,
                                    self.limit_pulse]""", """                                    self.limit_pulse,
                                    self.scale_pulse]""")],
  "a scaling function with values above one (or offset limits and values below one) and an active limit",
  "pulses are limited before the scaling, so they leave the limits", """
for scale in ("lambda t: 1.0 + 0.5*np.sin(3.0*t)", "lambda t: 0.2 + 0.0*t"):
    r = run(settings(pulses=[pulse(k=2, lo=0.2, hi=0.9, amp=4.0, initial_guess={"function_type": "lambda_function", "lambda_function": "lambda t: 0.6 + 0.0*t"},
                                   scaling_function={"function_type": "lambda_function", "lambda_function": scale})], si=2, max_eval=25), quad)
    for c in r.calls:
        u = c["pulses"][0]
        check(u.min() >= 0.2 - 1e-9 and u.max() <= 0.9 + 1e-9, "limits", u.min(), u.max())
""")

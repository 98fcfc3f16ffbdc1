"""Helpers of the demonstrations: run the library of the current directory in a scratch folder."""
import atexit, contextlib, glob, io, json, os, shutil, sys, tempfile

REPO = os.getcwd()
sys.path.insert(0, os.path.join(REPO, "src"))
sys.dont_write_bytecode = True
WORK = tempfile.mkdtemp(prefix="demo")
atexit.register(shutil.rmtree, WORK, True)
os.chdir(WORK)
import numpy as np
import quocslib
assert os.path.abspath(quocslib.__file__).startswith(os.path.abspath(REPO) + os.sep), quocslib.__file__


class FoM:
    """Figure of merit object recording every call (copies) and its answer."""

    def __init__(self, f):
        self.f, self.calls = f, []

    def get_FoM(self, pulses=[], parameters=[], timegrids=[]):
        c = {"pulses": [np.array(p) for p in pulses], "parameters": [float(np.real(q)) for q in parameters],
             "timegrids": [np.array(t) for t in timegrids], "n": len(self.calls)}
        self.calls.append(c)
        r = self.f(c)
        c["out"] = dict(r) if isinstance(r, dict) else {"FoM": r}
        return dict(c["out"])


COUNT = [0]


class Run:
    """One finished optimization: calls, folder, results."""


def run(opt, f, name="demo", quiet=True, prepare=None, fom=None):
    from quocslib.Optimizer import Optimizer
    r = Run()
    r.fom = fom or FoM(f)
    COUNT[0] += 1
    opt.setdefault("optimization_client_name", "%s%d" % (name, COUNT[0]))
    opt.setdefault("create_logfile", True)
    out = io.StringIO()
    with contextlib.redirect_stdout(out if quiet else sys.stdout):
        r.opt = Optimizer(opt, r.fom)
        if prepare:
            prepare(r)
        r.opt.execute()
    r.alg = r.opt.get_optimization_algorithm()
    r.folder = r.opt.results_path
    r.calls = getattr(r.fom, "calls", [])
    r.values = [c["out"]["FoM"] for c in r.calls if "out" in c]
    p = glob.glob(os.path.join(r.folder, "*_optimized_parameters.json"))
    r.result = json.load(open(p[0])) if p else None
    p = glob.glob(os.path.join(r.folder, "*_logging.log"))
    r.log = open(p[0]).read() if p else ""
    r.best = r.alg.get_best_controls()
    return r


def same(a, b, tol=1e-9):
    """Do two sets of controls agree?"""
    return (len(a["pulses"]) == len(b["pulses"]) and len(a["parameters"]) == len(b["parameters"]) and
            all(np.shape(x) == np.shape(y) and np.allclose(x, y, rtol=0, atol=tol) for x, y in zip(a["pulses"], b["pulses"])) and
            np.allclose(np.array(a["parameters"], dtype=float), np.array(b["parameters"], dtype=float), rtol=0, atol=tol))


def pulse(name="P1", basis="Fourier", k=1, lo=-30.0, hi=30.0, bins=21, time="time1", amp=1.0, wl=0.1, wu=5.0, **kw):
    b = {"basis_name": basis}
    if basis != "PiecewiseBasis":
        b.update(basis_vector_number=k, random_super_parameter_distribution={
            "distribution_name": "Uniform", "lower_limit": wl, "upper_limit": wu})
    d = {"pulse_name": name, "lower_limit": lo, "upper_limit": hi, "bins_number": bins, "time_name": time,
         "amplitude_variation": amp, "basis": b}
    d.update(kw)
    return d


def param(name="Q1", lo=-3.0, hi=3.0, init=0.5, amp=0.4):
    return {"parameter_name": name, "lower_limit": lo, "upper_limit": hi, "initial_value": init, "amplitude_variation": amp}


def settings(alg="dCRAB", dsm="NelderMead", pulses=None, params=None, T=(1.0,), si=2, max_eval=40, seed=7, sc=None, gen=None, **alg_kw):
    a = {"algorithm_name": alg, "dsm_settings": {
        "general_settings": dict({"dsm_algorithm_name": dsm}, **(gen or {})),
        "stopping_criteria": dict({"max_eval": max_eval}, **(sc or {}))}}
    if alg == "dCRAB":
        a["super_iteration_number"] = si
    if seed is not None:
        a["random_number_generator"] = {"seed_number": seed}
    a.update(alg_kw)
    return {"algorithm_settings": a, "pulses": [pulse()] if pulses is None else pulses, "parameters": params or [],
            "times": [{"time_name": "time%d" % (i + 1), "initial_value": t} for i, t in enumerate(T)]}


def quad(c):
    """A smooth test figure of merit (minimum 0) of all controls."""
    s = 0.0
    for i, (p, t) in enumerate(zip(c["pulses"], c["timegrids"])):
        s += float(np.mean((p - np.sin(2 + i + 3 * t / t[-1])) ** 2))
    for i, q in enumerate(c["parameters"]):
        s += (q - 0.3 * (i + 1)) ** 2
    return s


def check(ok, *what):
    if not ok:
        print("FAILED:", *what)
        sys.exit(1)

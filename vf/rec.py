"""Instrumentation of real QuOCS runs: recording figure of merit, observer signals and exit handle.

Everything is observed at the public boundary: the FoM object the user passes in, the three signals of the GUI
interface, the handle-exit object, the files of the results folder and the getters of the algorithm object.
"""
import copy
import glob
import json
import math
import os
import re
import traceback

import numpy as np

from .core import Runaway

_SERIAL = [0]
EVAL_CAP = 4000
READ_CAP = 200000


def arr(x):
    return np.array(x, copy=True)


class Trace:
    def __init__(self, cfg):
        self.cfg = cfg
        self.evals = []          # dicts: pulses, timegrids, parameters, ret, fom, status, n
        self.log = []            # (kind, payload) in order
        self.error = None        # exception text if the run raised
        self.error_type = None
        self.opt = None
        self.alg = None
        self.folder = None
        self.he = None
        self.phase = "new"

    # ---- results -------------------------------------------------------------------------------------------------
    @property
    def sign(self):
        d = self.cfg["opt"]["algorithm_settings"].get("optimization_direction", "minimization")
        return -1.0 if d == "maximization" else 1.0

    def valid(self):
        """Evaluations which delivered a figure of merit."""
        return [e for e in self.evals if e["status"] == 0 and e["fom"] is not None]

    def best_value(self):
        v = [self.sign * e["fom"] for e in self.valid() if e["fom"] == e["fom"]]
        return self.sign * min(v) if v else None

    def file(self, suffix):
        hits = [p for p in glob.glob(os.path.join(glob.escape(self.folder), "*")) if p.endswith(suffix)]
        return hits[0] if hits else None

    def final(self):
        p = self.file("optimized_parameters.json")
        if p is None:
            return None
        with open(p) as f:
            return json.load(f)

    def saved(self):
        return read_controls(self.folder)

    def logtext(self):
        p = self.file("_logging.log")
        return open(p).read() if p else ""

    def log_reason(self):
        m = re.findall(r"Termination Reason : (.*)", self.logtext())
        return m[-1].strip() if m else None

    def best_controls(self):
        return self.alg.get_best_controls()


def read_controls(folder):
    """The saved best controls as {key: array}, None if there is no file yet."""
    for p in sorted(glob.glob(os.path.join(glob.escape(folder), "*best_controls.*"))):
        if p.endswith(".npz"):
            with np.load(p, allow_pickle=False) as z:
                return {k: np.array(z[k]) for k in z.files}
        if p.endswith(".json"):
            with open(p) as f:
                return {k: np.array(v) for k, v in json.load(f).items()}
    return None


class Fom:
    """Deterministic figure of merit described by a JSON spec (see gen.fom_spec)."""

    def __init__(self, spec):
        self.s = dict(spec)
        self.n = 0
        self.r = np.random.default_rng(self.s.get("seed", 0))
        self.pt = self.r.uniform(-1, 1, size=(6, 4))
        self.qt = self.r.uniform(0, 1, size=8)

    def base(self, pulses, timegrids, parameters):
        s = self.s
        kind = s.get("kind", "quad")
        if kind == "const":
            return float(s.get("value", 1.0))
        v = 0.0
        for i, p in enumerate(pulses):
            a, b, c, d = self.pt[i % 6]
            p = np.asarray(p, dtype=float) / s.get("unit", 1.0)
            u = np.linspace(0, 1, len(p))
            tgt = s.get("amp", 1.0) * (a + b * np.sin(3 * u + c) + d * u)
            v += float(np.mean((p - tgt) ** 2))
        pr = s.get("prange", [])
        for i, q in enumerate(parameters):
            lo, hi = pr[i] if i < len(pr) else (0.0, 1.0)
            tgt = lo + (hi - lo) * self.qt[i % 8]
            v += (i + 1) * float((float(q) - tgt) ** 2)
        if kind == "rugged":
            x = sum(float(np.sum(np.sin(17.3 * np.asarray(p, dtype=float) / s.get("unit", 1.0) + i))) for i, p in enumerate(pulses))
            x += sum(math.sin(31.7 * float(q) + i) for i, q in enumerate(parameters))
            v = v + 0.3 * math.sin(x) + 0.1 * math.cos(5 * x)
        return v

    def __call__(self, pulses, timegrids, parameters):
        s = self.s
        n = self.n
        self.n += 1
        if s.get("kind") == "seq":
            v = s["values"][n % len(s["values"])]
        else:
            v = self.base(pulses, timegrids, parameters)
            v = s.get("gain", 1.0) * v + s.get("offset", 0.0)
            if s.get("quant"):
                v = math.floor(v / s["quant"]) * s["quant"]
            if s.get("noise"):
                v += s["noise"] * float(np.random.default_rng([s.get("seed", 0), n]).standard_normal())
            if s.get("drift"):
                v += s["drift"] * n
            if s.get("flip"):
                v = -v
        out = {}
        spec = s.get("special", {}).get(str(n))
        if spec == "nan":
            v = float("nan")
        elif spec == "inf":
            v = float("inf")
        elif spec == "-inf":
            v = float("-inf")
        elif isinstance(spec, (int, float)):
            v = float(spec)
        t = s.get("ret", "float")
        if t == "np64":
            v = np.float64(v)
        elif t == "np32":
            v = np.float32(v)
        elif t == "int":
            v = int(round(v * 1000)) if v == v and abs(v) < 1e300 else v
        elif t in ("count", "count16"):      # what a detector returns: numpy integers, unsigned if possible
            if v == v and abs(v) < 1e300:
                v = int(round(v * 1000))
                if t == "count":
                    v = np.uint64(v) if 0 <= v < 2 ** 63 else np.int64(max(min(v, 2 ** 62), -2 ** 62))
                else:
                    v = max(min(int(v / 10), 32767), -32767)
                    v = np.uint16(v) if v >= 0 else np.int16(v)
        elif t == "arr0":
            v = np.array(v)
        out["FoM"] = v
        std = s.get("std")
        if std == "zeros":       # exact answers between noisy ones
            std = "rand" if np.random.default_rng([s.get("seed", 0), 8, n]).uniform() < 0.6 else 0.0
        if std is not None:
            if std == "rand":
                out["std"] = float(np.random.default_rng([s.get("seed", 0), 7, n]).uniform(0.01, 0.5))
            else:
                out["std"] = float(std)
        st = s.get("status", {}).get(str(n))
        if st is not None:
            out["status_code"] = st[0]
            out["FoM"] = st[1] if len(st) > 1 else None
        elif s.get("status_zero"):
            out["status_code"] = 0
        if s.get("extra"):
            out["comment"] = "n%d" % n
        return out


class Signal:
    def __init__(self, trace, kind, hook=None):
        self.trace, self.kind, self.hook = trace, kind, hook

    def emit(self, *a):
        if self.kind == "ctrl":
            payload = {"pulses": [arr(p) for p in a[0]], "timegrids": [arr(p) for p in a[1]],
                       "parameters": [float(np.real(x)) for x in a[2]]}
        elif self.kind == "plot":
            payload = {"n": a[0], "fom": float(a[1])}
        else:
            payload = {"msg": a[0] if a else None}
        self.trace.log.append((self.kind, payload))
        if self.hook is not None:
            self.hook(self.trace, self.kind, payload)


def make_handle(trace, hook=None):
    from quocslib.handleexit.AbstractHandleExit import AbstractHandleExit

    class Handle(AbstractHandleExit):
        def __init__(self):
            self._v = True
            self.reads = 0
            self.sets = []

        @property
        def is_user_running(self):
            self.reads += 1
            if self.reads > READ_CAP:
                raise Runaway("exit handle read %d times, %d evaluations" % (self.reads, len(trace.evals)))
            return self._v

        @is_user_running.setter
        def is_user_running(self, v):
            self.sets.append((len(trace.evals), bool(v)))
            trace.log.append(("set", {"v": bool(v)}))
            self._v = v

        def set_is_user_running(self, is_running):
            self.is_user_running = is_running

    return Handle()


def make_fom(trace, spec, hook=None, cap=EVAL_CAP, extra=None, record=True):
    """A FoM object for the optimizer which logs every call. hook(trace, kind, payload) sees 'call' and 'ret'."""
    from quocslib.utils.AbstractFoM import AbstractFoM
    fn = spec if callable(spec) else Fom(spec)

    class Rec(AbstractFoM):
        def get_FoM(self, pulses=None, parameters=None, timegrids=None, **kw):
            if len(trace.evals) >= cap:
                raise Runaway("more than %d evaluations" % cap)
            e = {"n": len(trace.evals), "pulses": [arr(p) for p in pulses], "timegrids": [arr(t) for t in timegrids],
                 "parameters": [float(np.real(q)) for q in parameters], "fom": None, "status": 0, "ret": None,
                 "extra_kw": sorted(kw)}
            trace.evals.append(e)
            trace.log.append(("call", {"n": e["n"]}))
            if hook is not None:
                hook(trace, "call", e)
            out = fn(pulses, timegrids, parameters)
            e["ret"] = dict(out)
            e["status"] = out.get("status_code", 0)
            e["fom"] = None if out.get("FoM") is None or e["status"] != 0 else float(out["FoM"])
            e["std"] = out.get("std")
            e["ret_obj"] = out
            trace.log.append(("ret", {"n": e["n"]}))
            if hook is not None:
                hook(trace, "ret", e)
            return out

    obj = Rec()
    for k, v in (extra or {}).items():
        setattr(obj, k, v)
    return obj


def prepare(cfg):
    """Private copy of the optimization dictionary with a unique run name; writes the helper files into cwd."""
    d = copy.deepcopy(cfg["opt"])
    _SERIAL[0] += 1
    d.setdefault("optimization_client_name", "vf%d" % _SERIAL[0])
    d.setdefault("use_microsecond_name", True)
    d.setdefault("console_info", False)
    for name, text in cfg.get("files", {}).items():
        with open(name, "w") as f:
            f.write(text)
    for p in d["pulses"]:
        for key in ("initial_guess", "scaling_function"):
            fd = p.get(key)
            if isinstance(fd, dict) and fd.pop("vf_abs", False):
                fd["file_path"] = os.path.abspath(fd["file_path"])
    return d


def run(cfg, hook=None, signals=True, execute=True, cap=EVAL_CAP, fom=None, np_seed=None, d=None, trace=None,
        handle=True, close=True):
    tr = trace or Trace(cfg)
    from quocslib.Optimizer import Optimizer
    if np_seed is None:
        np_seed = cfg.get("np_seed", 12345)
    if np_seed is not False:
        np.random.seed(np_seed)
    if d is None:
        d = prepare(cfg)
    tr.dict = d
    tr.he = (None if cfg.get("default_handle") else make_handle(tr, hook)) if handle is True else handle
    tr.fom_obj = fom if fom is not None else make_fom(tr, cfg["fom"], hook, cap)
    sigs = [Signal(tr, "msg", hook), Signal(tr, "plot", hook), Signal(tr, "ctrl", hook)] if signals else None
    try:
        tr.phase = "init"
        tr.opt = Optimizer(d, tr.fom_obj, comm_signals_list=sigs, handle_exit_obj=tr.he)
        tr.folder = tr.opt.results_path
        tr.alg = tr.opt.get_optimization_algorithm()
        if execute:
            tr.phase = "run"
            tr.opt.execute()
            tr.phase = "done"
    except Exception as e:
        tr.error = traceback.format_exc()[-2500:]
        tr.error_type = type(e).__name__
    finally:
        if close:
            close_logger()
    return tr


def close_logger():
    """The library leaves one open file handler per run in the shared logger."""
    import logging
    lg = logging.getLogger("oc_logger")
    for h in list(lg.handlers):
        try:
            h.close()
        except Exception:
            pass
        lg.removeHandler(h)


def same_controls(a, b, tol=1e-9, unit=1.0):
    """a, b: dicts with pulses (of size unit), timegrids, parameters (lists)."""
    for k in ("pulses", "timegrids"):
        if k not in a or k not in b:
            continue
        if len(a[k]) != len(b[k]):
            return False
        for x, y in zip(a[k], b[k]):
            x, y = np.asarray(x), np.asarray(y)
            if x.shape != y.shape or not close(x, y, tol, unit if k == "pulses" else 1e-300):
                return False
    x, y = np.asarray(a["parameters"], dtype=float), np.asarray(b["parameters"], dtype=float)
    return x.shape == y.shape and close(x, y, tol)


def close(x, y, tol=1e-9, unit=1.0):
    x, y = np.asarray(x, dtype=float), np.asarray(y, dtype=float)
    if x.size == 0:
        return True
    scale = max(unit, float(np.max(np.abs(y[np.isfinite(y)]), initial=0.0)))
    return bool(np.allclose(x, y, rtol=0, atol=tol * scale, equal_nan=True))


def controls_from_saved(saved, cfg):
    """Rebuild pulses/timegrids/parameters from the saved file using the names of the configuration."""
    out = {"pulses": [], "timegrids": [], "parameters": []}
    for p in cfg["opt"]["pulses"]:
        out["pulses"].append(saved[p["pulse_name"]])
        out["timegrids"].append(saved["time_grid_for_" + p["pulse_name"]])
    for q in cfg["opt"]["parameters"]:
        out["parameters"].append(float(np.real(saved[q["parameter_name"]])))
    return out

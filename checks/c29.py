"""C29: an optimization is not affected by other optimizations of the same process, only by its own settings and answers."""
import copy
import os
import pickle
import random
import signal
import socket
import struct
import tempfile
import threading

from vf import gen

LEVEL = "exploration"
RULE = ("two or three random seeded optimizations (all algorithms, search methods and bases) are each run alone in a fresh process, then "
        "together: constructed first and executed later in another order, interleaved evaluation by evaluation in threads "
        "under a random schedule, one inside the figure of merit of the other, with the same settings dictionary and "
        "figure-of-merit object used again, with a function file changed in between, with another current directory and with the "
        "getters called in between; evaluations, results, saved controls and best controls must be identical bit for "
        "bit, and settings of the process (floating point errors, print options, global random state, current directory, environment) must be left as found; distinct by way of combination and settings class")
ASSUMPTIONS = ["the log output is shared by all optimizations of a process and not compared", "the thread schedule is given by the figure of merit calls"]
QUICK_BUDGET = 30
THOROUGH_BUDGET = 300
REQUIRED = {"runs_compared": 200, "switches": 300, "nested": 15, "reused": 20, "files_changed": 15, "late": 30, "process_unchanged": 30, "mixed_grape": 2}


SERVER = [None]


def worker_init():
    """A process forked before the first optimization; it forks one child for every run which has to be alone."""
    import importlib
    import pkgutil
    import quocslib
    from vf import rec, gr      # noqa: all modules but those of jax loaded once
    for m in pkgutil.walk_packages(quocslib.__path__, "quocslib."):
        if "AD" not in m.name and "jax" not in m.name:
            try:
                importlib.import_module(m.name)
            except Exception:
                pass
    a, b = socket.socketpair()
    if os.fork():
        b.close()
        SERVER[0] = a
        return
    a.close()
    try:
        while True:
            cwd, job = recv(b)
            pid = os.fork()
            if pid == 0:
                try:
                    signal.signal(signal.SIGALRM, signal.SIG_DFL)
                    signal.alarm(150)
                    os.chdir(cwd)
                    t = start(job)
                    send(b, Frozen(t))
                except BaseException as e:
                    send(b, "%s: %s" % (type(e).__name__, e))
                finally:
                    os._exit(0)
            if os.waitpid(pid, 0)[1] != 0:
                send(b, "the process died")
    except BaseException:
        pass
    finally:
        os._exit(0)


def send(s, o):
    data = pickle.dumps(o)
    s.sendall(struct.pack("Q", len(data)) + data)


def recv(s):
    def get(n):
        out = bytearray()
        while len(out) < n:
            x = s.recv(min(n - len(out), 1 << 20))
            if not x:
                raise EOFError
            out += x
        return bytes(out)
    return pickle.loads(get(struct.unpack("Q", get(8))[0]))


class Frozen:
    """What is compared of a run."""

    def __init__(self, t):
        import numpy as np
        self.error = t.error
        self.evals = [{k: e[k] for k in ("n", "pulses", "timegrids", "parameters", "fom", "status")} for e in t.evals]
        self._final = self._saved = self._best = None
        if not t.error:
            self._final, self._saved = t.final(), t.saved()
            b = t.best_controls()
            self._best = {k: [np.array(x) for x in b[k]] for k in ("pulses", "timegrids", "parameters")}

    def final(self):
        return self._final

    def saved(self):
        return self._saved

    def best_controls(self):
        return self._best


def fresh(job):
    """The run alone, in a process in which no other optimization has been."""
    d = tempfile.mkdtemp(prefix="alone", dir=os.getcwd())
    send(SERVER[0], (d, job))
    out = recv(SERVER[0])
    if isinstance(out, str):
        raise RuntimeError("harness: run alone failed: " + out)
    return out


def one(r, tier, i=0, **k):
    from vf import gr
    if k.pop("grape", False):
        return {"go": "grape", "cfg": gr.grape_cfg(r, r.choice(["minimization", "maximization"]), maxfun=6)}
    if k.pop("ad", False):
        return {"go": "ad", "cfg": gr.ad_cfg(r, r.choice(["minimization", "maximization"]), si=2, maxfun=3, nparams=1, bases=("Fourier",))}
    cfg = gen.config(r, alg=r.choice(["dCRAB", "dCRAB", "DirectSearch"]), dsm=r.choice(["NelderMead", "CMAES"]),
                     max_eval=r.randint(8, 20), si=r.choice([1, 2, 3]), shaping=True, overwrite=True,
                     drift=r.random() < 0.2, reeval=r.random() < 0.1, noise=True, dump=r.choice([None, "json"]), **k)
    if "re_evaluation" in cfg["opt"]["algorithm_settings"]:
        cfg["fom"]["std"] = 0.2
        cfg["fom"].pop("ret", None)
    if r.random() < 0.3:
        cfg["opt"]["algorithm_settings"]["dsm_settings"]["stopping_criteria"]["change_based_stop"] = {
            "cbs_funct_evals": r.randint(2, 8), "cbs_change": r.choice([1e-3, 0.05, 0.5])}
    return {"go": "run", "cfg": cfg}


def cases(tier, rnd):
    n = 650 if tier == "quick" else 5000
    kinds = ["late", "threads", "nested", "reuse", "file", "threads", "late", "chdir"]
    for i in range(n):
        r = random.Random(rnd.random())
        kind = kinds[i % 8]
        m = 1 if kind in ("reuse", "chdir", "file") else 2 if kind == "nested" else r.choice([2, 2, 3])
        jobs = [one(r, tier, funcs=["file_rel", "file_abs", "lambda"] if kind == "file" else None,
                    **({"npulses": r.randint(1, 2)} if kind == "file" else {})) for _ in range(m)]
        if kind == "file":
            for j in jobs:
                j["cfg"]["opt"]["algorithm_settings"].pop("max_eval_total", None)
        if i % 16 == 1:
            jobs[0] = one(r, tier, grape=True)
        if i in (6, 9) or (tier == "thorough" and i % 120 in (6, 9)):
            jobs[-1] = one(r, tier, ad=True)
            jobs = jobs[:2]
        if r.random() < 0.5 and m > 1 and jobs[0]["go"] == jobs[1]["go"] == "run":      # twins differing in the seed only
            jobs[1] = copy.deepcopy(jobs[0])
            twin(r, jobs[1]["cfg"])
        for k, j in enumerate(jobs):
            j["cfg"]["default_handle"] = r.random() < 0.5
            rename(j["cfg"], "j%d_" % k)
            if i % 3 == 1 or (i % 3 == 2 and k):
                own_names(j["cfg"], "abc"[k])
        yield {"kind": kind, "jobs": jobs, "seed": r.randrange(10**9)}


def twin(r, cfg):
    """The same settings but for one thing."""
    o = cfg["opt"]
    what = r.choice(["seed", "seed", "time", "bins", "limits", "scaling", "parameter", "eval", "direction", "amplitude"])
    if what == "time" and o["times"]:
        for t in o["times"]:
            t["initial_value"] *= 1.25
    elif what == "bins" and o["pulses"] and all("list_function" not in str(p) for p in o["pulses"]):
        for p in o["pulses"]:
            if p["basis"]["basis_name"] != "PiecewiseBasis":
                p["bins_number"] += 3
    elif what == "limits" and o["pulses"]:
        for p in o["pulses"]:
            p["lower_limit"], p["upper_limit"] = 0.8 * p["lower_limit"], 0.8 * p["upper_limit"]
    elif what == "scaling" and o["pulses"]:
        for p in o["pulses"]:
            p["scaling_function"] = {"function_type": "lambda_function", "lambda_function": "lambda t: 0.75 + 0.0 * t"}
            p.pop("shaping_options", None)
    elif what == "parameter" and o["parameters"]:
        for q in o["parameters"]:
            q["initial_value"] = 0.5 * (q["lower_limit"] + q["upper_limit"])
    elif what == "eval":
        o["algorithm_settings"]["dsm_settings"]["stopping_criteria"]["max_eval"] += 4
    elif what == "direction":
        a = o["algorithm_settings"]
        a["optimization_direction"] = "minimization" if a.get("optimization_direction") == "maximization" else "maximization"
    elif what == "amplitude":
        for p in o["pulses"] + o["parameters"]:
            p["amplitude_variation"] *= 0.7
    else:
        o["algorithm_settings"]["random_number_generator"] = {"seed_number": r.randrange(10**6)}


def own_names(cfg, pre):
    o = cfg["opt"]
    for t in o["times"]:
        t["time_name"] = pre + t["time_name"]
    for p in o["pulses"]:
        p["time_name"] = pre + p["time_name"]
        p["pulse_name"] = pre + p["pulse_name"]
    for q in o["parameters"]:
        q["parameter_name"] = pre + q["parameter_name"]


def rename(cfg, pre):
    """Own function files for every job."""
    if cfg.get("files"):
        cfg["files"] = {pre + k: v for k, v in cfg["files"].items()}
        for p in cfg["opt"]["pulses"]:
            for key in ("initial_guess", "scaling_function"):
                fd = p.get(key)
                if isinstance(fd, dict) and "file_path" in fd:
                    fd["file_path"] = pre + fd["file_path"]


def start(job, hook=None, execute=True, d=None, fom=None, np_seed=5, trace=None):
    from vf import rec, gr
    cfg = job["cfg"]
    t = trace or rec.Trace(cfg)
    if job["go"] == "grape":
        fom = fom or gr.grape_fom(t, cfg, hook)
    elif job["go"] == "ad":
        fom = fom or gr.ad_fom(t, cfg, hook)
    return rec.run(cfg, hook=hook, execute=execute, d=d, fom=fom, trace=t, np_seed=False, close=False)


def compare(ctx, a, b, how, job):
    import numpy as np
    from checks.c10 import same_seq
    if not ctx.check(a.error is None and b.error is None, "run-error", error=b.error or a.error, how=how):
        return
    what = dict(how=how, settings=gen.describe(job["cfg"]) if job["go"] == "run" else job["go"])
    diff = same_seq(a.evals, b.evals)
    ctx.check(diff is None, "evaluations-differ", what=diff, **what)
    ctx.check(repr(a.final()) == repr(b.final()), "results-differ", a=a.final(), b=b.final(), **what)
    x, y = a.saved(), b.saved()
    ctx.check((x is None) == (y is None) and (x is None or (sorted(x) == sorted(y) and all(
        x[k].dtype.kind in "USO" or np.array_equal(x[k], y[k], equal_nan=True) for k in x))), "saved-differ", **what)
    x, y = a.best_controls(), b.best_controls()
    ctx.check(all(len(x[k]) == len(y[k]) and all(np.array_equal(np.asarray(p), np.asarray(q), equal_nan=True) for p, q in zip(x[k], y[k]))
                  for k in ("pulses", "timegrids", "parameters")), "best-controls-differ", **what)
    ctx.count("runs_compared")
    ctx.cover("%s/%s" % (how, what["settings"]))
    if job["go"] == "grape" and how in ("threads", "late"):
        ctx.count("mixed_grape")


def run(case, ctx):
    import numpy as np
    from vf import rec
    r = random.Random(case["seed"])
    jobs, kind = case["jobs"], case["kind"]
    np.random.seed(5)
    alone = [fresh(j) for j in jobs]
    if any(t.error for t in alone):
        ctx.viol("run-error", error=[t.error for t in alone if t.error][0])
        return
    try:
        globals()["k_" + kind](case, ctx, r, jobs, alone)
    finally:
        rec.close_logger()
    if ctx.sample is None:
        ctx.sample = {"kind": kind, "evaluations": [len(t.evals) for t in alone]}


def k_late(case, ctx, r, jobs, alone):
    ts = []
    for j in jobs:
        ts.append(start(j, execute=False))
        if ts[-1].error:
            return ctx.viol("run-error", error=ts[-1].error)
        ts[-1].alg.get_best_controls() if r.random() < 0.5 else None
    order = list(range(len(jobs)))
    r.shuffle(order)
    if r.random() < 0.7:
        order = order[::-1] if order == sorted(order) else order
    for n, k in enumerate(order):
        ts[k].opt.execute()
        for q in order[:n + 1]:
            if r.random() < 0.5:
                getters(ts[q])
    for k in range(len(jobs)):
        compare(ctx, alone[k], ts[k], "late", jobs[k])
        ctx.count("late")


def getters(t):
    t.alg.get_best_controls()
    t.alg.is_optimization_running()
    t.opt.get_optimization_algorithm()


def k_threads(case, ctx, r, jobs, alone):
    n = len(jobs)
    cv = threading.Condition()
    state = {"turn": r.randrange(n), "alive": set(range(n)), "switches": 0}

    def give(me, leaving=False):
        with cv:
            if leaving:
                state["alive"].discard(me)
            if state["alive"]:
                nxt = r.choice(sorted(state["alive"]))
                state["switches"] += nxt != me
                state["turn"] = nxt
            cv.notify_all()
            while not leaving and state["turn"] != me:
                cv.wait()

    ts = [None] * n

    def body(k):
        with cv:
            while state["turn"] != k:
                cv.wait()
        try:
            def hook(t, kind, e):
                if kind in ("call", "ret"):
                    give(k)
            ts[k] = start(jobs[k], hook=hook)
        finally:
            give(k, leaving=True)

    th = [threading.Thread(target=body, args=(k,), daemon=True) for k in range(n)]
    for x in th:
        x.start()
    for x in th:
        while x.is_alive():
            x.join(0.5)
    ctx.count("switches", state["switches"])
    for k in range(n):
        if ctx.check(ts[k] is not None, "thread-died"):
            compare(ctx, alone[k], ts[k], "threads", jobs[k])


def k_nested(case, ctx, r, jobs, alone):
    """The second optimization runs inside one evaluation of the first."""
    at = r.randrange(len(alone[0].evals))
    when = r.choice(["call", "ret"])
    inner = []

    def hook(t, kind, e):
        if kind == when and e["n"] == at and not inner:
            inner.append(start(jobs[1]))
    outer = start(jobs[0], hook=hook)
    compare(ctx, alone[0], outer, "outer", jobs[0])
    if ctx.check(len(inner) == 1, "inner-not-run"):
        compare(ctx, alone[1], inner[0], "inner", jobs[1])
        ctx.count("nested")


def process_state():
    """Settings of the process which belong to the user."""
    import locale
    import sys
    import warnings
    import numpy as np
    st = np.random.get_state()
    return {"floating point errors": np.geterr(), "print options": np.get_printoptions(), "directory": os.getcwd(), "environment": dict(os.environ),
            "path": list(sys.path), "locale": locale.setlocale(locale.LC_ALL), "recursion limit": sys.getrecursionlimit(), "warning filters": [str(f) for f in warnings.filters],
            "global random numbers": (st[1].tobytes(), st[2:]), "random module": hash(random.getstate()), "threads": threading.active_count(),
            "output": (id(sys.stdout), id(sys.stderr)), "umask": umask()}


def umask():
    m = os.umask(0o22)
    os.umask(m)
    return m


def k_reuse(case, ctx, r, jobs, alone):
    from vf import rec
    j = jobs[0]
    d = rec.prepare(j["cfg"])
    prev, left = None, {}
    from checks.c25 import snapshot
    for k in range(3):
        d["create_logfile"], d["console_info"] = r.random() < 0.6, r.random() < 0.5      # the output has no influence
        before = process_state()
        t = start(j, d=d)
        after = process_state()
        if j["go"] == "run" and seeded(j["cfg"]):
            ctx.check(before == after, "process-changed", what=[(w, before[w], after[w]) for w in before if before[w] != after[w] and "random" not in w] or
                      [w for w in before if before[w] != after[w]])
            ctx.count("process_unchanged")
        compare(ctx, alone[0], t, "dictionary", j)
        for f, old in left.items():
            ctx.check(snapshot(f) == old, "finished-run-changed", files=[p for p, v in snapshot(f).items() if old.get(p) != v][:3])
            ctx.count("finished_runs_unchanged")
        left[t.folder or t.opt.results_path] = snapshot(t.folder or t.opt.results_path)
        if prev is not None and r.random() < 0.5:
            compare(ctx, alone[0], prev, "dictionary", j)
        prev = t
    ctx.count("reused")


def seeded(cfg):
    return "random_number_generator" in cfg["opt"]["algorithm_settings"]


def k_chdir(case, ctx, r, jobs, alone):
    home = os.getcwd()
    t = start(jobs[0], execute=False)
    if t.error:
        return ctx.viol("run-error", error=t.error)
    os.mkdir("elsewhere")
    os.chdir("elsewhere")
    try:
        t.opt.execute()
        left = os.listdir(".")
    finally:
        os.chdir(home)
    ctx.check(left == [], "wrote-elsewhere", files=left)
    compare(ctx, alone[0], t, "chdir", jobs[0])


def k_file(case, ctx, r, jobs, alone):
    """The same file name with new content: the run is that of the new content."""
    j = jobs[0]
    files = j["cfg"].get("files", {})
    if not files:
        return
    old = copy.deepcopy(j)
    for name in files:
        files[name] = files[name].replace("return ", "return 0.137 + 0.5 * (") + ")"
        files[name] = files[name].replace("\n)", ")\n")
    new = copy.deepcopy(j)
    rename(new["cfg"], "new_")
    start(old)
    a = fresh(new)
    b = start(j)
    compare(ctx, a, b, "file", j)
    c = start(old)
    compare(ctx, alone[0], c, "file-back", j)
    ctx.count("files_changed")

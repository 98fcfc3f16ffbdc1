"""C03: at every point of a run the saved best-controls file is the best evaluation so far."""
import os
import random
from vf import gen

LEVEL = "fault_enumeration"
RULE = ("random runs with npz and json dumps; the file is read back at every evaluation boundary (before every FoM call and "
        "after every evaluation), runs are cut by an exception or by killing the process at a chosen evaluation; "
        "non-trivial: the file was rewritten at least twice; distinct by settings class, dump format and cut")
ASSUMPTIONS = ["the cut falls on an evaluation boundary: the write itself is not atomic and a kill inside it is not claimed",
               "no re-evaluation or drift compensation (their records are judged by their own properties)"]
QUICK_BUDGET = 25
THOROUGH_BUDGET = 400
REQUIRED = {"file_reads": 1000, "kills": 5, "final_files": 50}


def cases(tier, rnd):
    n = 780 if tier == "quick" else 6000
    for i in range(n):
        r = random.Random(rnd.random())
        from vf import gr
        if i % 20 == 5:
            d = r.choice(["minimization", "maximization"])
            cfg = gr.grape_cfg(r, d)
            if r.random() < 0.5:
                cfg["opt"]["dump_format"] = "json"
            yield {"kind": "grape", "cut": "none", "at": 0, "cfg": cfg}
            continue
        if i in (6, 26) or (tier == "thorough" and i % 60 == 6):
            yield {"kind": "ad", "cut": "none", "at": 0, "cfg": gr.ad_cfg(
                r, r.choice(["minimization", "maximization"]), maxfun=r.randint(2, 5), npulses=r.choice([1, 2]),
                nparams=r.choice([0, 1]), dump=["npz", "json"][(i // 20) % 2])}
            continue
        cfg = gen.config(r, dump=r.choice(["npz", "json"]), overwrite=True, shaping=True)
        if i % 120 == 77:
            cfg = gen.longer(r, cfg)
        elif i % 13 == 12:
            cfg = gen.in_units(r, cfg)
        if r.random() < 0.25 and cfg["opt"]["pulses"]:
            for j, p in enumerate(cfg["opt"]["pulses"]):
                p["pulse_name"] = (["drive amplitude", "phase", "FoM_pulse"] + ["pulse no %d" % k for k in range(3, 12)])[j]
        elif r.random() < 0.2 and cfg["opt"]["pulses"]:
            # controls with the same name are kept apart
            P, Q = cfg["opt"]["pulses"], cfg["opt"]["parameters"]
            if len(P) > 1 and r.random() < 0.5:
                for p in P:
                    p["pulse_name"] = "A"
            elif Q:
                Q[0]["parameter_name"] = P[r.randrange(len(P))]["pulse_name"]
        me = cfg["opt"]["algorithm_settings"]["dsm_settings"]["stopping_criteria"]["max_eval"]
        cut = r.choice(["none", "none", "raise", "kbd", "kill"]) if i % 6 else "kill"
        if r.random() < 0.15:
            cfg["fom"]["special"] = {str(r.randrange(10)): "nan"}
        if r.random() < 0.15:
            cfg["fom"]["status"] = {str(r.randrange(5, 30)): [-1, -1e7]}
        cfg["default_handle"] = i % 5 == 3
        yield {"kind": "run", "cut": cut, "at": r.randrange(1, 2 * me), "cfg": cfg}


class Cut(Exception):
    pass


def judge(ctx, tr, where):
    import numpy as np
    from vf import rec
    if tr.folder is None and tr.opt is None:
        return
    folder = tr.folder or tr.opt.results_path
    best = None
    for e in tr.valid():
        if e["fom"] == e["fom"] and tr.sign * e["fom"] < 1e10:
            if best is None or tr.sign * e["fom"] < tr.sign * best["fom"]:
                best = e
    saved = rec.read_controls(folder)
    ctx.count("file_reads")
    if best is None:
        ctx.check(saved is None, "file-before-record", where=where)
        return
    if not ctx.check(saved is not None, "no-file", where=where, evals=len(tr.evals)):
        return
    it = saved.get("iteration_number")
    for e in tr.valid():      # any of several equally good evaluations will do
        if e["fom"] == best["fom"] and it is not None and int(it) == e["n"] + 1:
            best = e
    want = {"pulses": best["pulses"], "timegrids": best["timegrids"], "parameters": best["parameters"]}
    try:
        o = tr.cfg["opt"]
        names = [p.get("pulse_name", "pulse") for p in o["pulses"]] + [q.get("parameter_name", "parameter") for q in o["parameters"]]
        if len(set(names)) < len(names):
            got = same_names(saved, names, want)
            ctx.count("same_names")
        else:
            got = rec.controls_from_saved(saved, tr.cfg)
    except KeyError as ex:
        ctx.viol("missing-key", key=str(ex), keys=sorted(saved), where=where)
        return
    exact = all(np.array_equal(np.real(np.asarray(a)), np.real(np.asarray(b)))
                for k in ("pulses", "timegrids") for a, b in zip(got[k], want[k])) and \
        all(len(got[k]) == len(want[k]) for k in want) and \
        [float(x) for x in got["parameters"]] == [float(x) for x in want["parameters"]]
    if not ctx.check(exact, "saved-controls", where=where, got=got, want=want, best_at=best["n"]):
        return
    f = float(np.real(saved["FoM"])) if "FoM" in saved else None
    ctx.check(f is not None and abs(f - best["fom"]) <= 1e-12 * max(1, abs(f)), "saved-fom", where=where, got=f,
              want=best["fom"])
    ctx.check(it is not None and int(it) == best["n"] + 1, "saved-iteration", where=where, got=it, want=best["n"] + 1)
    tr.rewrites = getattr(tr, "rewrites", set()) | {best["n"]}


def same_names(saved, names, want):
    """Controls of the same name: each one has its own entry, called by its name and something to tell it apart."""
    import numpy as np
    used, got = set(), {"pulses": [], "timegrids": [], "parameters": []}
    n = len(want["pulses"])
    for i, name in enumerate(names):
        w = np.asarray(want["pulses"][i] if i < n else want["parameters"][i - n])
        keys = [k for k in saved if k.startswith(name) and k not in used and np.shape(saved[k]) == np.shape(w) and np.array_equal(saved[k], w)]
        if not keys:
            raise KeyError("%d:%s" % (i, name))
        used.add(keys[0])
        got["pulses" if i < n else "parameters"].append(saved[keys[0]])
        if i < n:
            got["timegrids"].append(saved["time_grid_for_" + keys[0]])
    return got


def run(case, ctx):
    import numpy as np
    from vf import rec, gr
    cfg = case["cfg"]
    cut, at = case["cut"], case["at"]
    if cut == "kill":
        return kill_case(case, ctx)

    def hook(t, kind, p):
        if len(ctx.viols) > 3:
            return
        if kind == "call":
            t.evals, keep = t.evals[:-1], t.evals
            t.folder = t.opt.results_path if t.opt else t.folder
            judge(ctx, t, "before call %d" % p["n"])
            t.evals = keep
            if cut == "raise" and p["n"] == at:
                raise Cut("user FoM failed")
            if cut == "kbd" and p["n"] == at:
                raise Cut("interrupt")
        elif kind == "plot":
            judge(ctx, t, "after eval %d" % (len(t.evals) - 1))
    if case["kind"] == "grape":
        tr = gr.grape_run(cfg, hook=hook)
    elif case["kind"] == "ad":
        tr = gr.ad_run(cfg, hook=hook)
    else:
        tr = rec.run(cfg, hook=hook)
    if tr.error and tr.error_type != "Cut":
        if cfg.get("fom", {}).get("special"):
            return
        ctx.viol("run-failed", error=tr.error)
        return
    if tr.error:
        tr.evals = tr.evals[:-1]
        ctx.count("cuts")
    judge(ctx, tr, "end")
    ctx.count("final_files")
    if len(getattr(tr, "rewrites", ())) >= 2:
        ctx.cover("%s/%s/%s/%s" % (case["kind"], gen.describe(cfg), cfg["opt"].get("dump_format"), cut))
    if ctx.sample is None:
        ctx.sample = {"settings": gen.describe(cfg), "format": cfg["opt"].get("dump_format", "npz"), "cut": cut,
                      "records_seen_in_file": sorted(getattr(tr, "rewrites", ()))[:12], "evaluations": len(tr.evals)}


def kill_case(case, ctx):
    """The process dies (os._exit) inside the user's FoM at evaluation `at`; a fresh reader opens the file."""
    import json
    import pickle
    import numpy as np
    from vf import rec
    cfg, at = case["cfg"], case["at"]
    pid = os.fork()
    if pid == 0:
        try:
            def hook(t, kind, p):
                if kind == "call" and p["n"] == at:
                    t.evals = t.evals[:-1]
                    with open("trace.pkl", "wb") as f:
                        pickle.dump(([{k: e[k] for k in ("n", "pulses", "timegrids", "parameters", "fom", "status")}
                                      for e in t.evals], t.opt.results_path), f)
                    os._exit(9)
            tr = rec.run(cfg, hook=hook)
            with open("trace.pkl", "wb") as f:
                pickle.dump(([{k: e[k] for k in ("n", "pulses", "timegrids", "parameters", "fom", "status")}
                              for e in tr.evals], tr.folder), f)
        finally:
            os._exit(0)
    _, st = os.waitpid(pid, 0)
    if not os.path.exists("trace.pkl"):
        ctx.inconclusive = "child left no trace"
        return
    evals, folder = pickle.load(open("trace.pkl", "rb"))
    tr = rec.Trace(cfg)
    tr.evals, tr.folder = evals, folder
    judge(ctx, tr, "killed in evaluation %d" % at)
    ctx.count("kills" if os.WEXITSTATUS(st) == 9 else "ended_before_kill")
    ctx.cover("kill/%s/%s" % (gen.describe(cfg), cfg["opt"].get("dump_format")))

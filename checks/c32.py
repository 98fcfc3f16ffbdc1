"""C32: a stored result can be taken up again: guess and initial values from the file reproduce the stored controls and value."""
import copy
import json
import os
import random

from vf import gen

LEVEL = "exploration"
RULE = ("random optimizations (all algorithms, bases, both dump formats, stopped by budget or by the user) are followed by a "
        "second one set up from nothing but the stored files: settings from the stored dictionary, saved pulses as list "
        "guess (as array, list or written through json), saved parameters as initial values, times from the saved grids, "
        "another basis, search method or algorithm; its first evaluation must reproduce the stored controls and figure of "
        "merit, and its result must not be worse; distinct by pair of settings classes")
ASSUMPTIONS = ["the second optimization has no scaling function (the stored pulse is already scaled)", "the figure of merit is a deterministic function of the controls",
               "no drift compensation or re-evaluation in the first run"]
QUICK_BUDGET = 24
THOROUGH_BUDGET = 300
REQUIRED = {"continued": 120, "pulses": 80, "parameters": 60, "ad": 2, "grape": 4, "stopped_by_user": 15}


def cases(tier, rnd):
    from vf import gr
    n = 660 if tier == "quick" else 5000
    for i in range(n):
        r = random.Random(rnd.random())
        if i in (3, 51) or (tier == "thorough" and i % 300 == 3):
            yield {"go": "ad", "cfg": gr.ad_cfg(r, r.choice(["minimization", "maximization"]), si=r.choice([1, 2]), maxfun=4, nparams=1,
                                                dump=r.choice([None, "json"])), "seed": r.randrange(10**9)}
            continue
        if i % 22 == 4:
            yield {"go": "grape", "cfg": gr.grape_cfg(r, r.choice(["minimization", "maximization"]), maxfun=6), "seed": r.randrange(10**9)}
            continue
        cfg = gen.config(r, alg="DirectSearch" if i % 6 == 2 else "dCRAB", dsm=r.choice(["NelderMead", "CMAES"]),
                         bases=[(gen.CHOPPED + ["PiecewiseBasis"])[i % 9]] if i % 3 else None, shaping=True, overwrite=True,
                         dump=r.choice([None, "npz", "json"]), noise=False)
        if i % 7 == 3:           # long pulses
            for p in cfg["opt"]["pulses"]:
                if p["basis"]["basis_name"] != "PiecewiseBasis" and "list_function" not in str(p):
                    p["bins_number"] = r.choice([101, 128, 200])
        yield {"go": "run", "cfg": cfg, "seed": r.randrange(10**9), "stop": r.randint(2, 12) if i % 5 == 1 else None}


def run(case, ctx):
    import numpy as np
    from vf import rec, gr
    r = random.Random(case["seed"])
    cfg = case["cfg"]

    def hook(t, kind, e):
        if kind == "ret" and case.get("stop") == len(t.evals):
            t.he.is_user_running = False
    a = {"run": rec.run, "grape": gr.grape_run, "ad": gr.ad_run}[case["go"]](cfg, hook=hook)
    if not ctx.check(a.error is None, "run-error", error=a.error):
        return
    saved = a.saved()
    if saved is None:
        ctx.count("nothing_stored")
        return
    d = json.load(open(a.file("_optimization_dictionary.json")))
    o = cfg["opt"]
    best = a.best_value()
    alg = d["algorithm_settings"]
    d["optimization_client_name"] = "continued"
    alg["random_number_generator"] = {"seed_number": r.randrange(10**6)}
    what = r.choice(["same", "basis", "method", "algorithm"])
    for t in d["times"]:
        for p in d["pulses"]:
            if p["time_name"] == t["time_name"]:
                grid = saved["time_grid_for_" + p["pulse_name"]]
                ctx.check(np.isrealobj(grid) or not np.any(np.imag(grid)), "complex-grid")
                if case["go"] == "run" and len(grid) > 1:
                    t["initial_value"] = float(np.real(grid[-1]))
    for p in d["pulses"]:
        v = saved[p["pulse_name"]]
        if np.iscomplexobj(v):
            ctx.check(not np.any(np.imag(v)), "complex-pulse")
            v = np.real(v)
        how = r.choice(["array", "list", "json", "tuple"])
        v = {"array": np.array(v), "list": [float(x) for x in v], "json": json.loads(json.dumps([float(x) for x in v])),
             "tuple": tuple(float(x) for x in v)}[how]
        p["initial_guess"] = {"function_type": "list_function", "list_function": v}
        p.pop("scaling_function", None)
        if p.pop("shaping_options", ["limit_pulse"])[-1:] != ["limit_pulse"]:
            p["lower_limit"], p["upper_limit"] = -1e3, 1e3      # the stored pulse need not respect the limits
        if case["go"] == "ad":
            p["scaling_function"] = {"function_type": "lambda_function", "lambda_function": "lambda t: 1.0 + 0.0 * t"}
        p["overwrite_base_pulse"] = False
        if what in ("basis", "algorithm") and case["go"] == "run":
            T = [t["initial_value"] for t in d["times"] if t["time_name"] == p["time_name"]][0]
            p["basis"] = gen.gen_basis(r, r.choice(["Fourier", "Chebyshev", "Sinc", "Walsh"] + (["PiecewiseBasis"] if p["bins_number"] < 9 else [])), T)
        p["amplitude_variation"] = gen.r3(r, 0.2, 1.5)
    for q in d["parameters"]:
        q["initial_value"] = float(np.real(saved[q["parameter_name"]]))
    if "dsm_settings" in alg:
        g = alg["dsm_settings"]["general_settings"]
        if what == "method":
            g["dsm_algorithm_name"] = {"NelderMead": "CMAES", "CMAES": "NelderMead"}[g["dsm_algorithm_name"]]
            g.pop("population", None)
        alg["max_eval_total"] = r.randint(1, 30)
        alg["dsm_settings"]["stopping_criteria"]["max_eval"] = 40
        if what == "algorithm":
            alg["algorithm_name"] = {"DirectSearch": "dCRAB", "dCRAB": "dCRAB" if d["pulses"] else "DirectSearch"}[alg["algorithm_name"]]
            alg.setdefault("super_iteration_number", 2)
    t = rec.Trace(dict(cfg, opt=dict(o, algorithm_settings=alg)))
    fom = {"grape": lambda: gr.grape_fom(t, cfg), "ad": lambda: gr.ad_fom(t, cfg), "run": lambda: None}[case["go"]]()
    if case["go"] != "run":       # starts from random pulses: taken up by dCRAB instead
        d["algorithm_settings"] = alg = {"algorithm_name": "dCRAB", "super_iteration_number": 1, "optimization_direction": alg["optimization_direction"],
                                         "random_number_generator": {"seed_number": 1}, "dsm_settings": {
                                             "general_settings": {"dsm_algorithm_name": "NelderMead"}, "stopping_criteria": {"max_eval": 15}}}
    t = rec.run(t.cfg, d=d, trace=t, fom=fom)
    if not ctx.check(t.error is None and t.evals, "continuation-failed", error=t.error, what=what):
        return
    first = t.evals[0]
    # CMA-ES never evaluates its starting point, its first candidate is already random
    cma = "dsm_settings" in alg and alg["dsm_settings"]["general_settings"]["dsm_algorithm_name"] == "CMAES"
    tol = 2e-6 if case["go"] == "ad" else 1e-14
    if not cma:
        want = {"pulses": [np.real(saved[p["pulse_name"]]) for p in d["pulses"]],
                "timegrids": [np.real(saved["time_grid_for_" + p["pulse_name"]]) for p in d["pulses"]],
                "parameters": [float(np.real(saved[q["parameter_name"]])) for q in d["parameters"]]}
        got = {"pulses": [np.real(p)[:len(w)] for p, w in zip(first["pulses"], want["pulses"])],
               "timegrids": [np.real(p)[:len(w)] for p, w in zip(first["timegrids"], want["timegrids"])], "parameters": first["parameters"]}
        if case["go"] == "ad":
            want = {k: v for k, v in want.items()}
            want["pulses"] = [w[:p["bins_number"]] for w, p in zip(want["pulses"], d["pulses"])]
            want["timegrids"] = got["timegrids"] = []
            got["pulses"] = [w[:p["bins_number"]] for w, p in zip(got["pulses"], d["pulses"])]
        ctx.check(rec.same_controls(got, want, tol), "controls", what=what, got=got, want=want)
        if case["go"] != "ad":
            f = float(saved["FoM"]) if "FoM" in saved else best
            scale = max(1.0, abs(f))
            quant = (1e-4 if cfg.get("fom", {}).get("ret") in ("np32",) else 1e-13) * scale
            step = cfg.get("fom", {}).get("quant")
            if case["go"] == "run" and not step and cfg["fom"].get("ret") not in ("int", "count", "count16"):
                ctx.check(abs(first["fom"] - f) <= quant, "value", got=first["fom"], want=f)
                b = t.best_value()
                ctx.check(t.sign * b <= t.sign * f + quant, "worse", got=b, want=f)
        ctx.count("pulses", len(want["pulses"]))
        ctx.count("parameters", len(want["parameters"]))
    ctx.count("continued")
    ctx.count(case["go"])
    if case.get("stop") and len(a.evals) == case["stop"]:
        ctx.count("stopped_by_user")
    ctx.cover("%s/%s/%s" % (what, gen.describe(cfg) if case["go"] == "run" else case["go"], "cma" if cma else ""))
    if ctx.sample is None:
        ctx.sample = {"change": what, "evaluations": [len(a.evals), len(t.evals)]}

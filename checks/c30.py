"""C30: settings mean what the documentation says: defaults, comments, order, file, spelling of numbers and functions."""
import copy
import json
import os
import random

from vf import gen

LEVEL = "exploration"
RULE = ("random seeded optimizations are run in two or more spellings which must mean the same: optional settings omitted or "
        "written with their documented default, extra comment entries, other key order, read from a json file, numbers as "
        "integers or floats (whole-number goals reached in the run included), consistently renamed controls, other output switches, swapped amplitude limits, the same guess "
        "or scaling given as lambda, list, file with or without extension or absolute path; evaluations, results and saved "
        "controls must be identical; distinct by kind of respelling and settings class")
ASSUMPTIONS = ["comments inside the entries of single parameters and times are not part of the format"]
QUICK_BUDGET = 24
THOROUGH_BUDGET = 300
REQUIRED = {"defaults": 60, "comments": 15, "order": 15, "file": 15, "numbers": 15, "goals": 5, "names": 15, "switches": 15, "limits": 10, "functions": 30,
            "keys_defaulted": 300, "grape_ad": 4}
NP_FUN = ["%r + 0.0 * t", "%r * np.sin(%r * t)", "%r * t + %r"]


def cases(tier, rnd):
    from vf import gr
    kinds = ["defaults", "defaults", "defaults", "comments", "order", "file", "numbers", "names", "switches", "limits", "functions", "functions"]
    n = 900 if tier == "quick" else 6000
    for i in range(n):
        r = random.Random(rnd.random())
        kind = kinds[i % 12]
        if i in (13, 49) or (tier == "thorough" and i % 360 == 13):
            yield {"kind": "defaults", "go": "ad", "seed": r.randrange(10**9), "cfg": gr.ad_cfg(r, r.choice([None, "minimization"]), si=1, maxfun=4, nparams=1)}
            continue
        if i % 36 == 2:
            yield {"kind": "defaults", "go": "grape", "seed": r.randrange(10**9), "cfg": gr.grape_cfg(r, None, maxfun=6)}
            continue
        cfg = gen.config(r, alg="DirectSearch" if i % 5 == 3 and kind not in ("limits", "functions") else "dCRAB", dsm=["NelderMead", "CMAES"][(i // 12) % 2],
                         bases=[(gen.CHOPPED + ["PiecewiseBasis"])[(i // 3) % 9]] if i % 3 else None, shaping=True, overwrite=True, kmax=3,
                         drift=i % 8 == 1 or (kind == "defaults" and i % 3 == 0), reeval=i % 11 == 3, noise=True, dump=r.choice([None, "npz", "json"]), max_dim=12)
        if i % 11 == 3:
            cfg["fom"]["std"] = 0.2
            cfg["fom"].pop("ret", None)
        drift = cfg["opt"]["algorithm_settings"].get("compensate_drift")
        if drift and r.random() < 0.5:       # due after every evaluation: no dependence on the time passed
            drift["compensate_after_minutes"] = 1e-12
            if r.random() < 0.5:
                drift.pop("compensate_after_SI")
        yield {"kind": kind, "go": "run", "seed": r.randrange(10**9), "cfg": cfg}


DEFAULT_FUN = {"initial_guess": {"function_type": "lambda_function", "lambda_function": "lambda t: 0.0 * t"},
               "scaling_function": {"function_type": "lambda_function", "lambda_function": "lambda t: 1.0 + 0.0 * t"}}


def defaults(cfg, r):
    """Choose settings to leave to their default. Returns (omitted, written, number): same meaning."""
    om, wr = copy.deepcopy(cfg), copy.deepcopy(cfg)
    cnt = [0]

    def opt(path, key, value, p=0.5):
        a, b = om["opt"], wr["opt"]
        for k in path:
            a, b = a[k], b[k]
        if r.random() < p:
            a.pop(key, None)
            b[key] = copy.deepcopy(value)
            cnt[0] += 1
            return True
        return False

    o = cfg["opt"]
    alg = o["algorithm_settings"]
    name = alg["algorithm_name"]
    opt([], "dump_format", "npz")
    opt([], "create_logfile", True)
    opt([], "use_microsecond_name", False, 0.2) if False else None
    A = ["algorithm_settings"]
    if alg.get("optimization_direction") != "maximization":
        opt(A, "optimization_direction", "minimization")
    opt(A, "max_eval_total", 10**10)
    opt(A, "total_time_lim", 10**10)
    opt(A, "FoM_goal", None)
    if name == "dCRAB":
        if "compensate_drift" in alg and r.random() < 0.6:
            # every entry of the section by itself
            D = A + ["compensate_drift"]
            opt(D, "num_average", 1, 0.8)
            if not alg["compensate_drift"].get("compensate_after_SI") or "compensate_after_minutes" in alg["compensate_drift"]:
                opt(D, "compensate_after_SI", r.choice([False, True]) if "compensate_after_minutes" in alg["compensate_drift"] else False)
            if "compensate_after_minutes" not in alg["compensate_drift"]:
                opt(D, "compensate_after_minutes", 0.0)
        elif opt(A, "compensate_drift", {"compensate_after_SI": False, "compensate_after_minutes": 0.0, "num_average": 1}):
            if r.random() < 0.5:
                om["opt"]["algorithm_settings"]["compensate_drift"] = {}
        elif "compensate_drift" in alg:
            if "compensate_after_minutes" not in alg["compensate_drift"]:
                opt(A + ["compensate_drift"], "compensate_after_minutes", 0.0)
            opt(A + ["compensate_drift"], "num_average", 1)
    if "re_evaluation" in alg:
        opt(A + ["re_evaluation"], "re_evaluation_steps", [0.3, 0.5, 0.501])
    if r.random() < 0.3 and "random_number_generator" in alg and name != "AD":      # AD draws a new seed
        om["opt"]["algorithm_settings"]["random_number_generator"] = {}
        wr["opt"]["algorithm_settings"]["random_number_generator"] = {"seed_number": 2022}
        cnt[0] += 1
    if "dsm_settings" in alg:
        G, S = A + ["dsm_settings", "general_settings"], A + ["dsm_settings", "stopping_criteria"]
        dsm = alg["dsm_settings"]["general_settings"]["dsm_algorithm_name"]
        if dsm == "NelderMead":
            opt(G, "is_adaptive", False)
        else:
            import math
            opt(G, "population", int(4 + math.floor(3 * math.log(cfg["dim"]))), 0.5 if cfg["dim"] > 1 else 0)
        opt(S, "xatol", 1e-14)
        opt(S, "fatol", 1e-100)
        opt(S, "time_lim", 10**10)
        if "max_eval_total" in om["opt"]["algorithm_settings"] and "max_eval_total" in wr["opt"]["algorithm_settings"] and \
                wr["opt"]["algorithm_settings"]["max_eval_total"] < 500:
            opt(S, "max_eval", 10**10)
    elif "stopping_criteria" in alg:
        S = A + ["stopping_criteria"]
        opt(S, "ftol", 1e-6)
        opt(S, "gtol", 1e-6)
        opt(S, "maxls", 20)
    for i, p in enumerate(o["pulses"]):
        P = ["pulses", i]
        pw = p["basis"]["basis_name"] == "PiecewiseBasis"
        if len(o["pulses"]) == 1 or i == 0:
            opt(P, "pulse_name", "pulse")
        one = (p["lower_limit"], p["upper_limit"])
        if name not in ("GRAPE", "AD") and r.random() < 0.3:
            opt(P, "lower_limit", 0.0, 1)
            opt(P, "upper_limit", 1.0, 1)
        elif max(one) > 0.3 and min(one) == one[0] and one[0] < 1:
            opt(P, "lower_limit", 0.0, 0.2) if one[1] > 0 and name not in ("GRAPE", "AD") else None
        lists = [k for k in ("initial_guess", "scaling_function") if isinstance(p.get(k), dict) and p[k]["function_type"] == "list_function"]
        if not lists and name not in ("GRAPE", "AD"):
            opt(P, "bins_number", 101, 0.25 if not pw else 0.04)
        opt(P, "amplitude_variation", 1.0, 0.3)
        opt(P, "shrink_ampl_lim", False)
        opt(P, "overwrite_base_pulse", False)
        for key in ("initial_guess", "scaling_function"):
            if key not in p or r.random() < 0.3:
                opt(P, key, DEFAULT_FUN[key] if name != "AD" else dict(DEFAULT_FUN[key]))
                if key == "initial_guess" and r.random() < 0.3 and key in wr["opt"]["pulses"][i] and key not in om["opt"]["pulses"][i] and name not in ("AD",):
                    n = wr["opt"]["pulses"][i].get("bins_number", 101)
                    wr["opt"]["pulses"][i][key] = {"function_type": "list_function", "list_function": [0.0] * n}
            elif p[key]["function_type"] == "python_file" and p[key].get("path_mode") == "relative":
                opt(P + [key], "path_mode", "relative")
        opt(P, "shaping_options", ["add_initial_guess", "add_base_pulse", "add_new_update_pulse", "scale_pulse", "limit_pulse"])
        b = p["basis"]
        B = P + ["basis"]
        if not pw:
            if cfg.get("dim", 99) < 99 and "population" not in str(wr["opt"]["algorithm_settings"].get("dsm_settings")):
                opt(B, "basis_vector_number", 1)
        if b["basis_name"] == "Sigmoid":
            opt(B, "sigma", 0.1)
            opt(B, "offset", 0.1)
        if b["basis_name"] == "Sinc":
            opt(B, "basis_max", 1.0)
    if len(o["times"]) == 1:
        if r.random() < 0.5:
            used = opt(["times", 0], "time_name", "time", 1)
            for i in range(len(o["pulses"])):
                opt(["pulses", i], "time_name", "time", 1)
            if r.random() < 0.4 and name == "dCRAB" and not any(p["basis"]["basis_name"].startswith("Sig") or p["basis"]["basis_name"] == "Sinc" for p in o["pulses"]):
                opt(["times", 0], "initial_value", 1.0, 1)
    for i, q in enumerate(o["parameters"]):
        Q = ["parameters", i]
        if i == 0:
            opt(Q, "parameter_name", "parameter")
        opt(Q, "amplitude_variation", 0.1)
        if r.random() < 0.3 and name != "AD":
            opt(Q, "lower_limit", 0.1, 1)
            opt(Q, "upper_limit", 1.1, 1)
            opt(Q, "initial_value", 0.1, 0.5)
        elif q["lower_limit"] <= 0.1 <= q["upper_limit"]:
            opt(Q, "initial_value", 0.1, 0.4)
    return om, wr, cnt[0]


def go(case, cfg, d=None, **k):
    from vf import rec, gr
    t = rec.Trace(cfg)
    if case["go"] == "grape":
        k["fom"] = gr.grape_fom(t, case["cfg"])
    elif case["go"] == "ad":
        k["fom"] = gr.ad_fom(t, case["cfg"])
    return rec.run(cfg, d=d, trace=t, **k)


def compare(ctx, a, b, kind, cfg, names=None, saved=True, **what):
    import numpy as np
    from checks.c10 import same_seq
    if not (ctx.check(a.error is None, "run-error", error=a.error, kind=kind) and
            ctx.check(b.error is None, "run-error", error=b.error, kind=kind)):
        return
    diff = same_seq(a.evals, b.evals)
    ctx.check(diff is None, kind, what=diff, evaluations=[len(a.evals), len(b.evals)], **what)
    ctx.check(repr(a.final()) == repr(b.final()), kind + "-result", a=a.final(), b=b.final(), **what)
    x, y = a.saved(), b.saved()
    if saved:
        if x is not None and names:
            x = {names.get(k, k): v for k, v in x.items()}
        ctx.check((x is None) == (y is None) and (x is None or (sorted(x) == sorted(y) and all(
            x[k].dtype.kind in "USO" or np.array_equal(x[k], y[k], equal_nan=True) for k in x))), kind + "-saved",
            a=sorted(x or []), b=sorted(y or []), **what)
    ctx.count(kind)
    ctx.cover("%s/%s" % (kind, gen.describe(cfg)))


def run(case, ctx):
    r = random.Random(case["seed"])
    globals()["k_" + case["kind"]](case, ctx, r)
    if ctx.sample is None:
        ctx.sample = {"kind": case["kind"], "settings": gen.describe(case["cfg"])}


def k_defaults(case, ctx, r):
    om, wr, n = defaults(case["cfg"], r)
    a, b = go(case, om), go(case, wr)
    compare(ctx, a, b, "defaults", case["cfg"], omitted=om["opt"], written=wr["opt"])
    ctx.count("keys_defaulted", n)
    if case["go"] != "run":
        ctx.count("grape_ad")


def k_comments(case, ctx, r):
    c = copy.deepcopy(case["cfg"])
    o = c["opt"]
    a = o["algorithm_settings"]
    secs = [o, a, a["dsm_settings"], a["dsm_settings"]["general_settings"], a["dsm_settings"]["stopping_criteria"]]
    for p in o["pulses"]:
        secs += [p, p["basis"]]
        if "random_super_parameter_distribution" in p["basis"]:
            secs.append(p["basis"]["random_super_parameter_distribution"])
        secs += [p[k] for k in ("initial_guess", "scaling_function") if isinstance(p.get(k), dict)]
    for s in secs:
        if r.random() < 0.8:
            s["comment"] = r.choice(["text", 3, None, ["a", 1], {"b": 2}])
            s["_note 2"] = "more"
            s["Max_Eval"] = 1
    compare(ctx, go(case, case["cfg"]), go(case, c), "comments", case["cfg"])


def shuffled(o, r):
    if isinstance(o, dict):
        keys = list(o)
        r.shuffle(keys)
        return {k: shuffled(o[k], r) for k in keys}
    if isinstance(o, list):
        return [shuffled(v, r) for v in o]
    return o


def k_order(case, ctx, r):
    c = dict(case["cfg"], opt=shuffled(copy.deepcopy(case["cfg"]["opt"]), r))
    compare(ctx, go(case, case["cfg"]), go(case, c), "order", case["cfg"])


def k_file(case, ctx, r):
    from vf import rec
    from quocslib.utils.inputoutput import readjson, writejsonfile
    d = rec.prepare(copy.deepcopy(case["cfg"]))
    d.pop("optimization_client_name")
    if r.random() < 0.5:
        with open("settings.json", "w") as f:
            json.dump(d, f, indent=r.choice([None, 1, 4]))
    else:
        ctx.check(writejsonfile("settings.json", d) == 0, "write")
    d2 = readjson("settings.json")
    ctx.check(d2 == d, "read", got=d2, want=d)
    d2["optimization_client_name"] = "from file"
    a = go(case, case["cfg"])
    b = go(case, case["cfg"], d=d2)
    compare(ctx, a, b, "file", case["cfg"])
    # the stored settings of a run are settings again
    if b.error is None:
        d3 = readjson(b.file("_optimization_dictionary.json"))
        d3["optimization_client_name"] = "from stored settings"
        compare(ctx, a, go(case, case["cfg"], d=d3), "file", case["cfg"])


def numbers(o, r, key=None):
    if isinstance(o, dict):
        return {k: numbers(v, r, k) for k, v in o.items()}
    if isinstance(o, list):
        return [numbers(v, r, key) for v in o]
    if isinstance(o, bool) or o is None or isinstance(o, str):
        return o
    if key in ("bins_number", "basis_vector_number", "seed_number", "super_iteration_number", "num_average", "cbs_funct_evals", "population", "max_eval"):
        return o
    if isinstance(o, float) and o == int(o):
        return int(o)
    if isinstance(o, int) and r.random() < 0.8:
        return float(o)
    return o


def k_numbers(case, ctx, r):
    c = copy.deepcopy(case["cfg"])
    o = c["opt"]
    # some whole numbers
    for p in o["pulses"]:
        if r.random() < 0.6:
            p["lower_limit"], p["upper_limit"] = -float(r.randint(1, 5)), float(r.randint(1, 5))
        if r.random() < 0.6:
            p["amplitude_variation"] = float(r.randint(1, 3))
        s = p["basis"].get("random_super_parameter_distribution")
        if s and p["basis"]["basis_name"] in ("Fourier", "Walsh", "Chebyshev") and r.random() < 0.6:
            s["lower_limit"], s["upper_limit"] = 0.0, float(r.randint(2, 6))
    for q in o["parameters"]:
        if r.random() < 0.6:
            q["lower_limit"], q["upper_limit"] = -1.0, 2.0
            q["initial_value"] = float(r.choice([0, 1]))
            q["amplitude_variation"] = 1.0
    if r.random() < 0.4:        # a whole number as the goal, reached in the middle of the run
        a = o["algorithm_settings"]
        f = c.setdefault("fom", {})
        t = go(case, c)
        best = [e["fom"] for e in t.evals[:max(1, 2 * len(t.evals) // 3)] if e["fom"] is not None and abs(e["fom"]) < 1e3]
        if best and f.get("ret") not in ("int", "count", "count16"):
            s = -1.0 if a.get("optimization_direction") == "maximization" else 1.0
            b = min(s * v for v in best) * s
            a["FoM_goal"] = float(r.randint(-2, 3))
            f["offset"] = f.get("offset", 0.0) + a["FoM_goal"] - b - s * 1e-6
            ctx.count("goals")
    c2 = dict(c, opt=numbers(copy.deepcopy(o), r))
    compare(ctx, go(case, c), go(case, c2), "numbers", case["cfg"], one=o, other=c2["opt"])


def k_names(case, ctx, r):
    c = copy.deepcopy(case["cfg"])
    o = c["opt"]
    pool = ["x y", "Ωµ", "a.b", "Z", "FoM list", "0", "__x"]
    r.shuffle(pool)
    names = {}
    tn = {t["time_name"]: r.choice(["T", "t ", "zeit%d" % k]) + str(k) for k, t in enumerate(o["times"])}
    for t in o["times"]:
        t["time_name"] = tn[t["time_name"]]
    r.shuffle(o["times"])
    for k, p in enumerate(o["pulses"]):
        new = pool[k]
        names[p["pulse_name"]] = new
        names["time_grid_for_" + p["pulse_name"]] = "time_grid_for_" + new
        p["pulse_name"] = new
        p["time_name"] = tn[p["time_name"]]
    for k, q in enumerate(o["parameters"]):
        names[q["parameter_name"]] = pool[-1 - k] + "q"
        q["parameter_name"] = pool[-1 - k] + "q"
    compare(ctx, go(case, case["cfg"]), go(case, c), "names", case["cfg"], names=names, to=names)


def k_switches(case, ctx, r):
    c = copy.deepcopy(case["cfg"])
    o = c["opt"]
    o["dump_format"] = "json" if o.get("dump_format", "npz") == "npz" else "npz"
    o["create_logfile"] = r.random() < 0.3
    o["optimization_client_name"] = "some other name"
    o["use_microsecond_name"] = True
    o["console_info"] = r.random() < 0.5
    a = go(case, case["cfg"], signals=True)
    b = go(case, c, signals=r.random() < 0.5)
    compare(ctx, a, b, "switches", case["cfg"], saved=False)
    from vf import rec
    x, y = a.saved(), b.saved()
    import numpy as np
    if x and y:
        ctx.check(sorted(x) == sorted(y) and all(x[k].dtype.kind in "USO" or np.array_equal(x[k], y[k], equal_nan=True) for k in x),
                  "formats-differ", a=sorted(x), b=sorted(y))


def k_limits(case, ctx, r):
    c = copy.deepcopy(case["cfg"])
    for p in c["opt"]["pulses"]:
        p["lower_limit"], p["upper_limit"] = p["upper_limit"], p["lower_limit"]
    compare(ctx, go(case, case["cfg"]), go(case, c), "limits", case["cfg"])


def k_functions(case, ctx, r):
    """The same function written in several ways."""
    import numpy as np
    base = copy.deepcopy(case["cfg"])
    times = {t["time_name"]: t["initial_value"] for t in base["opt"]["times"]}
    base["files"] = {}
    alts = [copy.deepcopy(base) for _ in range(3)]
    for i, p in enumerate(base["opt"]["pulses"]):
        for key in ("initial_guess", "scaling_function"):
            f = r.choice(NP_FUN)
            body = f % tuple(round(r.uniform(0.2, 1.5), 3) for _ in range(f.count("%r")))
            text = "lambda t: " + body
            grid = np.linspace(0, times[p["time_name"]], p["bins_number"])
            vals = eval(text, {"np": np})(grid)
            p[key] = {"function_type": "lambda_function", "lambda_function": text}
            for k, c in enumerate(alts):
                way = r.choice(["lambda", "list", "array", "tuple", "rel", "rel", "abs", "sub"])
                name = "f_%d_%d_%s" % (k, i, key[:5])
                if way == "lambda":
                    fd = {"function_type": "lambda_function", "lambda_function": "lambda time: (%s)" % body.replace(" t", " time")}
                elif way == "list":
                    fd = {"function_type": "list_function", "list_function": [float(v) for v in vals]}
                elif way == "array":
                    fd = {"function_type": "list_function", "list_function": vals.copy()}
                elif way == "tuple":
                    fd = {"function_type": "list_function", "list_function": tuple(float(v) for v in vals)}
                else:
                    code = "import numpy as np\n\ndef other(t):\n    return 99.0 + 0 * t\n\ndef shape(t):\n    return %s\n" % body
                    if key == "scaling_function" and r.random() < 0.3:
                        code += "\ndef shape2(t, pulse):\n    return pulse * (%s)\n" % body
                    fn = "shape2" if "shape2" in code else "shape"
                    if way == "sub":
                        os.makedirs("sub dir", exist_ok=True)
                        name = "sub dir/" + name
                    c["files"][name + ".py"] = code
                    fd = {"function_type": "python_file", "file_path": name + r.choice(["", ".py"]), "function_name": fn,
                          "path_mode": "relative"}
                    if way == "abs":
                        fd.update(path_mode="absolute", vf_abs=True)
                c["opt"]["pulses"][i][key] = fd
                ctx.cover("function:%s/%s" % (key, way))
    a = go(case, base)
    for c in alts:
        compare(ctx, a, go(case, c), "functions", case["cfg"], pulses=c["opt"]["pulses"])

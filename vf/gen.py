"""Seeded random generator of optimization settings (JSON-able, deterministic in the random.Random given)."""

CHOPPED = ["Fourier", "Chebyshev", "Sinc", "Sigmoid", "SigmoidTimeDep", "SigmoidSigmas", "SigmoidAllParas", "Walsh"]


def r3(rnd, a, b):
    return round(rnd.uniform(a, b), 4)


def sg6(x):
    return float("%.6g" % x)


def sg4(x):
    return float("%.4g" % x)


def gen_function(rnd, what, bins, files, scale=1.0, kinds=None, T=1.0, wild=None):
    """An initial_guess / scaling_function dictionary (or None)."""
    kind = rnd.choice(kinds or ["none", "lambda", "lambda", "list", "file_rel", "file_abs"])
    if kind == "none":
        return None
    a, b = r3(rnd, -1, 1) * scale, sg4(rnd.uniform(0.5, 3) / (T if not 0.4 < T < 10 else 1.0))
    if what == "guess":
        body = "%r * np.sin(%r * t)" % (a, b) if rnd.random() < 0.6 else "%r + 0.0 * t" % a
        if wild is not None and wild.random() < 0.25:
            body = wild.choice(["np.where(t < %r, %r, -0.3)" % (sg4(0.5371 * T), a), "%r * np.exp(-(t / %r)**2)" % (a, sg4(T / 3)), "%r / (t + 0.0)" % (a or 0.3),
                                "np.abs(%r * t - 0.1)" % b, "np.round(np.sin(%r * t))" % b, "np.ones_like(t)", "np.array([%r if x > %r else 0 for x in t])" % (a, sg4(0.3371 * T)),
                                "np.linspace(0, %r, len(t))" % a, "1000 * t", "1.0 * (t > %r)" % sg4(0.5371 * T), "np.arange(len(t))"])
        vals = [round(rnd.uniform(-1, 1) * scale, 4) for _ in range(bins)]
    else:
        body = "1.0 + %r * np.cos(%r * t)" % (round(0.5 * a / max(scale, 1e-9), 4), b) if rnd.random() < 0.7 else "%r + 0.0 * t" % r3(rnd, 0.5, 3)
        vals = [r3(rnd, 0.2, 1.5) for _ in range(bins)]
        if wild is not None and wild.random() < 0.25:
            body = wild.choice(["np.where(t < %r, 1.0, 0.5)" % sg4(0.5371 * T), "1.0 - np.exp(-t / %r)" % sg4(T / 5), "-0.5 - t / %r" % sg4(T), "np.sin(%r * t)" % sg4(3.14159 / T),
                                "(t < %r)" % sg4(0.7371 * T), "2 * np.ones_like(t)", "np.array([0.0 if x == 0 else 1.0 for x in t])", "np.linspace(2, 1, len(t))"])
        if kind == "lambda" and rnd.random() < 0.3:
            return {"function_type": "lambda_function", "lambda_function": "lambda t, p: p * (1.0 + %r * t)" % b}
    if wild is not None and wild.random() < 0.12:       # whole numbers
        vals = [wild.randint(-1, 2) if what == "guess" else wild.randint(1, 2) for _ in range(bins)]
    if kind == "lambda":
        return {"function_type": "lambda_function", "lambda_function": "lambda t: " + body}
    if kind == "list":
        return {"function_type": "list_function", "list_function": vals}
    name = "fun_%s_%d" % (what, len(files))
    files[name + ".py"] = "import numpy as np\n\ndef shape(t):\n    return %s\n" % body
    if kind == "file_rel":
        return {"function_type": "python_file", "file_path": name + rnd.choice(["", ".py"]), "function_name": "shape",
                "path_mode": "relative"}
    return {"function_type": "python_file", "file_path": name + ".py", "function_name": "shape",
            "path_mode": "absolute", "vf_abs": True}


def gen_basis(rnd, bname, T, kmax=2):
    k = rnd.randint(1, kmax)
    b = {"basis_name": bname, "basis_vector_number": k}
    if bname == "PiecewiseBasis":
        return {"basis_name": bname}
    if bname in ("Fourier", "Walsh", "Chebyshev"):
        lo, hi = r3(rnd, 0.0, 1.5), r3(rnd, 1.6, 8)
    elif bname == "Sinc":
        lo, hi = 0.0, sg4(T)
    else:
        lo, hi = sg4(0.15 * T), sg4(0.85 * T)
        sg = sg4(rnd.uniform(0.02, 0.1) * T)
        if bname == "Sigmoid":
            if rnd.random() < 0.7:
                b["sigma"] = sg
            if rnd.random() < 0.7:
                b["offset"] = sg4(0.1 * T)
        else:
            b["sigma"] = sg
            if rnd.random() < 0.7:
                b["offset"] = sg4(rnd.uniform(0.06, 0.14) * T)
            if bname == "SigmoidTimeDep" and rnd.random() < 0.7:
                b["tau_variation"] = sg4(rnd.uniform(0.05, 0.6) * T)
            if bname == "SigmoidSigmas" and rnd.random() < 0.7:
                b["sigma_variation"] = r3(rnd, 0.1, 1.0)
            if bname == "SigmoidAllParas":
                if rnd.random() < 0.6:
                    b["tau_variation"] = sg4(rnd.uniform(0.05, 0.6) * T)
                if rnd.random() < 0.6:
                    b["sigma_variation"] = r3(rnd, 0.1, 1.0)
    b["random_super_parameter_distribution"] = {"distribution_name": "Uniform", "lower_limit": lo, "upper_limit": hi}
    return b


def basis_dim(basis, bins):
    n = basis["basis_name"]
    k = basis.get("basis_vector_number", 1)
    if n in ("Fourier", "Chebyshev", "Walsh"):
        return 2 * k
    if n == "Sinc":
        return k
    if n == "Sigmoid":
        return k + 1
    if n in ("SigmoidTimeDep", "SigmoidSigmas"):
        return 2 * k + 1
    if n == "SigmoidAllParas":
        return k + 1 + k * ("tau_variation" in basis) + k * ("sigma_variation" in basis)
    return bins


def gen_pulse(rnd, i, times, files, bases=None, shaping=False, simple=False, limits="mixed", funcs=None,
              bins_max=41, overwrite=False, kmax=2):
    bname = rnd.choice(bases or (CHOPPED + ["PiecewiseBasis"]))
    t = rnd.choice(times)
    if t["initial_value"] < 1e-9 and bname in ("SigmoidTimeDep", "SigmoidSigmas", "SigmoidAllParas"):
        bname = rnd.choice(["Sigmoid", "Fourier"])   # the switches of the others are absolute numbers (1e-10)
    bins = rnd.randint(3, 6) if bname == "PiecewiseBasis" else rnd.choice([2, 7, 16, 21, bins_max])
    wild = None if simple else __import__("random").Random(rnd.random())     # rare values, without disturbing the rest of the stream
    if wild and bname != "PiecewiseBasis" and wild.random() < 0.06:
        bins = wild.choice([1, 101, 128, 160, 300, 1001])
    style = limits if limits != "mixed" else rnd.choice(["wide", "tight", "offset", "asym", "swapped", "negative", "onesided"])
    if style == "wide":
        lo, hi = -50.0, 50.0
    elif style == "tight":
        lo, hi = -r3(rnd, 0.1, 0.6), r3(rnd, 0.1, 0.6)
    elif style == "offset":
        lo = r3(rnd, 0.05, 0.5)
        hi = lo + r3(rnd, 0.2, 1.0)
    elif style == "negative":
        hi = -r3(rnd, 0.05, 0.5)
        lo = hi - r3(rnd, 0.2, 1.0)
        if rnd.random() < 0.3:
            lo, hi = hi, lo
    elif style == "onesided":
        lo, hi = rnd.choice([(0.0, r3(rnd, 0.2, 2)), (-r3(rnd, 0.2, 2), 0.0), (0, 1)])
    else:
        lo, hi = -r3(rnd, 0.2, 2), r3(rnd, 0.2, 2)
        if style == "swapped":
            lo, hi = hi, lo
    p = {"pulse_name": "Pulse%d" % (i + 1), "lower_limit": lo, "upper_limit": hi, "bins_number": bins,
         "time_name": t["time_name"], "amplitude_variation": wild.choice([1, 2]) if wild and wild.random() < 0.05 else r3(rnd, 0.2, 1.5),
         "basis": gen_basis(rnd, bname, t["initial_value"], kmax)}
    if not simple:
        g = gen_function(rnd, "guess", bins, files, 0.5, funcs, t["initial_value"], wild)
        if g is not None:
            p["initial_guess"] = g
        s = gen_function(rnd, "scaling", bins, files, 1.0, funcs, t["initial_value"], wild)
        if s is not None:
            p["scaling_function"] = s
        pole = g is not None and "/ (t + 0.0)" in g.get("lambda_function", "") + files.get(g.get("file_path", "").replace(".py", "") + ".py", "")
        if rnd.random() < 0.4 and not pole:
            p["shrink_ampl_lim"] = True
        if shaping and rnd.random() < 0.4:
            ops = ["add_base_pulse", "add_new_update_pulse", "add_initial_guess", "scale_pulse"]
            rnd.shuffle(ops)
            drop = rnd.choice([None, None, "add_initial_guess", "scale_pulse"])
            ops = [o for o in ops if o != drop]
            r = rnd.random()
            if r < 0.7:
                ops.append("limit_pulse")
            elif r < 0.85:
                ops.insert(rnd.randint(1, len(ops)), "limit_pulse")
            p["shaping_options"] = ops
        if overwrite and rnd.random() < 0.3:
            p["overwrite_base_pulse"] = True
    return p


def gen_param(rnd, i):
    lo = r3(rnd, -2, 1)
    hi = lo + r3(rnd, 0.3, 2.5)
    q = {"parameter_name": "Par%d" % (i + 1), "lower_limit": lo, "upper_limit": round(hi, 4),
         "initial_value": round(rnd.uniform(lo, hi), 4), "amplitude_variation": r3(rnd, 0.1, 1.0)}
    wild = __import__("random").Random(rnd.random())
    w = wild.random()
    if w < 0.08:         # other scales and offsets
        k, o = wild.choice([(1.0, 60), (1e-3, 2), (300, 5), (0.05, -7)])
        for x in ("lower_limit", "upper_limit", "initial_value"):
            q[x] = sg6(o + k * q[x])
        q["amplitude_variation"] = sg6(k * q["amplitude_variation"])
    elif w < 0.14:       # start at a limit
        q["initial_value"] = q[wild.choice(["lower_limit", "upper_limit"])]
    elif w < 0.18:       # integers
        q.update(lower_limit=wild.randint(-2, 0), upper_limit=wild.randint(1, 3), amplitude_variation=1)
        q["initial_value"] = wild.randint(q["lower_limit"], q["upper_limit"])
    return q


def fom_spec(rnd, params, quant=True, noise=False):
    s = {"kind": rnd.choice(["quad", "quad", "rugged"]), "seed": rnd.randrange(10**6), "amp": r3(rnd, 0.3, 2),
         "prange": [[q["lower_limit"], q["upper_limit"]] for q in params]}
    if quant and rnd.random() < 0.25:
        s["quant"] = rnd.choice([0.05, 0.3])
    if noise and rnd.random() < 0.5:
        s["noise"] = rnd.choice([0.01, 0.2])
    if rnd.random() < 0.3:
        s["ret"] = rnd.choice(["np64", "np32", "int", "count", "count16"])
    if rnd.random() < 0.3:
        s["offset"] = r3(rnd, -3, 3)
    if rnd.random() < 0.3:
        s["std"] = rnd.choice([0.05, 0.3, "rand"])
    if rnd.random() < 0.2:
        s["status_zero"] = True
    return s


def config(rnd, alg=None, dsm=None, bases=None, npulses=None, nparams=None, direction=None, seeded=True, si=None,
           max_eval=None, max_eval_total="maybe", shaping=False, overwrite=False, simple=False, limits="mixed",
           funcs=None, drift=None, reeval=None, quant=True, noise=False, dump=None, goal=False, ntimes=None,
           adaptive=None, logfile=None, kmax=2, max_dim=9, tscale=False):
    """One random optimization: {"opt": dict, "fom": spec, "files": {...}, "np_seed": n}."""
    files = {}
    alg = alg or rnd.choice(["dCRAB", "dCRAB", "DirectSearch"])
    dsm = dsm or rnd.choice(["NelderMead", "NelderMead", "CMAES"])
    times = [{"time_name": "time%d" % (i + 1), "initial_value": rnd.choice([1.0, 0.7, 3.0, r3(rnd, 0.5, 6), r3(rnd, 0.5, 6), 2.5e-10 if tscale else 1.0, 4e-8 if tscale else 2.0, 1300.0 if tscale else 5.0])}
             for i in range(ntimes or rnd.choice([1, 1, 2]))]
    for t in times:
        if t["initial_value"] == 3.0 or t["initial_value"] == 5.0:
            t["initial_value"] = int(t["initial_value"])
    wide = __import__("random").Random(rnd.random())
    if simple or npulses is not None or nparams is not None or ntimes or max_dim != 9 or wide.random() > 0.05:
        wide = None
    else:       # rarely: many controls (names with two digits), several times
        max_dim = 48
        if alg == "DirectSearch":
            nparams = wide.randint(6, 13)
        else:
            npulses, nparams, kmax = wide.randint(4, 12), wide.randint(0, 11), 1
            bases = bases or [wide.choice(["Fourier", "Sinc", "Sigmoid", "Walsh", "Chebyshev"])] * 2 + ["Sinc"]
            times += [{"time_name": "time%d" % (len(times) + j + 1), "initial_value": r3(wide, 0.5, 6)} for j in range(wide.randint(0, 2))]
    while True:
        files.clear()
        if alg == "DirectSearch":
            pulses = []
            params = [gen_param(rnd, i) for i in range(nparams or rnd.randint(1, 4))]
            times_used = []
        else:
            n = npulses if npulses is not None else rnd.choice([1, 1, 2, 3])
            pulses = [gen_pulse(rnd, i, times, files, bases, shaping, simple, limits, funcs, overwrite=overwrite,
                                kmax=kmax) for i in range(n)]
            params = [gen_param(rnd, i) for i in range(nparams if nparams is not None else rnd.choice([0, 0, 1, 2]))]
            times_used = times
        dim = sum(basis_dim(p["basis"], p["bins_number"]) for p in pulses) + len(params)
        max_dim += 4 if wide else 0
        if 1 <= dim <= max_dim and not (dsm == "CMAES" and dim < 1):
            break
    me = max_eval or rnd.randint(dim + 3, dim + 35)
    sc = {"max_eval": me}
    if rnd.random() < 0.6:
        sc["xatol"] = rnd.choice([1e-14, 1e-6, 1e-3])
        sc["fatol"] = rnd.choice([1e-100, 1e-10, 1e-4])
    general = {"dsm_algorithm_name": dsm}
    if dsm == "NelderMead":
        if adaptive if adaptive is not None else rnd.random() < 0.4:
            general["is_adaptive"] = True
    elif rnd.random() < 0.4:
        general["population"] = rnd.randint(3, 9)
    a = {"algorithm_name": alg, "dsm_settings": {"general_settings": general, "stopping_criteria": sc}}
    if alg == "dCRAB":
        a["super_iteration_number"] = si or rnd.choice([1, 2, 3, 4])
        if not si and __import__("random").Random(me + 31 * dim + 997 * a["super_iteration_number"]).random() < 0.04:
            a["super_iteration_number"] = 11
    direction = direction or rnd.choice(["minimization", "maximization", None])
    if direction:
        a["optimization_direction"] = direction
    if seeded is True or (seeded is None and rnd.random() < 0.5):
        a["random_number_generator"] = {"seed_number": rnd.randrange(10**6)}
    if max_eval_total == "maybe":
        if rnd.random() < 0.4:
            a["max_eval_total"] = rnd.randint(1, 2 * me + 5)
    elif max_eval_total:
        a["max_eval_total"] = max_eval_total
    if drift and alg == "dCRAB" and drift is True:
        a["compensate_drift"] = {"compensate_after_SI": True, "num_average": rnd.choice([1, 1, 2, 3])}
    elif isinstance(drift, dict):
        a["compensate_drift"] = drift
    if reeval:
        a["re_evaluation"] = {"re_evaluation_steps": reeval} if reeval is not True else {}
    f = fom_spec(rnd, params, quant, noise)
    if direction == "maximization":
        f["flip"] = True
    names = __import__("random").Random(me + 17 * dim + 101 * len(pulses))
    if names.random() < 0.3:        # the names have no order
        for k, c in (("pulse_name", pulses), ("parameter_name", params)):
            new = [x[k] for x in c]
            names.shuffle(new)
            if names.random() < 0.5:
                new = [v[:-1] + str(7 + int(v[-1])) if v[-1].isdigit() else v for v in new]
            for x, v in zip(c, new):
                x[k] = v
    if names.random() < 0.2:        # a time no pulse uses
        times_used = list(times_used)
        times_used.insert(names.randint(0, len(times_used)), {"time_name": "idle", "initial_value": 2.5})
    opt = {"algorithm_settings": a, "pulses": pulses, "times": times_used, "parameters": params}
    dump = dump or rnd.choice([None, "npz", "json"])
    if dump:
        opt["dump_format"] = dump
    if logfile is not None:
        opt["create_logfile"] = logfile
    return {"opt": opt, "fom": f, "files": dict(files), "np_seed": rnd.randrange(2**31), "dim": dim}


def describe(cfg):
    """Coverage key of a configuration."""
    o = cfg["opt"]
    a = o["algorithm_settings"]
    return "/".join([a["algorithm_name"], a["dsm_settings"]["general_settings"].get("dsm_algorithm_name", "-")
                     if "dsm_settings" in a else "-",
                     a.get("optimization_direction", "min")[:3],
                     "+".join(sorted({p["basis"]["basis_name"] for p in o["pulses"]})) or "nopulse",
                     "p%dq%d" % (len(o["pulses"]), len(o["parameters"]))])


def in_units(r, cfg, u=None):
    """The same optimization with all pulses in other units (for instance tesla)."""
    u = u or r.choice([1e-12, 1e-9, 1e-7, 1e6])
    a = cfg["opt"]["algorithm_settings"]
    if cfg["opt"]["parameters"] and a["dsm_settings"]["general_settings"]["dsm_algorithm_name"] == "CMAES":
        u = 1e-4        # the covariance matrix of controls of very different sizes is numerically singular
    for p in cfg["opt"]["pulses"]:
        for k in ("lower_limit", "upper_limit", "amplitude_variation"):
            p[k] = sg6(u * p[k])
        g = p.get("initial_guess")
        if g and "list_function" in g:
            g["list_function"] = [u * v for v in g["list_function"]]
        elif g and "lambda_function" in g:
            g["lambda_function"] = g["lambda_function"].replace("lambda t: ", "lambda t: %r * (" % u) + ")"
        elif g:
            n = g["file_path"].replace(".py", "") + ".py"
            if "%r * (" % u not in cfg["files"][n]:
                cfg["files"][n] = cfg["files"][n].rstrip("\n").replace("return ", "return %r * (" % u) + ")\n"
    cfg["unit"] = cfg["fom"]["unit"] = u
    sc = cfg["opt"]["algorithm_settings"]["dsm_settings"]["stopping_criteria"]
    if "xatol" in sc:
        sc["xatol"] = min(sc["xatol"], 1e-6 * u)
    return cfg


def longer(r, cfg, n=None):
    """The same optimization with a budget of more than a thousand evaluations."""
    a = cfg["opt"]["algorithm_settings"]
    a.pop("max_eval_total", None)
    sc = a["dsm_settings"]["stopping_criteria"]
    sc.update(max_eval=n or r.randint(1050, 1400), xatol=1e-14, fatol=1e-100)
    if a["algorithm_name"] == "dCRAB":
        a["super_iteration_number"] = r.choice([1, 2])
    cfg["fom"].update(noise=0.3)        # never converged
    return cfg

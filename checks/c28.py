"""C28: a component is the one the settings name, however it is named; user components are used as given; wrong names are refused."""
import copy
import random
import sys
import types

from vf import gen

LEVEL = "exploration"
RULE = ("random seeded optimizations of all four algorithms in which algorithm, search method, basis and distribution are "
        "named by shipped name, by module and class, or given as class: all spellings must give the same evaluations and "
        "results bit for bit; optimizations with user-written bases (same class name in two modules), distributions, search "
        "methods and algorithms which record how they are built and called, judged against the contract (settings passed on, "
        "one search per super-iteration, every candidate evaluated once, answers passed back, stop seen, order begin-run-end); "
        "settings with a wrong component, time, direction or guess length must fail before any evaluation; distinct by component and "
        "spelling")
ASSUMPTIONS = ["the search method can be given by name or module and class only, as documented"]
QUICK_BUDGET = 30
THOROUGH_BUDGET = 300
REQUIRED = {"spellings": 100, "custom_basis": 25, "custom_distribution": 25, "custom_search": 25, "custom_algorithm": 15, "refused": 60}
MODS = {"dCRAB": "dCRABAlgorithm", "DirectSearch": "DirectSearchAlgorithm", "GRAPE": "GRAPEAlgorithm", "AD": "ADAlgorithm"}


def cases(tier, rnd):
    from vf import gr
    n = 900 if tier == "quick" else 6000
    for i in range(n):
        r = random.Random(rnd.random())
        k = i % 10
        if k < 4:
            if i in (1, 2) or (tier == "thorough" and i % 200 == 1):
                yield {"kind": "ad", "cfg": gr.ad_cfg(r, si=1, maxfun=3, bases=("Fourier",)), "seed": r.randrange(10**9)}
            elif i % 20 == 3:
                yield {"kind": "grape", "cfg": gr.grape_cfg(r), "seed": r.randrange(10**9)}
            else:
                bases = [(gen.CHOPPED + ["PiecewiseBasis"])[(i // 4) % 9]]
                yield {"kind": "spell", "seed": r.randrange(10**9), "cfg": gen.config(
                    r, alg="DirectSearch" if i % 5 == 2 else "dCRAB", dsm=["NelderMead", "CMAES"][i % 2], bases=bases, drift=i % 7 == 1)}
        elif k < 9:
            yield {"kind": ["basis", "dist", "search", "refuse", "refuse"][k - 4], "seed": r.randrange(10**9),
                   "cfg": gen.config(r, alg="dCRAB" if k != 6 or r.random() < 0.7 else "DirectSearch", max_eval_total=None, simple=k < 6)}
        else:
            yield {"kind": "alg" if i % 20 == 9 else "refuse", "seed": r.randrange(10**9), "cfg": gen.config(r, max_eval_total=None)}


def run(case, ctx):
    from vf import rec, gr
    globals()["k_" + case["kind"]](case, ctx, random.Random(case["seed"]))
    if ctx.sample is None:
        ctx.sample = {"kind": case["kind"]}


def respell(d, r, only=None):
    """Name every component differently; returns the list of what was used."""
    import importlib
    used = []

    def put(sec, kind, mod, cls, spelling, keys):
        sec.pop(keys[0])
        if spelling == "attribute":
            sec[keys[3]] = getattr(importlib.import_module(mod), cls)
        elif spelling == "module":
            sec[keys[1]], sec[keys[2]] = mod, cls
        elif spelling == "other":       # a name which is not shipped, with module and class
            sec[keys[0]] = "My" + cls
            sec[keys[1]], sec[keys[2]] = mod, cls
        elif spelling == "both":        # the shipped name wins over module and class, the class wins over everything
            sec[keys[0]] = "Nobody"
            sec[keys[1]], sec[keys[2]] = "no.such.module", "NoClass"
            sec[keys[3]] = getattr(importlib.import_module(mod), cls)
        used.append(kind + ":" + spelling)

    a = d["algorithm_settings"]
    cls = MODS[a["algorithm_name"]]
    put(a, "algorithm", "quocslib.optimizationalgorithms." + cls, cls, r.choice(["module", "attribute", "other", "both"]),
        ["algorithm_name", "algorithm_module", "algorithm_class", "algorithm_attribute"])
    if "dsm_settings" in a:
        g = a["dsm_settings"]["general_settings"]
        cls = g["dsm_algorithm_name"]
        put(g, "search", "quocslib.gradientfreemethods." + cls, cls, r.choice(["module", "other"]),
            ["dsm_algorithm_name", "dsm_algorithm_module", "dsm_algorithm_class"])
    for p in d["pulses"]:
        b = p["basis"]
        cls = b["basis_name"]
        put(b, cls, "quocslib.pulses.basis." + cls, cls, r.choice(["module", "attribute", "other", "both"]),
            ["basis_name", "basis_module", "basis_class", "basis_attribute"])
        s = b.get("random_super_parameter_distribution")
        if s:
            put(s, "distribution", "quocslib.pulses.superparameter.Uniform", "Uniform", r.choice(["module", "attribute", "other", "both"]),
                ["distribution_name", "distribution_module", "distribution_class", "distribution_attribute"])
    return used


def k_spell(case, ctx, r):
    from vf import rec, gr
    from checks.c10 import same_seq
    import numpy as np
    cfg = case["cfg"]
    go = {"spell": rec.run, "grape": gr.grape_run, "ad": gr.ad_run}[case["kind"]]
    runs, used = [], []
    for j in range(2 if case["kind"] == "ad" else 3):
        c = copy.deepcopy(cfg)
        if j:
            used.append(respell(c["opt"], r))
            # the description of the problem stays, the settings handed over are the respelled ones
            c2 = dict(c, opt=cfg["opt"])
            d = rec.prepare(c)
            t = rec.Trace(c2)
            if case["kind"] == "spell":
                t = rec.run(c2, d=d, trace=t)
            else:
                fom = gr.grape_fom(t, c2) if case["kind"] == "grape" else gr.ad_fom(t, c2)
                t = rec.run(c2, d=d, trace=t, fom=fom)
        else:
            t = go(c)
        runs.append(t)
        if not ctx.check(t.error is None, "run-error", error=t.error, used=used[-1:]):
            return
    a = runs[0]
    for t, u in zip(runs[1:], used):
        diff = same_seq(a.evals, t.evals)
        ctx.check(diff is None, "spelling-changes-run", what=diff, used=u)
        ctx.check(repr(a.final()) == repr(t.final()), "spelling-changes-result", used=u, a=a.final(), b=t.final())
        x, y = a.saved(), t.saved()
        ctx.check((x is None) == (y is None) and (x is None or (sorted(x) == sorted(y) and all(
            x[k].dtype.kind in "USO" or np.array_equal(x[k], y[k], equal_nan=True) for k in x))), "spelling-changes-file", used=u)
        ctx.count("spellings", len(u))
        for w in u:
            ctx.cover(w)


k_grape = k_ad = k_spell


def module(name, **content):
    m = types.ModuleType(name)
    for k, v in content.items():
        v.__module__ = name
        setattr(m, k, v)
    sys.modules[name] = m
    return m


def own_basis(tag, log, npar):
    """A user's basis: polynomial of the frequency-scaled time, marked with its own tag."""
    import numpy as np
    from quocslib.pulses.basis.ChoppedBasis import ChoppedBasis

    class MyBasis(ChoppedBasis):
        def __init__(self, map_index, pulse_dictionary, rng=None, is_AD=False):
            b = pulse_dictionary["basis"]
            self.super_parameter_number = b["basis_vector_number"]
            self.control_parameters_number = npar
            super().__init__(map_index=map_index, rng=rng, is_AD=is_AD, **pulse_dictionary)
            self.scale_coefficients = self.amplitude_variation * np.ones(npar)
            self.offset_coefficients = np.zeros(npar)
            log.append(("init", tag, map_index, pulse_dictionary.get("pulse_name"), b.get("my_setting"), rng is not None, is_AD))

        def _get_shaped_pulse(self):
            x = np.array(self.optimized_control_parameters, dtype=float)
            w = np.array(self.super_parameter_distribution_obj.w, dtype=float)
            out = shape(tag, x, w, self.time_grid / self.final_time)
            log.append(("shape", tag, self.pulse_name, x, w, len(self.time_grid), float(self.final_time)))
            return out
    return MyBasis


def shape(tag, x, w, s):
    import numpy as np
    out = np.zeros(len(s))
    for j, v in enumerate(x):
        ww = w[j % len(w)]
        out = out + v * (np.cos((j + 1) * ww * s) if tag == "A" else (0.3 * j - 1 + s * ww) ** 2 if tag == "B" else np.tanh(9 * (s - 0.37)) * (1 + j))
    return out


def k_basis(case, ctx, r):
    """Two modules with the same class name, and a class given directly."""
    import numpy as np
    from vf import rec
    log = []
    cfg = copy.deepcopy(case["cfg"])
    o = cfg["opt"]
    names = {}
    tags = [r.choice("ABC") for _ in range(3)]
    if len(set(tags[:2])) == 1:
        tags[1] = {"A": "B", "B": "C", "C": "A"}[tags[0]]
    classes = {}
    uid = "vf_own_%d_%%s" % r.randrange(10**9)
    for tag in "ABC":
        npar = r.randint(1, 3)
        classes[tag] = own_basis(tag, log, npar)
        module(uid % tag, MyBasis=classes[tag])
    npl = r.randint(1, 3)
    o["pulses"] = (o["pulses"] * 3)[:npl]
    o["pulses"] = [copy.deepcopy(p) for p in o["pulses"]]
    for i, p in enumerate(o["pulses"]):
        p.update(pulse_name="Own%d" % i, lower_limit=-1e3, upper_limit=1e3, my_note="kept")
        p["basis"] = {"basis_vector_number": r.randint(1, 3), "my_setting": ["s", i],
                      "random_super_parameter_distribution": {"distribution_name": "Uniform", "lower_limit": 0.5 + i, "upper_limit": 3.0 + i}}
        names["Own%d" % i] = tags[i]
    cfg["dim"] = sum(len([1] * classes_n(classes[tags[i]], o["pulses"][i])) for i in range(npl)) + len(o["parameters"])
    d = rec.prepare(cfg)
    for i, p in enumerate(d["pulses"]):
        how = r.choice(["module", "attribute", "other"])
        if how == "attribute":
            p["basis"]["basis_attribute"] = classes[tags[i]]
        else:
            p["basis"]["basis_module"], p["basis"]["basis_class"] = uid % tags[i], "MyBasis"
            if how == "other":
                p["basis"]["basis_name"] = "MyBasis"
        ctx.cover("basis:" + how)
    log.clear()
    marks = []

    def hook(t, kind, e):
        if kind == "call":
            marks.append(len(log))
    t = rec.run(cfg, d=d, hook=hook)
    if not ctx.check(t.error is None, "custom-basis-error", error=t.error):
        return
    inits = [x for x in log if x[0] == "init"]
    ctx.check([(x[1], x[3], x[4], x[6]) for x in inits] == [(tags[i], "Own%d" % i, ["s", i], False) for i in range(npl)],
              "custom-basis-init", got=inits)
    seeded = "random_number_generator" in o["algorithm_settings"]
    ctx.check(all(x[5] == seeded for x in inits), "custom-basis-rng", seeded=seeded)
    # every evaluation: pulse = base of the super-iteration + the shape of the last call
    times = {q["time_name"]: q["initial_value"] for q in o["times"]}
    base = [np.zeros(p["bins_number"]) for p in o["pulses"]]
    last_w = None
    for e, m in zip(t.evals, marks):
        for i, p in enumerate(o["pulses"]):
            calls = [x for x in log[:m] if x[0] == "shape" and x[2] == "Own%d" % i]
            if not ctx.check(calls, "custom-basis-not-called", pulse=i):
                return
            _, tag, _, x, w, bins, T = calls[-1]
            ctx.check(bins == p["bins_number"] and T == times[p["time_name"]], "custom-basis-grid", bins=bins, T=T)
            want_n = classes_n(classes[tag], p)
            ctx.check(len(x) == want_n and len(w) == p["basis"]["basis_vector_number"], "custom-basis-sizes", x=len(x), w=len(w))
            rest = np.asarray(e["pulses"][i]) - shape(tag, x, w, np.linspace(0, 1, bins))
            if e["n"] == 0:
                ctx.check(rec.close(rest, np.zeros(bins), 1e-8), "custom-basis-pulse", rest=rest, own=tag)
            ctx.check(tag == tags[i], "wrong-basis", got=tag, want=tags[i])
            key = (i, tuple(w))
            if key not in names:
                names[key] = rest
            ctx.check(rec.close(rest, names[key], 1e-7), "custom-basis-pulse", rest=rest, base=names[key], n=e["n"])
    ctx.count("custom_basis")


def classes_n(cls, p):
    """Number of control parameters of an own basis (closure variable)."""
    init = cls.__init__
    return dict(zip(init.__code__.co_freevars, [c.cell_contents for c in init.__closure__]))["npar"]


def k_dist(case, ctx, r):
    import numpy as np
    from vf import rec
    log = []
    cfg = copy.deepcopy(case["cfg"])
    o = cfg["opt"]
    npl = r.randint(1, 3)
    o["pulses"] = [copy.deepcopy(p) for p in (o["pulses"] * 3)[:npl]]
    uid = "vf_dist_%d" % r.randrange(10**9)

    class MyDistribution:
        def __init__(self, number, dictionary, rng=None):
            self.n, self.d, self.rng = number, dictionary, rng
            self.w = np.zeros(number)
            self.times = 0
            log.append(("init", number, dictionary.get("values"), rng is not None))

        def set_random_super_parameter(self):
            self.times += 1
            self.w = np.array([self.d["values"][(self.times * 3 + j) % len(self.d["values"])] for j in range(self.n)])
            log.append(("set", self.d["mark"], self.times))
    module(uid, MyDistribution=MyDistribution)
    for i, p in enumerate(o["pulses"]):
        p.update(pulse_name="Own%d" % i, lower_limit=-1e3, upper_limit=1e3)
        p["bins_number"] = max(p["bins_number"], 16)
        p["basis"] = {"basis_name": "Fourier", "basis_vector_number": r.randint(1, 2),
                      "random_super_parameter_distribution": {"values": [round(r.uniform(0.1, 3), 3) for _ in range(5)], "mark": i}}
    si = o["algorithm_settings"]["super_iteration_number"]
    d = rec.prepare(cfg)
    for i, p in enumerate(d["pulses"]):
        s = p["basis"]["random_super_parameter_distribution"]
        how = r.choice(["module", "attribute", "other"])
        if how == "attribute":
            s["distribution_attribute"] = MyDistribution
        else:
            s["distribution_module"], s["distribution_class"] = uid, "MyDistribution"
            if how == "other":
                s["distribution_name"] = "MyDistribution"
        ctx.cover("distribution:" + how)
    marks = []

    def hook(t, kind, e):
        if kind == "call":
            marks.append(sum(1 for x in log if x[0] == "set"))
    t = rec.run(cfg, d=d, hook=hook)
    if not ctx.check(t.error is None, "custom-distribution-error", error=t.error):
        return
    inits = [x[1:3] for x in log if x[0] == "init"]
    want = [(p["basis"]["basis_vector_number"], p["basis"]["random_super_parameter_distribution"]["values"]) for p in o["pulses"]]
    ctx.check(inits == want, "custom-distribution-init", got=inits, want=want)
    sets = [x[1:] for x in log if x[0] == "set"]
    ctx.check(sets == [(i, s) for s in range(1, si + 1) for i in range(npl)], "custom-distribution-draws", got=sets, si=si, npl=npl)
    base = [np.zeros(p["bins_number"]) for p in o["pulses"]]
    for e, m in zip(t.evals, marks):
        ctx.check(m % npl == 0 and m >= npl, "drawn-inside-search", sets=m, npl=npl)
        s = m // npl
        for i, p in enumerate(o["pulses"]):
            q = p["basis"]["random_super_parameter_distribution"]["values"]
            cols = []
            u = np.linspace(0, 1, p["bins_number"])
            for k in range(1, s + 1):       # the pulse lies in the span of all draws so far
                for j in range(p["basis"]["basis_vector_number"]):
                    w = q[(k * 3 + j) % 5]
                    cols += [np.sin(2 * np.pi * w * u), np.cos(2 * np.pi * w * u)]
            A = np.array(cols).T
            x = np.asarray(e["pulses"][i])
            res = x - A @ np.linalg.lstsq(A, x, rcond=None)[0]
            if A.shape[1] < len(u) - 2:
                ctx.check(np.max(np.abs(res)) < 1e-6 * max(1, np.max(np.abs(x))), "custom-frequencies-not-used", n=e["n"], si=s,
                          res=float(np.max(np.abs(res))))
    ctx.count("custom_distribution")


def k_search(case, ctx, r):
    import numpy as np
    from vf import rec
    from quocslib.gradientfreemethods.DirectSearchMethod import DirectSearchMethod
    from quocslib.stoppingcriteria.NelderMeadStoppingCriteria import NelderMeadStoppingCriteria
    log = []
    cfg = copy.deepcopy(case["cfg"])
    o = cfg["opt"]
    a = o["algorithm_settings"]
    per = r.randint(3, 12)
    stop_at = r.choice([None, None, r.randint(1, per)])
    uid = "vf_search_%d" % r.randrange(10**9)

    class MySearch(DirectSearchMethod):
        def __init__(self, settings, stopping_criteria, callback=None, **kwargs):
            super().__init__()
            self.callback = callback
            self.sc_obj = NelderMeadStoppingCriteria(stopping_criteria)
            self.settings = settings
            log.append(("init", copy.deepcopy({k: settings.get(k) for k in ("my_key",)}), stopping_criteria.get("my_limit")))

        def run_dsm(self, func, x0, args=(), initial_simplex=None, sigma_v=None, **kwargs):
            g = np.random.default_rng(case["seed"])
            calls, f = self._get_wrapper(args, func)
            self.sc_obj.is_converged = False
            x0 = np.array(x0, dtype=float)
            log.append(("start", x0.copy(), np.array(initial_simplex), np.array(sigma_v)))
            best, bx = np.inf, x0
            for i in range(per):
                x = x0 + (np.array(sigma_v) * g.uniform(-0.5, 0.5, len(x0)) if i else 0)
                before = bool(self.callback())
                v = f(x, i)
                log.append(("eval", x.copy(), float(v), before, bool(self.callback())))
                if v < best:
                    best, bx = v, x
                if not self.callback():
                    break
            log.append(("end",))
            return {"F_min_val": best, "X_opti_vec": bx, "NfunevalsUsed": calls[0], "terminate_reason": "my own reason"}
    module(uid, MySearch=MySearch)
    d = rec.prepare(cfg)
    g = d["algorithm_settings"]["dsm_settings"]["general_settings"]
    g.clear()
    g.update(dsm_algorithm_module=uid, dsm_algorithm_class="MySearch", my_key=[1, {"x": 2}])
    if r.random() < 0.4:
        g["dsm_algorithm_name"] = "MySearch"
    d["algorithm_settings"]["dsm_settings"]["stopping_criteria"]["my_limit"] = 17
    total = [0]

    def hook(t, kind, e):
        if kind == "ret" and stop_at is not None and len(t.evals) == stop_at:
            t.he.is_user_running = False
    t = rec.run(cfg, d=d, hook=hook)
    if not ctx.check(t.error is None, "custom-search-error", error=t.error):
        return
    ctx.check([x for x in log if x[0] == "init"] == [("init", {"my_key": [1, {"x": 2}]}, 17)], "custom-search-init", got=log[:1])
    starts = [x for x in log if x[0] == "start"]
    evals = [x for x in log if x[0] == "eval"]
    want_si = a.get("super_iteration_number", 1) if stop_at is None else 1
    ctx.check(len(starts) == want_si, "searches", got=len(starts), want=want_si)
    dim = cfg["dim"]
    for s in starts:
        ctx.check(s[1].shape == (dim,) and s[3].shape == (dim,) and s[2].shape == (dim + 1, dim), "search-start", x0=s[1].shape,
                  sigma=s[3].shape, simplex=s[2].shape)
        ctx.check(np.array_equal(s[2][0], s[1]), "simplex-without-start")
    done = [x for x in evals]
    if not ctx.check(len(t.evals) == len(done), "evaluations", got=len(t.evals), asked=len(done)):
        return
    for e, x in zip(t.evals, done):
        ctx.check(x[3] is True, "stop-too-early")
        last = stop_at is not None and e["n"] == stop_at - 1
        if e["fom"] is not None:
            ctx.check(x[2] == t.sign * e["fom"], "answer", got=x[2], want=t.sign * e["fom"], n=e["n"])
        ctx.check(x[4] is not last, "stop-not-seen" if last else "stopped-alone", n=e["n"])
    if a["algorithm_name"] == "DirectSearch":
        for e, x in zip(t.evals, done):
            lo = [min(q["lower_limit"], q["upper_limit"]) for q in o["parameters"]]
            hi = [max(q["lower_limit"], q["upper_limit"]) for q in o["parameters"]]
            ctx.check(rec.close(e["parameters"], np.clip(x[1], lo, hi), 1e-12), "candidate", n=e["n"], got=e["parameters"], want=x[1])
    fin = t.final()
    if stop_at is None:
        ctx.check(fin["terminate_reason"] == "my own reason", "reason", got=fin["terminate_reason"])
    b = t.best_value()
    ctx.check(b is None or fin["Figure of merit"] == b, "best", got=fin["Figure of merit"], want=b)
    vals = [t.sign * e["fom"] for e in t.valid()]
    if vals:
        best = t.evals[min(range(len(vals)), key=lambda i: vals[i])]
        ctx.check(rec.same_controls({k: t.best_controls()[k] for k in ("pulses", "timegrids", "parameters")}, best, 1e-8),
                  "best-controls", n=best["n"])
    ctx.count("custom_search")
    ctx.cover("search:%s:%s" % (a["algorithm_name"], "stop" if stop_at else "free"))


def k_alg(case, ctx, r):
    from vf import rec
    log = []
    uid = "vf_alg_%d" % r.randrange(10**9)

    class MyAlgorithm:
        def __init__(self, optimization_dict=None, communication_obj=None, FoM_object=None, **kw):
            log.append(("init", optimization_dict, communication_obj, FoM_object))

        def begin(self):
            log.append(("begin",))

        def run(self):
            log.append(("run",))

        def end(self):
            log.append(("end",))
    module(uid, MyAlgorithm=MyAlgorithm)
    cfg = copy.deepcopy(case["cfg"])
    d = rec.prepare(cfg)
    a = d["algorithm_settings"]
    a.pop("algorithm_name")
    how = r.choice(["module", "attribute", "other", "both"])
    if how in ("attribute", "both"):
        a["algorithm_attribute"] = MyAlgorithm
        if how == "both":
            a["algorithm_name"] = "dCRAB"
    else:
        a["algorithm_module"], a["algorithm_class"] = uid, "MyAlgorithm"
        if how == "other":
            a["algorithm_name"] = "MyAlgorithm"
    t = rec.run(cfg, d=d, execute=False)
    if not ctx.check(t.error is None, "custom-algorithm-error", error=t.error):
        return
    ctx.check([x[0] for x in log] == ["init"] and isinstance(t.alg, MyAlgorithm), "custom-algorithm-init", got=[x[0] for x in log])
    ctx.check(log[0][1] is d and log[0][2] is t.opt.communication_obj and log[0][3] is t.fom_obj, "custom-algorithm-arguments")
    t.opt.execute()
    ctx.check([x[0] for x in log] == ["init", "begin", "run", "end"], "custom-algorithm-order", got=[x[0] for x in log])
    ctx.count("custom_algorithm")
    ctx.cover("algorithm:" + how)


def k_refuse(case, ctx, r):
    from vf import rec
    cfg = case["cfg"]
    d = rec.prepare(copy.deepcopy(cfg))
    a = d["algorithm_settings"]
    g = a["dsm_settings"]["general_settings"]
    pulses = d["pulses"]
    what = r.choice(["alg-name", "alg-module", "alg-class", "alg-none", "dsm-name", "dsm-module", "dsm-class", "dsm-none", "direction"]
                    + (["basis-name", "basis-module", "basis-class", "basis-none", "dist-name", "dist-module", "dist-none", "time",
                        "list-guess", "list-scaling"] * 2 if pulses else []))
    bad = r.choice(["NelderMeadd", "neldermead", "dcrab", "DCRAB", "", " Fourier", "fourier", "uniform", "Gaussian", "no.such.module"])
    p = r.choice(pulses) if pulses else None
    if what.startswith("alg"):
        a.pop("algorithm_name")
        if what == "alg-name":
            a["algorithm_name"] = bad
        elif what == "alg-module":
            a.update(algorithm_module="no.such.module", algorithm_class="dCRABAlgorithm")
        elif what == "alg-class":
            a.update(algorithm_module="quocslib.optimizationalgorithms.dCRABAlgorithm", algorithm_class="NoClass")
    elif what.startswith("dsm"):
        g.pop("dsm_algorithm_name")
        if what == "dsm-name":
            g["dsm_algorithm_name"] = bad
        elif what == "dsm-module":
            g.update(dsm_algorithm_module="no.such.module", dsm_algorithm_class="NelderMead")
        elif what == "dsm-class":
            g.update(dsm_algorithm_module="quocslib.gradientfreemethods.NelderMead", dsm_algorithm_class="NoClass")
    elif what == "direction":
        a["optimization_direction"] = r.choice(["maximisation", "max", "", "Minimization", "both", 1])
    elif what.startswith("basis"):
        b = p["basis"]
        b.pop("basis_name")
        if what == "basis-name":
            b["basis_name"] = bad
        elif what == "basis-module":
            b.update(basis_module="no.such.module", basis_class="Fourier")
        elif what == "basis-class":
            b.update(basis_module="quocslib.pulses.basis.Fourier", basis_class="NoClass")
    elif what.startswith("dist"):
        s = p["basis"].get("random_super_parameter_distribution")
        if s is None:
            return
        s.pop("distribution_name")
        if what == "dist-name":
            s["distribution_name"] = bad
        elif what == "dist-module":
            s.update(distribution_module="no.such.module", distribution_class="Uniform")
    elif what == "time":
        p["time_name"] = "no such time"
    else:
        if p["bins_number"] == 1:       # numpy stretches a single value to any length
            return
        n = r.choice([p["bins_number"] + 1, max(2, p["bins_number"] - 1) if p["bins_number"] > 2 else p["bins_number"] + 2])
        p["initial_guess" if what == "list-guess" else "scaling_function"] = {
            "function_type": "list_function", "list_function": [0.1] * n}
        p.pop("shaping_options", None)
    t = rec.run(cfg, d=d)
    ctx.check(t.error is not None and not t.evals, "accepted", what=what, value=bad, evaluations=len(t.evals))
    ctx.count("refused")
    ctx.cover("refuse:" + what)

"""C10: with a seed the whole run is reproducible, whatever happened before or happens around it; other seeds differ."""
import random
from vf import gen

LEVEL = "exploration"
RULE = ("each random seeded optimization (all algorithms, Nelder-Mead and CMA-ES, every chopped basis, piecewise basis, "
        "drift compensation, re-evaluation) is run twice with different global random state, with other optimizations run in "
        "between, with a figure of merit which itself consumes global random numbers, and once with another seed; "
        "evaluation sequences, results and saved files are compared bit for bit; non-trivial: at least 2 evaluations and "
        "the other seed gives another sequence; distinct by settings class")
ASSUMPTIONS = ["the figure of merit is a deterministic function of controls and call number"]
QUICK_BUDGET = 24
THOROUGH_BUDGET = 300
REQUIRED = {"pairs": 100, "other_seed_differs": 60}


def cases(tier, rnd):
    n = 440 if tier == "quick" else 6000
    for i in range(n):
        r = random.Random(rnd.random())
        k = i % 22
        from vf import gr
        d = r.choice(["minimization", "maximization"])
        if k == 5:
            yield {"kind": "grape", "cfg": gr.grape_cfg(r, d), "s2": r.randrange(10**6, 2 * 10**6)}
            continue
        if i in (6, 28) or (tier == "thorough" and k == 6 and i % 3 == 0):
            yield {"kind": "ad", "cfg": gr.ad_cfg(r, d, si=2, maxfun=4, nparams=1, bases=("PiecewiseBasis", "Fourier")),
                   "s2": r.randrange(10**6, 2 * 10**6)}
            continue
        cfg = gen.config(r, alg="DirectSearch" if i % 5 == 2 else "dCRAB", dsm=r.choice(["NelderMead", "CMAES"]),
                         bases=[(gen.CHOPPED + ["PiecewiseBasis"])[i % 9]] if r.random() < 0.6 else None, shaping=True,
                         overwrite=True, drift=i % 4 == 1, reeval=i % 11 == 3, noise=True)
        if i % 90 == 77:
            cfg = gen.longer(r, cfg)
        if i % 11 == 3:
            cfg["fom"]["std"] = 0.2
            cfg["fom"].pop("ret", None)
        if i % 27 == 4:      # many random numbers at once
            cfg = gen.config(r, alg="dCRAB", dsm=["NelderMead", "CMAES"][i % 2], bases=["Fourier"], npulses=1, nparams=0, si=1, simple=True, max_eval=12)
            p = cfg["opt"]["pulses"][0]
            p["basis"]["basis_vector_number"] = r.choice([40, 65, 130])
            cfg["dim"] = 2 * p["basis"]["basis_vector_number"]
            cfg["opt"]["algorithm_settings"].pop("max_eval_total", None)
            cfg["opt"]["algorithm_settings"]["max_eval_total"] = 25
        s = r.choice([0, 0, 1, 2**31, 2**33 + 5]) if r.random() < 0.25 else r.randrange(10**6)
        cfg["opt"]["algorithm_settings"]["random_number_generator"] = {"seed_number": s}
        s2 = s + r.choice([1, 1000, 4096, 65536, 2**31, 2**32]) if r.random() < 0.5 else r.randrange(10**6, 2 * 10**6)
        cfg["default_handle"] = i % 4 == 3
        yield {"kind": "run", "cfg": cfg, "s2": s2, "eats": r.random() < 0.5}


def same_seq(a, b):
    import numpy as np
    if len(a) != len(b):
        return "length %d %d" % (len(a), len(b))
    for x, y in zip(a, b):
        for k in ("pulses", "timegrids"):
            if len(x[k]) != len(y[k]) or not all(np.array_equal(p, q) for p, q in zip(x[k], y[k])):
                return "%s of evaluation %d" % (k, x["n"])
        if x["parameters"] != y["parameters"]:
            return "parameters of evaluation %d: %s %s" % (x["n"], x["parameters"], y["parameters"])
        if not (x["fom"] == y["fom"] or x["fom"] != x["fom"]):
            return "fom of evaluation %d" % x["n"]
    return None


def run(case, ctx):
    import copy
    import numpy as np
    from vf import rec, gr
    cfg = case["cfg"]

    def once(np_seed, seed=None, noise_before=False):
        c = copy.deepcopy(cfg)
        if seed is not None:
            c["opt"]["algorithm_settings"]["random_number_generator"] = {"seed_number": seed}
        if noise_before:
            # other work in the same process: another optimization and unrelated random numbers
            r = random.Random(case["s2"])
            other = gen.config(r, alg=r.choice(["dCRAB", "DirectSearch"]), max_eval=12, max_eval_total=15)
            rec.run(other)
            random.random()
        np.random.seed(np_seed)
        random.seed(np_seed)
        if case["kind"] == "grape":
            return gr.grape_run(c, np_seed=False)
        if case["kind"] == "ad":
            return gr.ad_run(c, np_seed=False)

        def hook(t, kind, e):
            if case.get("eats") and kind == "call":
                np.random.rand(1 + (np_seed % 7))
        return rec.run(c, hook=hook, np_seed=False)

    a = once(11)
    b = once(987654, noise_before=case["kind"] == "run")
    for t in (a, b):
        if not ctx.check(t.error is None, "run-failed", error=t.error):
            return
    diff = same_seq(a.evals, b.evals)
    ctx.check(diff is None, "not-reproducible", what=diff, settings=gen.describe(cfg))
    ra, rb = a.final(), b.final()
    ctx.check(repr(ra) == repr(rb), "results-differ", a=ra, b=rb)
    sa, sb = a.saved(), b.saved()
    ok = (sa is None) == (sb is None)
    if ok and sa is not None:
        ok = sorted(sa) == sorted(sb) and all(sa[k].dtype.kind in "USO" or np.array_equal(sa[k], sb[k], equal_nan=True)
                                              for k in sa)
    ctx.check(ok, "saved-differ")
    ctx.count("pairs")
    ctx.count("evaluations", len(a.evals) + len(b.evals))
    c = once(11, seed=case["s2"])
    if len(a.evals) >= 2 and len(c.evals) >= 2 and c.error is None:
        # the first point of a direct search is fixed, the rest must depend on the seed
        if case["kind"] == "run" and all_fixed(cfg):
            ctx.count("no_randomness")
            return
        # with a figure of merit and controls saturated at the limits nothing can differ: only judge vectors
        if same_seq(a.evals, c.evals) is None and moved(a):
            ctx.viol("seed-ignored", settings=gen.describe(cfg), evaluations=len(a.evals))
        else:
            ctx.count("other_seed_differs")
            ctx.cover("%s/%s" % (case["kind"], gen.describe(cfg)))
    if ctx.sample is None:
        ctx.sample = {"settings": gen.describe(cfg), "evaluations": len(a.evals), "other_seed": len(c.evals)}


def all_fixed(cfg):
    """A one-dimensional piecewise/parameter search has only one simplex direction (+-), nothing else is drawn."""
    a = cfg["opt"]["algorithm_settings"]
    return cfg["dim"] <= 1 and a["dsm_settings"]["general_settings"]["dsm_algorithm_name"] == "NelderMead" and \
        all(p["basis"]["basis_name"] == "PiecewiseBasis" for p in cfg["opt"]["pulses"])


def moved(t):
    import numpy as np
    from vf import rec
    return len(t.evals) >= 2 and any(not rec.same_controls(t.evals[0], e, 1e-6) for e in t.evals[1:])

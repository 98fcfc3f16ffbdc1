"""C06: every set of controls handed to the figure of merit, shown to observers, saved or returned is feasible."""
import random
from vf import gen

LEVEL = "exploration"
RULE = ("random optimizations of all algorithms and bases with wide, tight, offset, asymmetric and swapped limits, "
        "large amplitude variations, scaling functions, guesses outside the limits, clipping and shrinking; each "
        "evaluation is judged; non-trivial: a limit was active (some sample within 1e-9 of a bound); distinct by basis, "
        "limiting mode, and kind of limit")
ASSUMPTIONS = ["pulses whose shaping list does not end with the limiting step are only checked for shape and finiteness"]
QUICK_BUDGET = 22
THOROUGH_BUDGET = 300
REQUIRED = {"pulses_judged": 3000, "limit_active": 500, "param_limit_active": 50, "shrunk_active": 100}


def cases(tier, rnd):
    n = 600 if tier == "quick" else 8000
    for i in range(n):
        r = random.Random(rnd.random())
        k = i % 20
        from vf import gr
        if k == 5:
            cfg = gr.grape_cfg(r, r.choice(["minimization", "maximization"]), maxfun=15)
            w = round(r.uniform(0.05, 1.0), 3)
            cfg["opt"]["pulses"][0].update(lower_limit=-w, upper_limit=round(r.uniform(0.05, 1.0), 3))
            yield {"kind": "grape", "cfg": cfg}
            continue
        if i in (6, 26) or (tier == "thorough" and k == 6 and i % 3 == 0):
            cfg = gr.ad_cfg(r, r.choice(["minimization", "maximization"]), si=2, maxfun=5, npulses=2, nparams=1,
                            bases=("PiecewiseBasis", "Fourier"))
            for p in cfg["opt"]["pulses"]:
                p.update(lower_limit=-r.choice([0.2, 0.5, 30.0]), upper_limit=r.choice([0.3, 0.7, 30.0]))
            for q in cfg["opt"]["parameters"]:
                q.update(lower_limit=0.0, upper_limit=0.5, initial_value=0.4)
            yield {"kind": "ad", "cfg": cfg}
            continue
        cfg = gen.config(r, shaping=True, overwrite=True, tscale=True, noise=True, limits=r.choice(["mixed", "mixed", "tight", "offset", "negative"]),
                         drift=r.random() < 0.2)
        if i % 100 == 77:
            cfg = gen.longer(r, cfg)
        for p in cfg["opt"]["pulses"]:
            if r.random() < 0.12 and p["basis"]["basis_name"] != "PiecewiseBasis":
                # a guess with narrow spikes on a fine grid
                T = [t["initial_value"] for t in cfg["opt"]["times"] if t["time_name"] == p["time_name"]][0]
                p["bins_number"] = r.choice([101, 250, 401])
                p["initial_guess"] = {"function_type": "lambda_function", "lambda_function": "lambda t: %r*np.exp(-((t/%r-%r)/%r)**2)" % (
                    gen.r3(r, 2, 6) * r.choice([1, -1]), T, gen.r3(r, 0.1, 0.9), r.choice([0.002, 0.005, 0.02]))}
                if p.get("scaling_function", {}).get("function_type") == "list_function":
                    p.pop("scaling_function")
                if r.random() < 0.6:
                    p["shrink_ampl_lim"] = True
            if r.random() < 0.5:
                p["amplitude_variation"] = round(p["amplitude_variation"] * r.choice([5, 30]), 4)
        for q in cfg["opt"]["parameters"]:
            if r.random() < 0.5:
                q["amplitude_variation"] = round(q["amplitude_variation"] * 5, 4)
        yield {"kind": "run", "cfg": cfg}


def run(case, ctx):
    import numpy as np
    from vf import rec, gr
    cfg = case["cfg"]
    tr = {"grape": gr.grape_run, "ad": gr.ad_run, "run": rec.run}[case["kind"]](cfg)
    if not ctx.check(tr.error is None, "run-failed", error=tr.error):
        return
    o = cfg["opt"]
    T = {t["time_name"]: t["initial_value"] for t in o["times"]}
    ad = case["kind"] == "ad"
    tol = 2e-6 if ad else 1e-11

    def judge(c, src):
        if not ctx.check(len(c["pulses"]) == len(o["pulses"]) and len(c["timegrids"]) == len(o["pulses"])
                         and len(c["parameters"]) == len(o["parameters"]), "list-lengths", src=src):
            return
        for pd, u, t in zip(o["pulses"], c["pulses"], c["timegrids"]):
            u, t = np.asarray(u), np.asarray(t)
            n = pd["bins_number"]
            if ad:
                ctx.check(u.ndim == 1 and len(u) >= n, "ad-shape", shape=u.shape)
                ctx.check(float(np.max(np.abs(np.imag(u)), initial=0)) == 0.0, "ad-imag", src=src)
                u, t = np.real(u[:n]), np.real(t[:n])
            ctx.count("pulses_judged")
            if not ctx.check(u.shape == (n,) and t.shape == (n,), "shape", src=src, pulse=pd["pulse_name"],
                             got=[u.shape, t.shape], bins=n):
                continue
            if not ctx.check(np.isrealobj(u) and bool(np.all(np.isfinite(u))), "not-finite", src=src, basis=pd["basis"]["basis_name"]):
                continue
            tt = float(T[pd["time_name"]])
            ref = np.array([j * tt / max(n - 1, 1) for j in range(n)])
            ctx.check(bool(np.allclose(t, ref, rtol=0, atol=(1e-6 if ad else 1e-12) * tt)), "time-grid", src=src,
                      final=tt, grid=t[:5])
            so = pd.get("shaping_options")
            if so is None or (so and so[-1] == "limit_pulse"):
                lo, hi = min(pd["lower_limit"], pd["upper_limit"]), max(pd["lower_limit"], pd["upper_limit"])
                s = tol * max(1.0, abs(lo), abs(hi))
                ctx.check(bool(u.min() >= lo - s and u.max() <= hi + s), "limit-violated", src=src,
                          basis=pd["basis"]["basis_name"], shrink=pd.get("shrink_ampl_lim", False), limits=[lo, hi],
                          got=[float(u.min()), float(u.max())])
                if u.min() <= lo + 1e-9 or u.max() >= hi - 1e-9:
                    ctx.count("limit_active")
                    if pd.get("shrink_ampl_lim"):
                        ctx.count("shrunk_active")
                    ctx.cover("%s/%s/%s/%s" % (case["kind"], pd["basis"]["basis_name"], pd.get("shrink_ampl_lim", False),
                                               "swap" if pd["lower_limit"] > pd["upper_limit"] else
                                               ("offset" if lo > 0 else ("negative" if hi < 0 else "std"))))
        for q, v in zip(o["parameters"], c["parameters"]):
            v = float(np.real(v))
            lo, hi = q["lower_limit"], q["upper_limit"]
            s = (1e-6 if ad else 1e-12) * max(1.0, abs(lo), abs(hi))
            ctx.check(lo - s <= v <= hi + s, "parameter-limit", src=src, value=v, limits=[lo, hi])
            if v <= lo + 1e-9 or v >= hi - 1e-9:
                ctx.count("param_limit_active")
                ctx.cover("param/%s/%s" % (case["kind"], "lo" if v <= lo + 1e-9 else "hi"))

    for e in tr.evals:
        judge(e, "evaluation %d" % e["n"])
    for k, p in tr.log:
        if k == "ctrl" and not ad:
            judge(p, "observer")
    judge(tr.best_controls(), "getter")
    sv = tr.saved()
    if sv is not None:
        judge(rec.controls_from_saved(sv, cfg), "file")
    if ctx.sample is None:
        ctx.sample = {"settings": gen.describe(cfg), "evaluations": len(tr.evals)}

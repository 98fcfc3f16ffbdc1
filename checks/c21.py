"""C21: the automatic differentiation algorithm descends along the derivative with respect to its search vector."""
import random
from vf import gen

LEVEL = "exploration"
RULE = ("random smooth problems (up to three pulses on several bases, parameters, guesses, scaling functions, active and "
        "inactive limits, figures of merit scaled from 1e-3 to 3e4, both directions, several super-iterations) are optimized by AD or followed downhill in small steps while every value and gradient "
        "handed to the optimizer is recorded; values and gradients are compared with central differences of an "
        "independently assembled figure of merit; non-trivial: gradient norm above 1e-2; distinct by bases, parameters and "
        "direction")
ASSUMPTIONS = ["single precision of the controls: agreement to 2e-4 of the gradient scale", "points within 1e-3 of a limit kink are not judged"]
QUICK_BUDGET = 30
THOROUGH_BUDGET = 420
CASE_LIMIT = 120
REQUIRED = {"gradients": 20, "coordinates": 120, "values": 20, "walked": 8}


def before_import():
    from vf import spy
    spy.install()


def cases(tier, rnd):
    from vf import gr
    n = 48 if tier == "quick" else 700
    for i in range(n):
        r = random.Random(rnd.random())
        cfg = gr.ad_cfg(r, r.choice(["minimization", "maximization"]), si=r.choice([1, 1, 2]), maxfun=2,
                        npulses=r.choice([1, 1, 2, 3]), nparams=r.choice([0, 1, 2]),
                        bases=BASES if i % 3 else ("PiecewiseBasis", "Fourier"))
        for p in cfg["opt"]["pulses"]:
            if p["basis"]["basis_name"] not in ("PiecewiseBasis", "Fourier"):
                p["basis"] = gen.gen_basis(r, p["basis"]["basis_name"], cfg["T"], 2)
            k = r.random()
            if k < 0.4:
                p["scaling_function"]["lambda_function"] = "lambda t: 1.0 + %r * t" % gen.r3(r, -0.4, 0.8)
            if k > 0.6:
                p.update(lower_limit=-gen.r3(r, 0.3, 1.2), upper_limit=gen.r3(r, 0.3, 1.2))
        if r.random() < 0.5:
            cfg["gain"] = r.choice([1e-3, 0.03, 100.0, 3e4])
        yield {"cfg": cfg, "walk": [r.choice([2e-3, 8e-3, 0.1]), 3] if i % 4 == 2 else None}


BASES = ("PiecewiseBasis", "Fourier", "Sinc", "Sigmoid", "Walsh")


def run(case, ctx):
    import numpy as np
    from vf import gr, spy, refs
    cfg = case["cfg"]
    o = cfg["opt"]
    gain = cfg.get("gain", 1.0)
    del spy.CALLS[:]
    seen = {}

    def hook(t, kind, e):
        if kind == "call":
            seen.setdefault(t.alg.super_it, [list(w) for w in t.alg.controls.get_random_super_parameter()])
    spy.WALK[0] = case["walk"]
    try:
        tr = gr.ad_run(cfg, hook=hook)
    finally:
        spy.WALK[0] = None
    if not ctx.check(tr.error is None, "run-failed", error=tr.error):
        return
    ref = refs.RefControls(cfg)
    sis = spy.CALLS
    si_n = o["algorithm_settings"]["super_iteration_number"]
    ctx.check(len(sis) == si_n, "optimizer-runs", got=len(sis), want=si_n)
    ws, best = [], None

    def val(x):
        c = ref.build(x, ws)
        return gr.ad_value(np, cfg, c["pulses"], c["parameters"])
    for s, rec_ in enumerate(sis):
        ws = seen[s + 1]
        G = spy.gradients([rec_])
        for x, f, g in G[:4]:
            if not ctx.check(g.shape == (ref.dim,), "shape", got=g.shape, want=ref.dim):
                return
            if f is not None:
                ctx.check(abs(f - val(x)) <= 2e-5 * max(gain, abs(f)), "value", got=f, want=val(x), si=s + 1)
                ctx.count("values")
            ctx.count("gradients")
            if case["walk"]:
                ctx.count("walked")
            sc = max(gain, float(np.max(np.abs(g))))
            for i in range(ref.dim):
                ds = []
                for h in (1e-4, 1e-3):
                    y, z = x.copy(), x.copy()
                    y[i] += h
                    z[i] -= h
                    ds.append((val(y) - val(z)) / (2 * h))
                if abs(ds[0] - ds[1]) > 2e-4 * sc:
                    ctx.count("kink")
                    continue
                ctx.count("coordinates")
                if not ctx.check(abs(g[i] - ds[0]) <= 6e-4 * sc, "gradient", coordinate=i, got=g[i], want=ds[0], si=s + 1,
                                 bases=[p["basis"]["basis_name"] for p in o["pulses"]], parameters=len(o["parameters"])):
                    return
            if float(np.linalg.norm(g)) > 1e-2 * gain:
                ctx.cover("+".join(sorted(p["basis"]["basis_name"] for p in o["pulses"])) + "/q%d/%s/si%d" % (
                    len(o["parameters"]), o["algorithm_settings"].get("optimization_direction"), s + 1))
        # base of the next super-iteration: the best point of this one, nothing if it has no record
        f, k = min((c[2], k) for k, c in enumerate(rec_) if c[0] == "f")
        if best is not None and abs(f - best) < 1e-6 * gain:
            return
        if best is None or f < best:
            best = f
            ref.commit(rec_[k][1], ws)
        else:
            ref.commit(np.zeros(ref.dim), ws)
    if ctx.sample is None:
        ctx.sample = {"bases": [p["basis"]["basis_name"] for p in o["pulses"]], "dim": ref.dim, "gradient": g[:4]}


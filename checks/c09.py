"""C09: super-parameters are fresh, in range, one per stratum, and the pulses really use the recorded ones."""
import random
from vf import gen

LEVEL = "exploration"
RULE = ("random chopped-basis dCRAB runs (1-6 basis vectors, several pulses, several super-iterations, seeded and unseeded): "
        "the recorded super-parameters are judged for range, stratification, freshness and against the pulses that were "
        "evaluated (span of the recorded basis functions); plus a statistical monitor over many draws; non-trivial: at "
        "least two super-iterations; distinct by basis, number of vectors and seeded/unseeded")
ASSUMPTIONS = ["statistical thresholds have a false alarm probability below 1e-9 and use fixed seeds"]
QUICK_BUDGET = 20
THOROUGH_BUDGET = 240
REQUIRED = {"draws": 1500, "spans": 300, "statistics": 8}


def cases(tier, rnd):
    n = 800 if tier == "quick" else 6000
    for i in range(8 if tier == "quick" else 40):
        r = random.Random(rnd.random())
        yield {"kind": "stat", "basis": gen.CHOPPED[i % 8], "k": r.randint(1, 6), "seed": r.randrange(10**6),
               "lo": gen.r3(r, -2, 3) if i % 4 else r.randint(-2, 3), "w": gen.r3(r, 0.3, 5) if i % 4 else r.randint(1, 7), "seeded": i % 3 != 2}
    for i in range(n):
        r = random.Random(rnd.random())
        cfg = gen.config(r, alg="dCRAB", bases=[gen.CHOPPED[i % 8]] if r.random() < 0.5 else list(gen.CHOPPED), si=r.randint(2, 5),
                         max_eval=14, max_eval_total=None, kmax=6, max_dim=20, seeded=i % 3 != 2, simple=True,
                         limits="wide", npulses=r.choice([1, 2, 3]))
        if r.random() < 0.2:        # whole numbers, numbers as in a hand-written settings file
            for p in cfg["opt"]["pulses"]:
                if p["basis"]["basis_name"] in ("Fourier", "Walsh", "Chebyshev"):
                    d = p["basis"]["random_super_parameter_distribution"]
                    d["lower_limit"] = r.randint(0, 2)
                    d["upper_limit"] = d["lower_limit"] + r.randint(1, 7)
        yield {"kind": "run", "cfg": cfg}


def strata(ctx, w, d, k, what):
    lo, hi = d["lower_limit"], d["upper_limit"]
    ctx.count("draws")
    if not ctx.check(len(w) == k, "number", got=len(w), want=k, what=what):
        return
    eps = 1e-12 * max(1, abs(lo), abs(hi))
    ctx.check(all(lo - eps <= v <= hi + eps for v in w), "out-of-range", w=w, limits=[lo, hi])
    step = (hi - lo) / k
    for j, v in enumerate(sorted(w)):
        ctx.check(lo + j * step - eps <= v <= lo + (j + 1) * step + eps, "stratum", w=w, limits=[lo, hi], j=j)


def stat(case, ctx):
    import numpy as np
    from quocslib.Controls import Controls
    from quocslib.tools.randomgenerator import RandomNumberGenerator
    k, lo, hi = case["k"], case["lo"], case["lo"] + case["w"]
    b = {"basis_name": case["basis"], "basis_vector_number": k, "sigma": 0.05, "offset": 0.1,
         "random_super_parameter_distribution": {"distribution_name": "Uniform", "lower_limit": lo, "upper_limit": hi}}
    p = [{"pulse_name": "P%d" % i, "upper_limit": 5, "lower_limit": -5, "bins_number": 11, "time_name": "t",
          "amplitude_variation": 1.0, "basis": dict(b, random_super_parameter_distribution=dict(
              b["random_super_parameter_distribution"]))} for i in range(2)]
    np.random.seed(case["seed"])
    c = Controls(p, [{"time_name": "t", "initial_value": 1.0}], [],
                 rng=RandomNumberGenerator(seed_number=case["seed"]) if case["seeded"] else None)
    n = 3000
    U = np.zeros((n, 2, k))
    for i in range(n):
        c.select_basis()
        ws = c.get_random_super_parameter()
        for q in range(2):
            strata(ctx, list(ws[q]), b["random_super_parameter_distribution"], k, "stat")
            U[i, q] = (np.sort(np.asarray(ws[q], dtype=float)) - lo) / (hi - lo) * k - np.arange(k)
    # every coordinate uniform in its stratum: Kolmogorov-Smirnov distance, p < 1e-12 threshold
    for q in range(2):
        for j in range(k):
            u = np.sort(U[:, q, j])
            dks = max(np.max(np.arange(1, n + 1) / n - u), np.max(u - np.arange(n) / n))
            ctx.check(dks * np.sqrt(n) < 3.9, "not-uniform", basis=case["basis"], j=j, ks=float(dks * np.sqrt(n)))
    # fresh: no correlation between pulses, coordinates and consecutive draws (|r| sqrt(n) < 8)
    V = U.reshape(n, -1)
    for x in range(V.shape[1]):
        for y in range(x, V.shape[1]):
            if y > x:
                rr = np.corrcoef(V[:, x], V[:, y])[0, 1]
                ctx.check(abs(rr) * np.sqrt(n) < 8, "correlated", a=x, b=y, r=float(rr))
            rr = np.corrcoef(V[1:, x], V[:-1, y])[0, 1]
            ctx.check(abs(rr) * np.sqrt(n) < 8, "serially-correlated", a=x, b=y, r=float(rr))
    ctx.count("statistics")
    ctx.cover("stat/%s/k%d/%s" % (case["basis"], k, case["seeded"]))


def run(case, ctx):
    if case["kind"] == "stat":
        return stat(case, ctx)
    import numpy as np
    from vf import rec, refs
    cfg = case["cfg"]
    o = cfg["opt"]
    sis = []
    tr = rec.run(cfg, hook=lambda t, kind, e: sis.append(getattr(t.alg, "super_it", 0)) if kind == "call" else None)
    if not ctx.check(tr.error is None, "run-failed", error=tr.error):
        return
    res = tr.final()
    fl = res["dcrab_freq_list"]
    chopped = [p for p in o["pulses"]]
    seen = {}
    for s, ws in enumerate(fl):
        if not ctx.check(len(ws) == len(chopped), "pulse-count", got=len(ws), want=len(chopped)):
            return
        for p, w in zip(chopped, ws):
            strata(ctx, w, p["basis"]["random_super_parameter_distribution"], p["basis"]["basis_vector_number"], "run")
            for v in w:
                ctx.check(v not in seen, "reused", value=v, si=s, first=seen.get(v))
                seen[v] = s
    # linear bases: every evaluated pulse minus the start of its super-iteration lies in the recorded span
    ref = refs.RefControls(cfg)
    for s, ws in enumerate(fl, start=1):
        idx = [i for i, q in enumerate(sis) if q == s]
        if not idx:
            continue
        start = tr.evals[idx[0]]
        for pi, (p, w) in enumerate(zip(o["pulses"], ws)):
            name = p["basis"]["basis_name"]
            if name not in ("Fourier", "Sinc", "Sigmoid") or p.get("shaping_options"):
                continue
            rp = ref.pulses[pi]
            m = ref.dims[pi]
            M = np.array([rp.shaped(np.eye(m)[j], w) for j in range(m)]).T
            if np.linalg.matrix_rank(M) >= len(rp.t):
                continue
            for i in idx[1:8]:
                d = tr.evals[i]["pulses"][pi] - start["pulses"][pi]
                if np.max(np.abs(tr.evals[i]["pulses"][pi])) > 49.9:
                    continue
                x, *_ = np.linalg.lstsq(M, d, rcond=None)
                ctx.check(float(np.max(np.abs(M @ x - d), initial=0)) < 1e-7 * max(1, float(np.max(np.abs(d), initial=0))),
                          "pulse-outside-recorded-basis", basis=name, si=s, eval=i)
                ctx.count("spans")
    if len(fl) >= 2:
        for p in chopped:
            ctx.cover("%s/k%d/%s" % (p["basis"]["basis_name"], p["basis"]["basis_vector_number"],
                                     "random_number_generator" in o["algorithm_settings"]))
    if ctx.sample is None:
        ctx.sample = {"super_parameters": fl[:2]}

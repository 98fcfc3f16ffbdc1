"""C13: CMA-ES samples and adapts its distribution as the published algorithm does."""
import random
from vf import dsm, gen

LEVEL = "exploration"
RULE = ("random CMA-ES optimizations (parameters and piecewise pulses, default and custom population, 1-3 super-iterations, "
        "seeded and unseeded) are followed by an independent CMA-ES which only sees points and values: in every generation "
        "the Mahalanobis inner products of the points must equal those of the recorded standard normal draws, and be "
        "chi-square distributed; non-trivial: generation after the first update; distinct by dimension, population and "
        "kind of figure of merit")
ASSUMPTIONS = ["limits inactive", "covariance condition number below 1e9, values distinct within a generation",
               "standard normal numbers come from numpy; else only the chi-square monitor judges (p < 1e-9)"]
QUICK_BUDGET = 20
THOROUGH_BUDGET = 300
REQUIRED = {"generations": 1500, "gram_checks": 1200, "first_points": 100}
DRAWS = []


def worker_init():
    import numpy as np
    real = {k: getattr(np.random, k) for k in ("randn", "standard_normal", "normal")}

    def wrap(f):
        def g(*a, **k):
            v = f(*a, **k)
            DRAWS.append(np.array(v, copy=True))
            return v
        return g
    for k, f in real.items():
        setattr(np.random, k, wrap(f))

    class G(np.random.Generator):
        def standard_normal(self, *a, **k):
            v = super().standard_normal(*a, **k)
            DRAWS.append(np.array(v, copy=True))
            return v

        def normal(self, *a, **k):
            v = super().normal(*a, **k)
            DRAWS.append(np.array(v, copy=True))
            return v
    real_rng = np.random.default_rng
    np.random.default_rng = lambda seed=None: G(real_rng(seed).bit_generator)
    # some library draws numbers while it is imported
    import quocslib.Optimizer
    import quocslib.gradientfreemethods.CMAES
    import quocslib.optimizationalgorithms.dCRABAlgorithm
    import quocslib.optimizationalgorithms.DirectSearchAlgorithm


def cases(tier, rnd):
    n = 960 if tier == "quick" else 7000
    for i in range(n):
        r = random.Random(rnd.random())
        cfg = dsm.config(r, "CMAES", spaces="exact", max_eval=r.choice([12, 60, 150, 300]), si=r.choice([1, 1, 2, 3]),
                         foms=("quad", "rugged", "seq"))
        a = cfg["opt"]["algorithm_settings"]
        sc = a["dsm_settings"]["stopping_criteria"]
        sc["fatol"] = 1e-100
        f = cfg["fom"]
        f.pop("quant", None)
        if f["kind"] == "seq":
            f["values"] = [r.uniform(-1, 1) + 0.001 * (j if i % 2 else -j) for j in range(1500)]
        if i % 3 == 2:
            a.pop("random_number_generator", None)
        if i % 5 == 0:
            a["dsm_settings"]["general_settings"]["population"] = r.choice([2, 3, 4, 5, 8, 13, 30, 60])
        yield {"cfg": cfg}


def run(case, ctx):
    import numpy as np
    from vf import rec, refs
    cfg = case["cfg"]
    o = cfg["opt"]
    gs = o["algorithm_settings"]["dsm_settings"]["general_settings"]
    sec = dsm.Sections()
    cls = rec.Fom

    class NoDraw(cls):      # the figure of merit must not disturb the recorded draws
        def __call__(self, *a):
            n = len(DRAWS)
            v = cls.__call__(self, *a)
            del DRAWS[n:]
            return v
    tr = rec.Trace(cfg)
    fom = rec.make_fom(tr, NoDraw(cfg["fom"]), sec)
    DRAWS.clear()
    tr = rec.run(cfg, hook=None, trace=tr, fom=fom)
    if not ctx.check(tr.error is None, "run-failed", error=tr.error):
        return
    N = cfg["dim"]
    lam = int(gs["population"]) if gs.get("population") else int(4 + np.floor(3 * np.log(N)))
    sv = np.concatenate([np.full(p["bins_number"], p["amplitude_variation"]) for p in o["pulses"]] +
                        [np.array([q["amplitude_variation"] for q in o["parameters"]], dtype=float)])
    n = len(tr.evals)
    flat = np.concatenate([np.ravel(d) for d in DRAWS]) if DRAWS else np.zeros(0)
    aligned = len(flat) == n * N and all(d.shape == (N,) for d in DRAWS)
    if not aligned:
        ctx.count("draws_not_aligned")
    pos, chi, nchi = 0, 0.0, 0
    for evs in sec.split(tr.evals):
        X = np.array([dsm.vec(e) for e in evs]).T
        F = np.array([tr.sign * e["fom"] for e in evs])
        # the first point of the search is its start: initial parameter values / the best controls so far
        ref = refs.CmaRef(X[:, 0], sv, lam)
        ctx.count("first_points")
        if len(F) % lam and not ctx.check(False, "partial-generation", evaluations=len(F), population=lam):
            return
        for g in range(len(F) // lam):
            sl = slice(g * lam, (g + 1) * lam)
            x, f = X[:, sl], F[sl]
            if ref.cond() > 1e9 or ref.sigma < 1e-8 or not np.isfinite(ref.sigma) or np.max(np.abs(x)) > 1e7 * max(
                    1e-9, ref.sigma * np.sqrt(np.min(np.linalg.eigvalsh(ref.C)))):
                ctx.count("ill_conditioned")
                break
            W = ref.white(x)
            k0 = 1 if g == 0 else 0
            W = W[k0:, k0:]
            ctx.count("generations")
            if aligned:
                Z = flat[(pos + sl.start) * N:(pos + sl.stop) * N].reshape(lam, N).T[:, k0:]
                G = Z.T @ Z
                dev = float(np.max(np.abs(W - G), initial=0)) / max(1.0, float(np.max(np.abs(G), initial=0)))
                if not ctx.check(dev < 1e-5, "distribution", generation=g + 1, deviation=dev, N=N, population=lam,
                                 got=np.diag(W)[:5], want=np.diag(G)[:5]):
                    return
                ctx.count("gram_checks")
                if g:
                    ctx.cover("N%d/l%d/%s" % (N, lam, cfg["fom"]["kind"]))
            chi += float(np.trace(W))
            nchi += N * W.shape[0]
            if len(set(f.tolist())) < len(f):
                ctx.count("ties")
                break
            ref.step(x, f)
            if ref.near_hsig:
                break
        pos += len(F)
    if nchi > 50:
        # normal approximation of chi-square via the cube root transform
        zz = ((chi / nchi) ** (1 / 3) - (1 - 2 / (9 * nchi))) / (2 / (9 * nchi)) ** 0.5
        ctx.check(abs(zz) < 7, "not-chi-square", z=zz, samples=nchi, mean=chi / nchi)
        ctx.count("chi_square")
    if ctx.sample is None:
        ctx.sample = {"N": N, "population": lam, "evaluations": n, "mean_squared_step": chi / max(1, nchi)}

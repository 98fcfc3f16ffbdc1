"""C17: a direct search starts from the current best controls and a non-degenerate simplex scaled by amplitude variations."""
import random
from vf import dsm, gen

LEVEL = "exploration"
RULE = ("random searches of all methods: the first evaluated point must be the initial value / best controls so far, and "
        "for Nelder-Mead the other start vertices minus the first one, divided by the amplitude variations, must be an "
        "orthonormal set; direct calls with random means and variations too; non-trivial: dimension >= 2; distinct by "
        "algorithm, basis set and dimension")
ASSUMPTIONS = ["limits inactive for the simplex geometry (linear bases)"]
QUICK_BUDGET = 18
THOROUGH_BUDGET = 200
REQUIRED = {"starts": 150, "simplices": 120, "direct": 60, "beyond_limits": 100}


def cases(tier, rnd):
    n = 1500 if tier == "quick" else 8000
    for i in range(n):
        r = random.Random(rnd.random())
        if i % 3 == 2:
            yield {"kind": "direct", "seed": r.randrange(10**9), "dim": r.randint(1, 30), "seeded": r.random() < 0.7}
            continue
        cfg = dsm.config(r, r.choice(["NelderMead", "NelderMead", "CMAES"]), spaces="linear", si=r.choice([1, 2, 3]),
                         foms=("quad", "rugged"))
        cfg["opt"]["algorithm_settings"]["dsm_settings"]["stopping_criteria"].update(
            max_eval=cfg["dim"] + r.randint(2, 20), xatol=1e-14, fatol=1e-100)
        yield {"kind": "run", "cfg": cfg}
        if i % 6 == 1:          # vectors beyond the limits become the new best controls
            yield {"kind": "limits", "seed": r.randrange(10**6), "cfg": gen.config(r, alg="dCRAB", nparams=r.randint(1, 4), max_dim=20, max_eval_total=None)}


def run(case, ctx):
    import numpy as np
    from vf import rec, refs
    if case["kind"] == "direct":
        from quocslib.tools.linearalgebra import simplex_creation
        from quocslib.tools.randomgenerator import RandomNumberGenerator
        r = np.random.default_rng(case["seed"])
        d = case["dim"]
        mean, sig = r.normal(size=d) * 10 ** r.uniform(-3, 3), 10 ** r.uniform(-3, 2, size=d)
        m0, s0 = mean.copy(), sig.copy()
        np.random.seed(case["seed"] % 2**31)
        S = np.asarray(simplex_creation(mean, sig, rng=RandomNumberGenerator(seed_number=case["seed"]) if case["seeded"] else None))
        if not ctx.check(S.shape == (d + 1, d), "shape", got=S.shape, dim=d):
            return
        ctx.check(np.array_equal(mean, m0) and np.array_equal(sig, s0), "arguments-modified")
        ctx.check(np.array_equal(S[0], mean), "first-vertex", got=S[0], want=mean)
        ortho(ctx, (S[1:] - S[0]) / sig, 1e-9 * (1 + np.max(np.abs(mean)) / np.min(sig)), "direct", d)
        ctx.count("direct")
        return
    cfg = case["cfg"]
    o = cfg["opt"]
    if case["kind"] == "limits":
        from quocslib.Controls import Controls
        from quocslib.tools.randomgenerator import RandomNumberGenerator
        d = rec.prepare(cfg)
        c = Controls(d["pulses"], d["times"], d["parameters"], rng=RandomNumberGenerator(seed_number=case["seed"]))
        g, n = np.random.default_rng(case["seed"]), len(o["parameters"])
        want = [q["initial_value"] for q in o["parameters"]]
        for si in range(3):
            c.select_basis()
            m = np.asarray(c.get_mean_value(), dtype=float)
            ctx.check(rec.close(m[-n:], want, 1e-9), "mean-parameters", got=m[-n:], want=want, si=si)
            ctx.check(rec.close(m[:-n], 0 * m[:-n], 1e-12), "mean-pulses", got=m[:5], si=si)
            sig = np.asarray(c.get_sigma_variation(), dtype=float)
            ctx.check(rec.close(sig[-n:], [q["amplitude_variation"] for q in o["parameters"]], 1e-12), "sigma-parameters", got=sig[-n:], si=si)
            x = m + g.choice([0.3, 1.0, 6.0]) * sig * g.standard_normal(len(m))
            c.update_base_controls(x)
            want = [min(max(v, q["lower_limit"]), q["upper_limit"]) for v, q in zip(x[-n:], o["parameters"])]
            ctx.count("beyond_limits", sum(v != w for v, w in zip(x[-n:], want)))
        return
    a = o["algorithm_settings"]
    sec = dsm.Sections()
    tr = rec.run(cfg, hook=sec)
    if not ctx.check(tr.error is None, "run-failed", error=tr.error):
        return
    ref = refs.RefControls(cfg)
    dim = ref.dim
    res = tr.final()
    freqs = res.get("dcrab_freq_list", [[]])
    used = 0
    for s, evs in enumerate(sec.split(tr.evals)):
        e = evs[0]
        ctx.count("starts")
        if s == 0:
            x0 = np.concatenate([np.zeros(dim - len(ref.params)), [q["initial_value"] for q in o["parameters"]]])
            want = ref.build(x0, freqs[0])
            ctx.check(rec.same_controls(e, want, 1e-9), "first-point", got=[p[:4] for p in e["pulses"]],
                      want=[np.asarray(p)[:4] for p in want["pulses"]], pars=[e["parameters"], want["parameters"]])
        else:
            b = min(range(used), key=lambda j: (tr.sign * tr.evals[j]["fom"], j))
            ctx.check(rec.same_controls(e, tr.evals[b], 1e-8), "start-not-best", si=s + 1, best=b)
        used += len(evs)
        if a["dsm_settings"]["general_settings"]["dsm_algorithm_name"] != "NelderMead" or len(evs) < dim + 1:
            continue
        # coordinates of the vertices relative to the first one
        D = np.array([dsm.vec(v) - dsm.vec(e) for v in evs[1:dim + 1]])
        cols, sig = [], []
        off = 0
        W = ref.supers(freqs[s]) if o["pulses"] else []
        for rp, pd, m, w in zip(ref.pulses, o["pulses"], ref.dims, W):
            M = np.array([rp.shaped(np.eye(m)[j], w) for j in range(m)]).T
            x, *_ = np.linalg.lstsq(M, D[:, off:off + rp.n].T, rcond=None)
            cols.append(x)
            nm = pd["basis"]["basis_name"]
            sig += [pd["amplitude_variation"] / (np.sqrt(2) if nm in ("Fourier", "Sinc") else 1.0)] * m
            off += rp.n
            if np.linalg.cond(M) > 1e5:
                break
        else:
            if o["parameters"]:
                cols.append(D[:, off:].T)
                sig += [q["amplitude_variation"] for q in o["parameters"]]
            Q = np.concatenate(cols).T / np.array(sig)
            ortho(ctx, Q, 1e-6, "run", dim)
            ctx.count("simplices")
            ctx.cover("%s/d%d" % (gen.describe(cfg), dim))
    if ctx.sample is None:
        ctx.sample = {"settings": gen.describe(cfg), "dim": dim}


def ortho(ctx, Q, tol, src, d):
    import numpy as np
    G = Q @ Q.T
    ctx.check(float(np.max(np.abs(G - np.eye(len(G))))) <= tol, "not-orthonormal", src=src, dim=d, gram=G[:3, :3])

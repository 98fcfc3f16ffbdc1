"""C18: the flat search vector is partitioned among the controls, and its start values and variations are arranged alike."""
import random
from vf import gen

LEVEL = "exploration"
RULE = ("for random sets of up to five pulses (9 bases) on several times and up to four parameters every coordinate of random "
        "vectors is perturbed alone, before and after basis changes and commits, and the affected outputs, start values and "
        "variations are recorded: exactly one owner per coordinate, as many coordinates per control as its basis has, order "
        "pulses then parameters, other outputs bit-identical; non-trivial: at least two controls; distinct by set of bases")
ASSUMPTIONS = ["step time and step width coordinates of sigmoid bases may saturate (no visible effect)"]
QUICK_BUDGET = 18
THOROUGH_BUDGET = 240
REQUIRED = {"coordinates": 6000, "commits": 300, "param_coordinates": 500}


def cases(tier, rnd):
    n = 1600 if tier == "quick" else 9000
    for i in range(n):
        r = random.Random(rnd.random())
        k = r.choice([0, 1, 2, 3, 4, 5])
        cfg = gen.config(r, alg="dCRAB", shaping=False, kmax=3, max_dim=45, npulses=k,
                         nparams=r.choice([0, 1, 2, 3, 4] if k else [1, 2, 3, 4]), limits="wide", ntimes=r.choice([1, 2, 3]), simple=i % 2 == 0)
        if i % 6 == 5:          # names do not matter: the same or none
            for p in cfg["opt"]["pulses"]:
                p["pulse_name"] = r.choice(["P", "P", p["pulse_name"]])
            for q in cfg["opt"]["parameters"]:
                q["parameter_name"] = r.choice(["P", "Q", q["parameter_name"]])
            for x in cfg["opt"]["pulses"] + cfg["opt"]["parameters"]:
                if r.random() < 0.2:
                    x.pop("pulse_name", None)
                    x.pop("parameter_name", None)
        yield {"cfg": cfg, "seed": r.randrange(10**6)}


def run(case, ctx):
    import numpy as np
    from vf import rec, refs
    from quocslib.Controls import Controls
    from quocslib.tools.randomgenerator import RandomNumberGenerator
    cfg = case["cfg"]
    o = cfg["opt"]
    if len(o["pulses"]) + len(o["parameters"]) == 0:
        return
    d = rec.prepare(cfg)
    r = np.random.default_rng(case["seed"])
    c = Controls(d["pulses"], d["times"], d["parameters"], rng=RandomNumberGenerator(seed_number=case["seed"]))
    dims = [gen.basis_dim(p["basis"], p["bins_number"]) for p in o["pulses"]] + [1] * len(o["parameters"])
    np_, dim = len(o["pulses"]), sum(dims)
    owner = [k for k, m in enumerate(dims) for _ in range(m)]
    if not ctx.check(c.get_control_parameters_number() == dim, "dimension", got=c.get_control_parameters_number(), want=dim):
        return
    values = [q["initial_value"] for q in o["parameters"]]
    want_sigma = []
    for p in o["pulses"]:
        flat = p["basis"]["basis_name"] in ("Fourier", "Chebyshev", "Sinc", "Walsh")
        want_sigma += [p["amplitude_variation"] / (np.sqrt(2) if flat else 1)] * gen.basis_dim(p["basis"], p["bins_number"])
    want_sigma += [q["amplitude_variation"] for q in o["parameters"]]

    def outputs(x):
        a, t, q = c.get_controls_lists(x)
        return [np.array(v, dtype=float) for v in a] + [np.array([float(v)]) for v in q]

    for si in range(3):
        c.select_basis()
        mean, sig = np.array(c.get_mean_value(), dtype=float), np.array(c.get_sigma_variation(), dtype=float)
        ctx.check(mean.shape == (dim,) and rec.close(mean, np.concatenate([np.zeros(dim - len(values)), values]), 1e-12),
                  "start-values", si=si, got=mean, want=values)
        ctx.check(sig.shape == (dim,) and rec.close(sig, want_sigma, 1e-12), "variations", si=si, got=sig, want=want_sigma)
        x = mean + 0.5 * sig * r.standard_normal(dim)
        for j, q in enumerate(o["parameters"]):
            k = dim - len(values) + j
            x[k] = q["lower_limit"] + (q["upper_limit"] - q["lower_limit"]) * r.uniform(0.1, 0.9)
        base = outputs(x)
        for i in range(dim):
            k = owner[i]
            seen = False
            for h in (0.4, -0.7, 2.3):
                y = x.copy()
                if k >= np_:
                    q = o["parameters"][k - np_]
                    y[i] = q["lower_limit"] + (q["upper_limit"] - q["lower_limit"]) * r.uniform(0.05, 0.95)
                else:
                    y[i] += h * sig[i]
                out = outputs(y)
                ch = [m for m in range(len(out)) if not np.array_equal(out[m], base[m])]
                # a parameter has no memory, a pulse could (commit) but must not be touched by reading
                if not ctx.check(all(m == k for m in ch), "wrong-owner", coordinate=i, owner=k, changed=ch, dims=dims,
                                 bases=[p["basis"]["basis_name"] for p in o["pulses"]], si=si):
                    return
                seen = seen or bool(ch)
                if k >= np_:
                    ctx.check(rec.close(out[k], [y[i]], 1e-12), "parameter-value", got=out[k], want=y[i], si=si)
                    ctx.count("param_coordinates")
                if seen:
                    break
            ctx.count("coordinates")
            if k < np_:
                b = o["pulses"][k]["basis"]["basis_name"]
                soft = b.startswith("Sigmoid") or b in ("Fourier", "Walsh", "Chebyshev")
                soft = soft or o["pulses"][k].get("scaling_function") or o["pulses"][k].get("shrink_ampl_lim")
                lo, hi = o["pulses"][k]["lower_limit"], o["pulses"][k]["upper_limit"]
                soft = soft or np.any(base[k] <= lo) or np.any(base[k] >= hi)      # clipped values do not move
                ctx.check(seen or soft, "no-effect", coordinate=i, owner=k, basis=b, si=si)
            else:
                ctx.check(seen, "no-effect", coordinate=i, owner=k, si=si)
        ctx.check(all(np.array_equal(a, b) for a, b in zip(outputs(x), base)), "reading-changed-controls", si=si)
        z = x.copy()
        c.update_base_controls(z)
        ctx.count("commits")
        values = [min(max(float(v), q["lower_limit"]), q["upper_limit"]) for v, q in zip(x[dim - len(values):], o["parameters"])]
    if len(dims) > 1:
        ctx.cover("+".join(sorted(p["basis"]["basis_name"][:8] for p in o["pulses"])) + "/q%d" % len(values))
    if ctx.sample is None:
        ctx.sample = {"bases": [p["basis"]["basis_name"] for p in o["pulses"]], "dims": dims, "parameters": len(values)}

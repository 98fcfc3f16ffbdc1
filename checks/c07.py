"""C07: the pulse a control vector stands for is the documented composition of guess, base, basis expansion, scaling, limits."""
import random
from vf import gen

LEVEL = "exploration"
RULE = ("for random pulse settings (9 bases, guess/scaling as lambda, list or python file, all shaping orders, clipping and "
        "shrinking) the pulses assembled for random control vectors over several super-iterations are compared with an "
        "independent implementation of the documented formulas; non-trivial: the basis expansion contributes; distinct "
        "by basis, guess and scaling type, shaping list and limiting mode")
ASSUMPTIONS = ["agreement to 1e-8 relative"]
QUICK_BUDGET = 18
THOROUGH_BUDGET = 240
REQUIRED = {"pulses_compared": 4000, "commits": 500, "other_times": 500, "unordered": 200}


def cases(tier, rnd):
    n = 2500 if tier == "quick" else 12000
    for i in range(n):
        r = random.Random(rnd.random())
        basis = (gen.CHOPPED + ["PiecewiseBasis"])[i % 9]
        cfg = gen.config(r, alg="dCRAB", bases=[basis] if i % 3 else None, shaping=True, overwrite=True, tscale=True,
                         kmax=r.choice([4, 4, 4, 9]), max_dim=60, npulses=r.choice([1, 1, 2, 3]))
        if i % 11 == 10:
            cfg = gen.in_units(r, cfg)
        yield {"cfg": cfg, "seed": r.randrange(10**6), "amp": r.choice([0.0, 0.3, 1.0, 8.0]), "unordered": i % 5 == 4}


def run(case, ctx):
    import numpy as np
    from vf import rec, refs
    from quocslib.Controls import Controls
    from quocslib.tools.randomgenerator import RandomNumberGenerator
    cfg = case["cfg"]
    unit = cfg.get("unit", 1.0)
    d = rec.prepare(cfg)
    r = np.random.default_rng(case["seed"])
    if case.get("unordered"):
        # a user's own distribution need not give them in order
        from quocslib.pulses.superparameter.Uniform import Uniform

        class Unordered(Uniform):
            def set_random_super_parameter(self):
                super().set_random_super_parameter()
                if len(self.w) > 1:
                    self.w = np.array(self.w)[r.permutation(len(self.w))]
                    ctx.count("unordered")

        for p in d["pulses"]:
            s = p["basis"].get("random_super_parameter_distribution")
            if s is not None:
                s["distribution_attribute"] = Unordered
    c = Controls(d["pulses"], d["times"], d["parameters"], rng=RandomNumberGenerator(seed_number=case["seed"]))
    ref = refs.RefControls(cfg)
    if not ctx.check(c.get_control_parameters_number() == ref.dim, "dimension", got=c.get_control_parameters_number(),
                     want=ref.dim):
        return
    for si in range(3):
        c.select_basis()
        ws = [list(w) for w in c.get_random_super_parameter()]
        last = None
        for it in range(5):
            if it == 0:
                x = np.zeros(ref.dim)
                x[len(x) - len(ref.params):] = [p["initial_value"] for p in ref.params]
            else:
                x = case["amp"] * c.get_sigma_variation() * r.standard_normal(ref.dim)
                for j, q in enumerate(ref.params):
                    x[ref.dim - len(ref.params) + j] += q["initial_value"]
            x_in = x.copy()
            pulses, grids, pars = c.get_controls_lists(x)
            want = ref.build(x_in, ws)
            got = {"pulses": pulses, "timegrids": grids, "parameters": pars}
            ctx.check(bool(np.array_equal(x, x_in)), "vector-modified", si=si)
            for pd, u, w, t, tw in zip(cfg["opt"]["pulses"], pulses, want["pulses"], grids, want["timegrids"]):
                ctx.count("pulses_compared")
                u, w = np.asarray(u, dtype=float), np.asarray(w, dtype=float)
                ok = u.shape == w.shape and rec.close(u, w, 1e-8, unit)
                ctx.check(ok, "pulse", pulse=pd, si=si, got=u[:6], want=w[:6],
                          maxdiff=float(np.max(np.abs(u - w))) if u.shape == w.shape else "shape")
                ctx.check(rec.close(np.asarray(t) / tw[-1], np.asarray(tw) / tw[-1], 1e-12), "time-grid", got=t[:5], want=tw[:5])
                if it and case["amp"]:
                    ctx.cover("/".join([pd["basis"]["basis_name"], pd.get("initial_guess", {}).get("function_type", "-"),
                                        pd.get("scaling_function", {}).get("function_type", "-"),
                                        str(len(pd.get("shaping_options") or [])) +
                                        str((pd.get("shaping_options") or ["-"])[0])[:8],
                                        str(pd.get("shrink_ampl_lim", False))]))
            ctx.check(rec.close(pars, want["parameters"], 1e-12), "parameters", got=pars, want=want["parameters"])
            # the same vector again: assembling pulses must not change them
            again = c.get_controls_lists(x)[0]
            ctx.check(all(np.array_equal(a, b) for a, b in zip(pulses, again)), "not-idempotent", si=si)
            last = x_in
        if si == 0 and case["seed"] % 3 == 0:
            # the same pulses for another final time, and back
            T = {t["time_name"]: t["initial_value"] for t in cfg["opt"]["times"]}
            xs, W = ref.split(last)[0], ref.supers(ws)
            objs = next((v for v in vars(c).values() if isinstance(v, (list, tuple)) and v and all(hasattr(o, "get_pulse") for o in v)), [])
            for pd, ob, xx, w in zip(cfg["opt"]["pulses"], objs, xs, W):
                for k in (1.37, 0.83, 1.0):
                    want = refs.RefPulse(pd, k * T[pd["time_name"]], cfg.get("files", {})).build(xx, w)
                    got = np.asarray(ob.get_pulse(np.array(xx), k * T[pd["time_name"]]), dtype=float)
                    ctx.check(got.shape == np.shape(want) and rec.close(got, want, 1e-8, unit), "other-final-time", pulse=pd, factor=k, got=got[:6], want=want[:6])
                    ctx.count("other_times")
        c.update_base_controls(last)
        ref.commit(last, ws)
        ctx.count("commits")
        if case["seed"] % 5 == 0:
            # get the last pulse without a new basis
            x = last.copy()
            ok = all(rec.close(a, b, 1e-8, unit) for a, b in zip(c.get_controls_lists(x)[0], ref.build(x, ws)["pulses"]))
            ctx.check(ok, "after-commit", si=si)
    if ctx.sample is None:
        ctx.sample = {"pulses": [p["basis"]["basis_name"] for p in cfg["opt"]["pulses"]], "dim": ref.dim}

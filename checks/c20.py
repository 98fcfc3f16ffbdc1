"""C20: the gradient GRAPE descends along is the derivative of the figure of merit of the controls it evaluated."""
import random
from vf import gen

LEVEL = "exploration"
RULE = ("random state-transfer problems (dimension 2-4, random drift and control Hamiltonians and states, fine time slicing, "
        "weak to strong controls, mixed states, guesses, both directions) are optimized by GRAPE or followed downhill in small steps while every value and gradient handed to the optimizer is recorded; "
        "each gradient is compared with the derivative of an independently propagated overlap within the analytic "
        "first-order bound dt^2 |[H, Hc]|; non-trivial: the bound is below 20% of the gradient; distinct by dimension, "
        "number of slices and direction")
ASSUMPTIONS = ["one pulse, no scaling function, inactive limits", "figure of merit of a state transfer (overlap of density matrices)"]
QUICK_BUDGET = 22
THOROUGH_BUDGET = 300
REQUIRED = {"gradients": 150, "walked": 60, "sharp_gradients": 80, "values": 150}


def before_import():
    from vf import spy
    spy.install()


def cases(tier, rnd):
    from vf import gr
    n = 360 if tier == "quick" else 2500
    for i in range(n):
        r = random.Random(rnd.random())
        cfg = gr.grape_cfg(r, r.choice(["minimization", "maximization", None]), maxfun=r.randint(2, 7))
        bins = r.choice([8, 20, 60, 120, 200])
        cfg["prob"][2] = bins
        p = cfg["opt"]["pulses"][0]
        p["bins_number"] = p["basis"]["bins_number"] = bins
        if r.random() < 0.5:
            p["initial_guess"] = {"function_type": "lambda_function",
                                  "lambda_function": "lambda t: %r + %r * np.sin(2 * t)" % (gen.r3(r, -1, 1), gen.r3(r, -1, 1))}
        if i % 4 == 3:       # strong control, tiny pulses
            cfg["prob"].append(2000.0)
            cfg["opt"]["pulses"][0]["initial_guess"] = {"function_type": "lambda_function", "lambda_function": "lambda t: %r * np.sin(2 * t)" % (gen.r3(r, 0.2, 1) / 2000)}
        if i % 8 == 7:       # still stronger, walked in small steps
            S = r.choice([1e5, 1e10])
            cfg["prob"][3] = S
            p["amplitude_variation"] = gen.r3(r, 0.3, 1.5) / S
            p["initial_guess"]["lambda_function"] = "lambda t: %r * np.sin(2 * t)" % (gen.r3(r, 0.2, 1) / S)
        if i % 6 == 1:
            cfg["prob"] = cfg["prob"][:3] + [1.0, r.choice(["int", "float"])]
        if i % 6 == 4 and cfg["prob"][1] > 2:
            cfg["prob"] = (cfg["prob"] + [1.0])[:4] + [r.choice(["rank2", "mixed"])]
        yield {"cfg": cfg, "shift": r.choice([0.0, 1.0, -3.0]),
               "walk": [r.choice([1e-3, 0.1, 0.3]), 5] if i % 8 == 7 or i % 9 == 5 else None}


def run(case, ctx):
    import numpy as np
    from scipy.linalg import expm
    from vf import rec, gr, spy, refs
    cfg = case["cfg"]
    pr = gr.Problem(*cfg["prob"])
    sg = 1.0 if cfg["opt"]["algorithm_settings"].get("optimization_direction") == "maximization" else -1.0
    del spy.CALLS[:]

    def fom(pulses, timegrids, parameters):
        return {"FoM": sg * (pr.overlap(pulses[0], cfg["T"]) + case["shift"])}
    spy.WALK[0] = case["walk"]
    try:
        tr = gr.grape_run(cfg, spec=fom)
    finally:
        spy.WALK[0] = None
    if not ctx.check(tr.error is None, "run-failed", error=tr.error):
        return
    G = spy.gradients(spy.CALLS)
    if not ctx.check(len(G) > 0, "no-gradients"):
        return
    ref = refs.RefControls({"opt": dict(cfg["opt"], parameters=[])})
    n, d = pr.n, pr.d
    dt = cfg["T"] / n
    # L-BFGS-B may propose points outside what was evaluated after a stop; judge the first ones
    for x, f, g in G[:8]:
        u = ref.build(x, [])["pulses"][0]
        if f is not None:
            own = -(pr.overlap(u, cfg["T"]) + case["shift"])
            ctx.check(abs(f - own) <= 1e-8 * max(1, abs(f)), "value", got=f, want=own)
            ctx.count("values")
        H = [pr.H0 + v * pr.H1 for v in u]
        Us = expm(-1j * dt * np.array(H))
        h = 1e-5 / (cfg["prob"] + [1.0])[3]
        Up = expm(-1j * dt * np.array([A + h * pr.H1 for A in H]))
        Um = expm(-1j * dt * np.array([A - h * pr.H1 for A in H]))
        rho, co = [pr.rho0], [pr.rhoT]
        for U in Us:
            rho.append(U @ rho[-1] @ U.conj().T)
        for U in Us[::-1]:
            co.append(U.conj().T @ co[-1] @ U)
        co = co[::-1]
        want = np.zeros(n)
        bound = np.zeros(n)
        floor = 1e-7 * max(1.0, cfg["T"] * np.linalg.norm(pr.H1, 2) / 10)
        for t in range(n):
            a = np.trace(co[t + 1].conj().T @ (Up[t] @ rho[t] @ Up[t].conj().T - Um[t] @ rho[t] @ Um[t].conj().T))
            want[t] = -np.real(a) / (2 * h)
            C = H[t] @ pr.H1 - pr.H1 @ H[t]
            bound[t] = dt * dt * np.linalg.norm(C, 2) * 1.2 + floor
        ctx.count("gradients")
        if case["walk"]:
            ctx.count("walked")
        if not ctx.check(g.shape == (n,), "shape", got=g.shape, want=n):
            return
        dev = np.abs(g - want)
        k = int(np.argmax(dev - bound))
        ctx.check(bool(np.all(dev <= bound)), "gradient", slice=k, slices=n, dim=d, got=g[k], want=want[k], bound=bound[k])
        if np.max(bound) < 0.2 * np.max(np.abs(want)):
            ctx.count("sharp_gradients")
            ctx.cover("d%d/n%d/%s" % (d, n, cfg["opt"]["algorithm_settings"].get("optimization_direction", "-")))
    if ctx.sample is None:
        ctx.sample = {"d": d, "slices": n, "T": cfg["T"], "gradients": len(G), "max_gradient": float(np.max(np.abs(want))),
                      "max_bound": float(np.max(bound))}

"""C23: the shipped control problems return the figure of merit of the physics they document, for every control."""
import random

LEVEL = "exploration"
RULE = ("direct calls and whole optimizations of the five shipped problems with random settings (states, detunings, noise, "
        "drift, sign, qubits, couplings, slices, up to 40 Rosenbrock parameters) and random and related controls (nearly equal, rescaled, reversed), in short and long random call sequences with and without parameters; "
        "every returned value, deviation, stored list and Hamiltonian is compared with an independent implementation "
        "(closed-form SU(2) rotations, bitwise Ising energies, explicit Rosenbrock sum), noise against its bounds and mean; "
        "non-trivial: figure of merit away from 0 and 1; distinct by problem and settings class")
ASSUMPTIONS = ["the Ising problems need at least three qubits and as many slices as pulse samples",
               "propagators requested before a figure of merit belong to the same controls",
               "agreement to 1e-9 (one qubit, Rosenbrock), 2e-6 (Ising, matrix square roots of pure states)"]
QUICK_BUDGET = 20
THOROUGH_BUDGET = 240
REQUIRED = {"onequbit": 400, "twofields": 120, "ising": 60, "ising_ad": 20, "rosenbrock": 150, "noisy": 200, "in_run": 60}


def cases(tier, rnd):
    n = 600 if tier == "quick" else 5000
    kinds = ["onequbit", "onequbit", "twofields", "rosenbrock", "ising", "onequbit_run", "noise", "ising_ad", "rosen_run"]
    for i in range(n):
        r = random.Random(rnd.random())
        yield {"kind": kinds[i % len(kinds)], "seed": r.randrange(10**9)}


def worker_init():
    import jax
    jax.config.update("jax_enable_x64", True)


def su2(np, ax, ay, az, t):
    """exp(-i t (ax sx + ay sy + az sz)) in closed form."""
    w = np.sqrt(ax * ax + ay * ay + az * az)
    c, s = np.cos(w * t), (np.sin(w * t) / w if w > 1e-300 else t)
    return np.array([[c - 1j * s * az, -1j * s * ax - s * ay], [-1j * s * ax + s * ay, c + 1j * s * az]])


def infidelity_1q(np, target, start, drive, dt, d1, d2):
    psi = np.array(start, dtype=complex)
    for u in drive:
        psi = su2(np, (u + d2) / 2, 0.0, d1 / 2, dt) @ psi
    return 1.0 - abs(np.vdot(target, psi)) ** 2 / (np.linalg.norm(target) * np.linalg.norm(psi))


def infidelity_2f(np, target, start, amp, ph, dt, d1, d2):
    psi = np.array(start, dtype=complex)
    for a, p in zip(amp, ph):
        psi = su2(np, a * (1 + d2) * np.cos(p), a * (1 + d2) * np.sin(p), d1 / 2, dt) @ psi
    return 1.0 - abs(np.vdot(target, psi)) ** 2 / (np.linalg.norm(target) * np.linalg.norm(psi))


def ising_mats(np, nq, J, g):
    dim = 2 ** nq
    diag = np.zeros(dim)
    X = np.zeros((dim, dim))
    for s in range(dim):
        z = [1 - 2 * ((s >> (nq - 1 - q)) & 1) for q in range(nq)]
        diag[s] = sum(-J * z[q] * z[(q + 1) % nq] - g * z[q] * z[(q + 2) % nq] for q in range(nq))
        for q in range(nq):
            X[s ^ (1 << (nq - 1 - q)), s] += 1
    return diag, X


def ising_fid(np, nq, J, g, pulse, dt):
    diag, X = ising_mats(np, nq, J, g)
    psi = np.zeros(2 ** nq, dtype=complex)
    psi[0] = 1
    for u in pulse:
        w, v = np.linalg.eigh(np.diag(diag) + u * X)
        psi = v @ (np.exp(-1j * dt * w) * (v.conj().T @ psi))
    return abs(psi[-1]) ** 2


def special(r):
    """A physical constant: also absent (0), integer or negative."""
    return float(r.normal()) if r.random() < 0.6 else [0, 0.0, 1, -1, 2, -0.5][int(r.integers(6))]


STATES = ["[1.0, 0.0]", "[0.0, 1.0]", "[1.0/np.sqrt(2), -1j/np.sqrt(2)]", "[0.6, 0.8j]", "[0.5, 0.5+np.sqrt(0.5)*1j]"]


def run(case, ctx):
    import numpy as np
    r = np.random.default_rng(case["seed"])
    kind = case["kind"]
    near = lambda a, b, tol=1e-9: bool(np.isfinite(a)) and abs(float(a) - float(b)) <= tol * max(1.0, abs(float(b)))
    if kind in ("onequbit", "onequbit_run", "twofields", "noise"):
        args, ref = {}, {"target_state": STATES[2], "initial_state": STATES[0], "delta1": 0.1, "delta2": 0.1}
        for k in list(ref):
            if r.random() < 0.6:
                ref[k] = args[k] = STATES[r.integers(len(STATES))] if k.endswith("state") else special(r)
        tg, st = np.array(eval(ref["target_state"]), dtype=complex), np.array(eval(ref["initial_state"]), dtype=complex)
        cls = "+".join(sorted(args))
    if kind in ("onequbit", "noise"):
        from quocslib.optimalcontrolproblems.OneQubitProblem import OneQubit
        factor, drift, noise = -1.0, None, None
        if r.random() < 0.4:
            factor = args["optimization_factor"] = float(r.choice([1.0, -1.0]))
        if r.random() < 0.4:
            args["include_drift"] = True
            drift = 0.002
            if r.random() < 0.7:
                drift = args["linear_drift_val_over_iteration"] = special(r)
        if kind == "noise":
            args["is_noisy"] = True
            noise = 0.05
            if r.random() < 0.7:
                noise = args["noise_factor"] = float(r.uniform(0.01, 0.4))
        two = kind == "noise" and r.random() < 0.3
        if two:
            from quocslib.optimalcontrolproblems.OneQubitProblem_2fields import OneQubit2Fields
            args = {k: v for k, v in args.items() if k not in ("optimization_factor", "include_drift",
                                                               "linear_drift_val_over_iteration")}
            f, drift, factor = OneQubit2Fields(args or None), None, -1.0
        else:
            f = OneQubit(args or None)
        np.random.seed(int(r.integers(1 << 31)))
        d1, hist, devs = ref["delta1"], [], []
        long = case["seed"] % 12 == 0
        for n in range(60 if kind == "noise" else 1500 if long else 8):
            m = int(r.integers(2, 4 if long else 30))
            dt = float(r.uniform(0.01, 0.5))
            t = np.arange(m) * dt
            u = r.normal(size=m) * r.choice([0, 1, 5])
            par = []
            if r.random() < 0.4 and not two:
                par = [float(r.normal())] + ([2.0] if r.random() < 0.2 else [])
                d1 = par[0]
            lst = r.random() < 0.3
            if two:
                ph = r.uniform(-4, 4, m)
                out = f.get_FoM(pulses=[u, ph], parameters=par, timegrids=[t, t])
                want = infidelity_2f(np, tg, st, u, ph, dt, ref["delta1"], ref["delta2"])
            else:
                out = f.get_FoM(pulses=[list(u) if lst else u], parameters=par, timegrids=[list(t) if lst else t])
                want = infidelity_1q(np, tg, st, u, dt, d1, ref["delta2"])
                if drift is not None:
                    want += drift * n
            want *= -factor
            hist.append(out["FoM"])
            if noise is None:
                ctx.check(near(out["FoM"], want) and near(out["std"], 1e-4), "one-qubit-value", n=n, args=args, got=out, want=want)
            else:
                ok = abs(out["FoM"] - want) <= noise * (1 + 1e-9) or (two and abs(-out["FoM"] - want) <= noise * (1 + 1e-9))
                ctx.check(ok and near(out["std"], 0.6827 * noise), "noise-bounds", n=n, args=args, got=out, want=want, two=two)
                if not (two and want < noise):
                    devs.append((out["FoM"] - want) / noise)
                ctx.count("noisy")
            ctx.count("onequbit")
            if 0.02 < abs(want) < 0.98:
                ctx.cover("%s/%s/%s" % (kind, cls, "drift" if drift else ""))
        if not two:
            ctx.check(list(f.FoM_list) == hist, "fom-list", got=f.FoM_list, want=hist)
            f.set_save_path(".")
            f.save_FoM()
            back = np.loadtxt("FoM.txt")
            ctx.check(np.allclose(back, hist, rtol=1e-12, atol=0), "saved-list", got=back, want=hist)
        if noise is not None and len(devs) > 30:
            dv = np.array(devs)
            # uniform on [-1, 1]: mean 0, variance 1/3; bounds at 6 standard errors
            ctx.check(abs(dv.mean()) < 6 * np.sqrt(1 / 3 / len(dv)) and 0.15 < dv.var() < 0.55
                      and len(set(np.round(dv, 12))) > 0.9 * len(dv), "noise-distribution", mean=dv.mean(), var=dv.var())
    elif kind == "twofields":
        from quocslib.optimalcontrolproblems.OneQubitProblem_2fields import OneQubit2Fields
        f = OneQubit2Fields(args or None)
        for n in range(8):
            m = int(r.integers(2, 30))
            dt = float(r.uniform(0.01, 0.5))
            t = np.arange(m) * dt
            amp, ph = r.normal(size=m) * r.choice([0, 1, 3]), r.uniform(-4, 4, m)
            out = f.get_FoM(pulses=[amp, ph], parameters=[], timegrids=[t, t])
            want = abs(infidelity_2f(np, tg, st, amp, ph, dt, ref["delta1"], ref["delta2"]))
            ctx.check(near(out["FoM"], want) and out["std"] == 0.0, "two-fields-value", args=args, got=out, want=want)
            ctx.count("twofields")
            if 0.02 < want < 0.98:
                ctx.cover("%s/%s" % (kind, cls))
    elif kind == "rosenbrock":
        from quocslib.optimalcontrolproblems.RosenbrockProblem import Rosenbrock
        noise = float(r.uniform(0.01, 1)) if r.random() < 0.3 else None
        f = Rosenbrock({"is_noisy": True, "noise_factor": noise} if noise else (None if r.random() < 0.3 else {}))
        for n in range(8):
            x = list(r.normal(size=int(r.choice([2, 3, 5, 8, 13, 40]))) * r.choice([0.1, 1, 10])) if n else [1.0] * 4
            out = f.get_FoM(pulses=[], parameters=x, timegrids=[])
            want = sum(100 * (x[i + 1] - x[i] ** 2) ** 2 + (1 - x[i]) ** 2 for i in range(len(x) - 1))
            if noise:
                ctx.check(abs(out["FoM"] - want) <= noise + 1e-9 * max(1, want) and near(out["std"], 0.6827 * noise), "rosenbrock-noise",
                          got=out, want=want)
            else:
                ctx.check(near(out["FoM"], want) and out["std"] == 0.0, "rosenbrock", x=x, got=out, want=want)
            ctx.count("rosenbrock")
            ctx.cover("rosenbrock/%d/%s" % (len(x), bool(noise)))
    elif kind in ("ising", "ising_ad"):
        nq = int(r.integers(3, 6 if kind == "ising" else 5))
        J, g, m = special(r), special(r), int(r.integers(2, 25))
        args = {"n_qubits": nq, "n_slices": m}
        if r.random() < 0.7:
            args["J"] = J
        else:
            J = 1
        if r.random() < 0.7:
            args["g"] = g
        else:
            g = 2
        diag, X = ising_mats(np, nq, J, g)
        if kind == "ising":
            from quocslib.optimalcontrolproblems.IsingModelProblem import IsingModel
            mx = bool(r.random() < 0.5)
            if mx or r.random() < 0.5:
                args["is_maximization"] = mx
            f = IsingModel(args)
        else:
            from quocslib.optimalcontrolproblems.IsingModelADProblem import IsingModel
            mx = True
            f = IsingModel(args)
        dim = 2 ** nq
        e0, e1 = np.zeros((dim, dim)), np.zeros((dim, dim))
        e0[0, 0] = e1[-1, -1] = 1
        for name, got, want in (("drift", f.get_drift_Hamiltonian(), np.diag(diag)), ("control", f.get_control_Hamiltonians(), X),
                                ("initial", f.get_initial_state(), e0), ("target", f.get_target_state(), e1)):
            ctx.check(np.shape(got) == (dim, dim) and np.abs(np.asarray(got) - want).max() < 1e-12, "ising-" + name, args=args)
        u = T = None
        for n in range(6 if kind == "ising" else 3):
            # amplitudes near resonance of the average energy step so the fidelity is not always tiny
            if n == 0 or r.random() < 0.4:
                u = r.normal(size=m) * r.choice([0.3, 2.0]) + r.choice([0.0, 3.0])
            else:   # a relative of the previous pulse: same samples in another order, sign, ends or energy
                k = r.integers(5)
                u = [u[::-1], r.permutation(u), -u, np.concatenate([u[:1], r.permutation(u[1:-1]), u[-1:]]) if m > 2 else u[::-1],
                     np.roll(u, 1)][k].copy()
            if T is None or r.random() < 0.5:
                T = float(r.uniform(0.2, 3.0))
            t = np.linspace(0, T, m)
            dt = T / m
            want = ising_fid(np, nq, J, g, u, dt)
            if kind == "ising":
                mode = r.integers(3)
                if mode == 1:
                    U = f.get_propagator(pulses_list=[u], time_grids_list=[t], parameters_list=[])
                    ctx.check(len(U) == m, "ising-propagators", got=len(U))
                    for k in (0, m - 1):
                        w, v = np.linalg.eigh(np.diag(diag) + u[k] * X)
                        ctx.check(np.abs(np.asarray(U[k]) - v @ np.diag(np.exp(-1j * dt * w)) @ v.conj().T).max() < 1e-8,
                                  "ising-propagator", k=k, args=args)
                out = f.get_FoM(pulses=[u], parameters=[], timegrids=[t])
                ok = near(out["FoM"], want * (1 if mx else -1), 2e-6)
                ok = ok and f.FoM_list[-1] == out["FoM"]
                ctx.count("ising")
            else:
                import jax.numpy as jnp
                U = np.asarray(f.get_propagator(jnp.array([u]), jnp.array([t]), jnp.zeros(0)))
                out = f.get_FoM(pulses=jnp.array([u]), parameters=jnp.zeros(0), timegrids=jnp.array([t]))
                ok = near(out["FoM"], want, 1e-6) and near(abs(U[-1, 0]) ** 2, want, 1e-6)
                ctx.count("ising_ad")
            ctx.check(ok, kind + "-value", args=args, got=out["FoM"], want=want, mx=mx)
            ctx.cover("%s/%d/%s/%s" % (kind, nq, mx, want > 0.05))
    else:
        # the problem inside a real optimization
        from vf import gen, rec
        import random as _r
        rr = _r.Random(case["seed"])
        if kind == "onequbit_run":
            from quocslib.optimalcontrolproblems.OneQubitProblem import OneQubit
            cfg = gen.config(rr, alg="dCRAB", npulses=1, nparams=rr.choice([0, 1]), ntimes=1)
            for p in cfg["opt"]["pulses"]:
                p["bins_number"] = max(3, p["bins_number"])
                for k in ("initial_guess", "scaling_function"):
                    if p.get(k, {}).get("function_type") == "list_function":
                        p.pop(k)
            f = OneQubit(args or None)
            tr = optimize(rec, cfg, f)
            d1 = ref["delta1"]
            for e in tr.evals:
                if e["parameters"]:
                    d1 = e["parameters"][0]
                t = e["timegrids"][0]
                want = infidelity_1q(np, tg, st, e["pulses"][0], t[1] - t[0], d1, ref["delta2"])
                ctx.check(near(e["fom"], want), "value-in-run", got=e["fom"], want=want)
                ctx.count("in_run")
            ctx.check(tr.error is None, "run-error", error=tr.error)
        else:
            from quocslib.optimalcontrolproblems.RosenbrockProblem import Rosenbrock
            cfg = gen.config(rr, alg="DirectSearch", npulses=0, nparams=rr.choice([2, 3, 4]))
            tr = optimize(rec, cfg, Rosenbrock({}))
            for e in tr.evals:
                x = e["parameters"]
                want = sum(100 * (x[i + 1] - x[i] ** 2) ** 2 + (1 - x[i]) ** 2 for i in range(len(x) - 1))
                ctx.check(near(e["fom"], want), "value-in-run", got=e["fom"], want=want)
                ctx.count("in_run")
            ctx.check(tr.error is None, "run-error", error=tr.error)
    if ctx.sample is None:
        ctx.sample = {"kind": kind, "seed": case["seed"]}


def optimize(rec, cfg, f):
    tr = rec.Trace(cfg)
    return rec.run(cfg, trace=tr, fom=rec.make_fom(
        tr, lambda p, t, q: f.get_FoM(pulses=p, parameters=list(q), timegrids=t)))

"""Small quantum control problems for GRAPE and AD (own propagation with scipy / closed form)."""
import numpy as np
from scipy.linalg import expm


def rand_herm(r, d, scale=1.0):
    a = r.standard_normal((d, d)) + 1j * r.standard_normal((d, d))
    return scale * (a + a.conj().T) / 2


def rand_pure(r, d):
    v = r.standard_normal(d) + 1j * r.standard_normal(d)
    v /= np.linalg.norm(v)
    return np.outer(v, v.conj())


class Problem:
    def __init__(self, seed, d, n, strength=1.0, states=None):
        r = np.random.default_rng(seed)
        self.d, self.n = d, n
        self.H0, self.H1 = rand_herm(r, d), strength * rand_herm(r, d)
        self.rho0, self.rhoT = rand_pure(r, d), rand_pure(r, d)
        if states in ("rank2", "mixed"):        # a subspace as the target, a mixed start
            v = [rand_pure(r, d) for _ in range(2)]
            w, e = np.linalg.eigh(v[0] + v[1])
            self.rhoT = e[:, -2:] @ e[:, -2:].conj().T
            if states == "mixed":
                self.rho0 = 0.7 * self.rho0 + 0.3 * rand_pure(r, d)
        elif states:      # basis states of a real or integer type, real Hamiltonians
            self.rho0, self.rhoT = np.zeros((d, d), states), np.zeros((d, d), states)
            self.rho0[0, 0] = self.rhoT[d - 1, d - 1] = 1
            if states == "float":
                self.rhoT = np.outer(np.ones(d), np.ones(d)) / d

    def props(self, pulse, T):
        dt = T / self.n
        return [expm(-1j * dt * (self.H0 + u * self.H1)) for u in pulse]

    def overlap(self, pulse, T):
        rho = self.rho0
        for U in self.props(np.real(np.asarray(pulse)), T):
            rho = U @ rho @ U.conj().T
        return float(np.real(np.trace(self.rhoT.conj().T @ rho)))


def grape_cfg(rnd, direction=None, maxfun=None, total=None, goal=None):
    d, n = rnd.choice([2, 2, 3, 4]), rnd.randint(3, 12)
    a = {"algorithm_name": "GRAPE", "stopping_criteria": {"ftol": 1e-12, "gtol": 1e-12,
                                                           "max_eval_total": maxfun or rnd.randint(3, 30)},
         "random_number_generator": {"seed_number": rnd.randrange(10**6)}}
    if direction:
        a["optimization_direction"] = direction
    if total:
        a["max_eval_total"] = total
    if goal is not None:
        a["FoM_goal"] = goal
    T = round(rnd.uniform(0.3, 2.5), 3)
    opt = {"algorithm_settings": a,
           "pulses": [{"pulse_name": "Pulse1", "upper_limit": 1e3, "lower_limit": -1e3, "bins_number": n,
                       "amplitude_variation": round(rnd.uniform(0.3, 3.0), 3), "time_name": "time1",
                       "basis": {"basis_name": "PiecewiseBasis", "bins_number": n}}],
           "parameters": [], "times": [{"time_name": "time1", "initial_value": T}]}
    return {"opt": opt, "prob": [rnd.randrange(10**6), d, n], "T": T, "fom": {"kind": "quad", "seed": rnd.randrange(10**6)},
            "np_seed": 1, "dim": n}


def grape_fom(trace, cfg, hook=None, spec=None, sign=None):
    """FoM object of a GRAPE problem: -overlap (minimization) or +overlap (maximization), or the spec given."""
    from .rec import make_fom
    pr = Problem(*cfg["prob"])
    sg = sign if sign is not None else (1.0 if trace.sign < 0 else -1.0)

    def fn(pulses, timegrids, parameters):
        return {"FoM": sg * pr.overlap(pulses[0], cfg["T"])}

    def get_propagator(pulses_list=None, time_grids_list=None, parameters_list=None):
        return pr.props(pulses_list[0], cfg["T"])

    o = make_fom(trace, spec if spec is not None else fn, hook,
                 extra={"get_propagator": get_propagator, "get_initial_state": lambda: pr.rho0,
                        "get_target_state": lambda: pr.rhoT, "get_drift_Hamiltonian": lambda: pr.H0,
                        "get_control_Hamiltonians": lambda: pr.H1})
    o.prob = pr
    return o


def grape_run(cfg, hook=None, spec=None, **k):
    from . import rec
    tr = rec.Trace(cfg)
    return rec.run(cfg, hook=hook, trace=tr, fom=grape_fom(tr, cfg, hook, spec), **k)


def ad_cfg(rnd, direction=None, si=1, maxfun=5, npulses=1, nparams=0, total=None, bases=("PiecewiseBasis",), dump=None):
    T = round(rnd.uniform(0.5, 2), 3)
    a = {"algorithm_name": "AD", "super_iteration_number": si,
         "stopping_criteria": {"ftol": 1e-9, "gtol": 1e-9, "max_eval_total": maxfun},
         "random_number_generator": {"seed_number": rnd.randrange(10**6)}}
    if direction:
        a["optimization_direction"] = direction
    if total:
        a["max_eval_total"] = total
    pulses = []
    for i in range(npulses):
        n = rnd.randint(4, 8)
        b = rnd.choice(list(bases))
        basis = {"basis_name": b}
        if b == "Fourier":
            basis.update(basis_vector_number=1, random_super_parameter_distribution={
                "distribution_name": "Uniform", "lower_limit": 0.1, "upper_limit": 3.0})
        else:
            basis["bins_number"] = n
        pulses.append({"pulse_name": "Pulse%d" % (i + 1), "upper_limit": 30.0, "lower_limit": -30.0, "bins_number": n,
                       "amplitude_variation": round(rnd.uniform(0.3, 1.5), 3), "time_name": "time1", "basis": basis,
                       "initial_guess": {"function_type": "lambda_function",
                                         "lambda_function": "lambda t: %r + 0.1 * t" % round(rnd.uniform(-1, 1), 3)},
                       "scaling_function": {"function_type": "lambda_function",
                                            "lambda_function": "lambda t: 1.0 + 0.0 * t"}})
    params = [{"parameter_name": "Par%d" % (i + 1), "lower_limit": -5.0, "upper_limit": 5.0,
               "initial_value": round(rnd.uniform(-1, 1), 3), "amplitude_variation": 0.3} for i in range(nparams)]
    opt = {"algorithm_settings": a, "pulses": pulses, "parameters": params,
           "times": [{"time_name": "time1", "initial_value": T}]}
    if dump:
        opt["dump_format"] = dump
    return {"opt": opt, "seed": rnd.randrange(10**6), "np_seed": 1, "T": T}


def ad_value(xp, cfg, pulses, parameters):
    """Smooth real scalar of the controls, usable with numpy and jax.numpy."""
    v = 0.0
    sg = 1.0
    n_max = max(p["bins_number"] for p in cfg["opt"]["pulses"])
    for i, p in enumerate(cfg["opt"]["pulses"]):
        n = p["bins_number"]
        u = xp.real(pulses[i][:n])
        k = np.arange(n)
        c = np.cos(1.3 * k + cfg["seed"] % 7 + i)
        v = v + xp.sum((u - c) ** 2) / n_max + 0.2 * xp.sum(xp.sin(u * (1 + 0.1 * k)))
    for i in range(len(cfg["opt"]["parameters"])):
        v = v + (i + 1) * (xp.real(parameters[i]) - 0.7) ** 2
    return v * cfg.get("gain", 1.0)


def ad_fom(trace, cfg, hook=None, special=None):
    """AD figure of merit: called with jax tracers inside jit and with concrete jax arrays for evaluations."""
    import jax
    import jax.numpy as jnp
    from quocslib.utils.AbstractFoM import AbstractFoM
    sg = trace.sign

    class F(AbstractFoM):
        def get_FoM(self, pulses=None, parameters=None, timegrids=None):
            v = sg * ad_value(jnp, cfg, pulses, parameters)
            if isinstance(v, jax.core.Tracer):
                trace.log.append(("trace", {}))
                return {"FoM": v}
            e = {"n": len(trace.evals), "pulses": [np.array(p) for p in pulses],
                 "timegrids": [np.array(t) for t in timegrids],
                 "parameters": [float(np.real(q)) for q in parameters], "fom": float(v), "status": 0, "ret": None}
            trace.evals.append(e)
            trace.log.append(("call", {"n": e["n"]}))
            if hook is not None:
                hook(trace, "call", e)
            trace.log.append(("ret", {"n": e["n"]}))
            if hook is not None:
                hook(trace, "ret", e)
            return {"FoM": v}

    return F()


def ad_run(cfg, hook=None, **k):
    from . import rec
    tr = rec.Trace(cfg)
    return rec.run(cfg, hook=hook, trace=tr, fom=ad_fom(tr, cfg, hook), **k)

"""C22: piecewise-constant time evolution multiplies exp(-i dt (A + sum_k u_k(i) B_k)) in time order, in both backends."""
import random

LEVEL = "exploration"
RULE = ("random drift and control matrices (dimension 1-5, up to three controls, Hermitian, complex, degenerate, zero, also "
        "non-Hermitian generators), drives with zero, huge and alternating amplitudes, 0-40 slices, states and operators as "
        "start: every stored propagator and the final one are compared with an own eigen-decomposition/Taylor reference and "
        "between the numpy and the jax version, unitarity, composition in time, unchanged arguments and untouched surplus "
        "slots are monitored, and the jax gradient is compared with central differences; non-trivial: non-commuting "
        "generators and at least 2 slices; distinct by dimension, controls, kind of matrices and start")
ASSUMPTIONS = ["double precision; agreement to 1e-8 (numpy) and 1e-6 (jax) of the size of the propagator"]
QUICK_BUDGET = 20
THOROUGH_BUDGET = 240
CASE_LIMIT = 90
REQUIRED = {"stored": 800, "finals": 150, "jax_finals": 40, "jax_stored": 60, "gradients": 4, "noncommuting": 30}


def cases(tier, rnd):
    n = 450 if tier == "quick" else 5000
    for i in range(n):
        r = random.Random(rnd.random())
        yield {"seed": r.randrange(10**9), "d": r.choice([1, 2, 2, 3, 3, 4, 5]), "K": r.choice([0, 1, 1, 2, 2, 3]),
               "n": r.choice([0, 1, 2, 3, 5, 7, 20, 40]), "dt": r.choice([1e-3, 0.1, 0.5, 1.0, -0.2]),
               "mat": r.choice(["herm", "herm", "herm", "real", "diag", "zeroA", "nonherm", "degenerate"]),
               "drive": r.choice(["rand", "rand", "zero", "big", "alt", "int", "tiny", "slow"]), "start": r.choice(["id", "op", "vec", "rect"]),
               "store": r.choice(["list", "array", "longer"]), "cls": r.choice(["array", "array", "matrix"]),
               "jax": i % 3 == 0, "grad": i % 7 == 0}


def expm_ref(np, M):
    """exp(M) by scaling, Taylor series and squaring (independent of scipy)."""
    nrm = np.linalg.norm(M, 2) if M.size else 0.0
    s = max(0, int(np.ceil(np.log2(max(nrm, 1e-16)))) + 3)
    X = M / 2.0 ** s
    out = np.eye(len(M), dtype=complex)
    term = np.eye(len(M), dtype=complex)
    for k in range(1, 22):
        term = term @ X / k
        out = out + term
    for _ in range(s):
        out = out @ out
    return out


def worker_init():
    import jax
    jax.config.update("jax_enable_x64", True)


def run(case, ctx):
    import numpy as np
    from quocslib.timeevolution import piecewise_integrator as pi
    from vf import gr
    r = np.random.default_rng(case["seed"])
    d, K, n, dt = case["d"], case["K"], case["n"], case["dt"]

    def matrix():
        m = case["mat"]
        if m in ("herm", "zeroA"):
            return gr.rand_herm(r, d)
        if m == "real":
            return np.real(gr.rand_herm(r, d))
        if m == "diag":
            return np.diag(r.standard_normal(d)).astype(complex)
        if m == "degenerate":
            v = gr.rand_pure(r, d)
            return v - 0.5 * np.eye(d)
        return r.standard_normal((d, d)) + 1j * r.standard_normal((d, d))

    A = matrix()
    if case["mat"] == "zeroA":
        A = np.zeros((d, d), dtype=complex)
    B = [matrix() for _ in range(K)]
    extra = int(r.integers(0, 3))
    u = r.standard_normal((max(K, 1), n + extra))
    if case["drive"] == "zero":
        u *= 0
    elif case["drive"] == "big":
        u *= 8
    elif case["drive"] == "alt":
        u = np.where(np.arange(n + extra) % 2, 1.0, -1.0) * np.ones((max(K, 1), 1)) * 1.7
    elif case["drive"] == "int":
        u = r.integers(-2, 3, size=(max(K, 1), n + extra))
    elif case["drive"] == "tiny":      # strong control matrices, amplitudes in another unit
        u, B = u * 1e-9, [b * 1e9 for b in B]
    elif case["drive"] == "slow":
        u = u[:, :1] + 2e-6 * np.arange(n + extra)
    if case["cls"] == "matrix":
        A, B = np.matrix(A), [np.matrix(b) for b in B]
    want = []
    for i in range(n):
        H = np.array(A, dtype=complex)
        for k in range(K):
            H = H + u[k, i] * np.array(B[k])
        want.append(expm_ref(np, -1j * dt * H))
    U0 = {"id": np.eye(d, dtype=complex), "op": r.standard_normal((d, d)) + 1j * r.standard_normal((d, d)),
          "vec": r.standard_normal(d) + 1j * r.standard_normal(d),
          "rect": r.standard_normal((d, 2)) + 0j}[case["start"]]
    if case["cls"] == "matrix" and case["start"] == "vec":
        U0 = U0.reshape(d, 1)
    fin = np.array(U0)
    for U in want:
        fin = U @ fin
    keep = [np.array(A), [np.array(b) for b in B], np.array(u), np.array(U0)]
    scale = max([1.0] + [float(np.abs(U).max()) for U in want])
    tol = 1e-8 * scale

    def unchanged(where):
        same = (np.array_equal(A, keep[0]) and all(np.array_equal(x, y) for x, y in zip(B, keep[1]))
                and np.array_equal(u, keep[2]) and np.array_equal(U0, keep[3]))
        ctx.check(same, "arguments-modified", where=where, **case)

    marker = np.full((d, d), 7.0 + 0j)
    slots = n + (2 if case["store"] == "longer" else 0)
    store = np.array([marker] * slots).reshape(slots, d, d) if case["store"] == "array" else [marker.copy() for _ in range(slots)]
    out = pi.pw_evolution(store, u, A, B, n, dt)
    unchanged("stored")
    ok = len(out) == slots
    for i in range(n):
        ok = ok and np.shape(out[i]) == (d, d) and np.abs(np.asarray(out[i]) - want[i]).max() <= tol
        ctx.count("stored")
        if case["mat"] != "nonherm" and ok:
            ok = np.abs(np.asarray(out[i]).conj().T @ np.asarray(out[i]) - np.eye(d)).max() < 1e-9
    for i in range(n, slots):
        ok = ok and np.array_equal(out[i], marker)
    ctx.check(ok, "stored-propagators", got=[np.asarray(x).tolist() for x in out][:2], want=[x.tolist() for x in want][:2], **case)
    got = pi.pw_final_evolution(u, A, B, n, dt, U0)
    unchanged("final")
    fs = max(1.0, float(np.abs(fin).max()), float(np.prod([max(1.0, np.linalg.norm(U, 2)) for U in want])))
    ctx.check(np.shape(got) == np.shape(fin) and np.abs(np.asarray(got) - fin).max() <= 1e-8 * fs, "final-propagator",
              got=np.asarray(got), want=fin, **case)
    ctx.count("finals")
    if n >= 2:
        m = int(r.integers(1, n))
        half = pi.pw_final_evolution(u[:, m:], A, B, n - m, dt, pi.pw_final_evolution(u, A, B, m, dt, U0))
        ctx.check(np.abs(np.asarray(half) - fin).max() <= 1e-8 * fs, "composition", m=m, **case)
    comm = n >= 2 and max(np.abs(want[i] @ want[i + 1] - want[i + 1] @ want[i]).max() for i in range(n - 1)) > 1e-3
    if comm:
        ctx.count("noncommuting")
        ctx.cover("d%d/K%d/%s/%s/%s" % (d, K, case["mat"], case["start"], case["cls"]))
    if ctx.sample is None:
        ctx.sample = dict(case)
    if not (case["jax"] or case["grad"]):
        return
    import jax
    import jax.numpy as jnp
    from quocslib.timeevolution import piecewise_integrator_AD as pa
    Aj, Bj, uj, Uj = jnp.array(np.array(A) + 0j), [jnp.array(np.array(b) + 0j) for b in B], jnp.array(np.array(u) * 1.0), jnp.array(np.array(U0))
    if case["jax"] and n:
        got = np.asarray(pa.pw_final_evolution_AD(uj, Aj, Bj, n, dt, Uj))
        ctx.check(got.shape == fin.shape and np.abs(got - fin).max() <= 1e-6 * fs, "jax-final", got=got, want=fin, **case)
        ctx.count("jax_finals")
        if 0 < n <= 7:
            st = jnp.array(np.array([marker] * slots))
            out = np.asarray(pa.pw_evolution_AD(st, uj, Aj, Bj, n, dt))
            ok = out.shape[0] == slots and all(np.abs(out[i] - want[i]).max() <= 100 * tol for i in range(n))
            ok = ok and all(np.array_equal(out[i], marker) for i in range(n, slots))
            ctx.check(ok, "jax-stored", got=out[:2], want=[x.tolist() for x in want][:2], **case)
            ctx.count("jax_stored", n)
    if case["grad"] and 0 < n <= 20 and K and case["drive"] in ("rand", "alt"):
        w = jnp.array(r.standard_normal(np.shape(fin)))

        def f(v):
            return jnp.sum(w * jnp.abs(pa.pw_final_evolution_AD(v, Aj, Bj, n, dt, Uj)) ** 2)

        g = np.asarray(jax.grad(f)(uj))
        num = np.zeros_like(g)

        def fr(v):
            X = np.array(U0)
            for i in range(n):
                H = np.array(A, dtype=complex)
                for k in range(K):
                    H = H + v[k, i] * np.array(B[k])
                X = expm_ref(np, -1j * dt * H) @ X
            return float(np.sum(np.asarray(w) * np.abs(X) ** 2))

        for k in range(K):
            for i in range(n):
                v = np.array(uj)
                h = 1e-5
                v[k, i] += h
                a = fr(v)
                v[k, i] -= 2 * h
                num[k, i] = (a - fr(v)) / (2 * h)
        ctx.check(np.abs(g - num).max() <= 1e-5 * max(1.0, np.abs(num).max(), fs ** 2), "jax-gradient", got=g, want=num, **case)
        ctx.count("gradients")

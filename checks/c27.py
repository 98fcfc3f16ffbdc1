"""C27: the quantum and pulse tools compute the textbook quantities they are named after."""
import random

LEVEL = "exploration"
RULE = ("random matrices, pure and mixed states of any rank, subsystem layouts and pulses: partial trace, Uhlmann fidelity "
        "(both variants), overlap, density matrices, matrix square root, displacement, commutator, orthonormalization, "
        "Liouvillian, vectorization and pulse resampling are compared with independent numpy implementations and with their "
        "algebraic laws (symmetry, range, trace preservation, invariance under unitaries, idempotence); the fidelity gradient "
        "is compared with central differences; distinct by tool, dimension and rank")
ASSUMPTIONS = ["double precision, square roots of singular matrices to 1e-6", "orthonormalization of linearly independent real vectors",
               "resampling times away from the midpoint between two samples"]
QUICK_BUDGET = 25
THOROUGH_BUDGET = 240
CASE_LIMIT = 90
REQUIRED = {"partial_traces": 60, "fidelities": 150, "square_roots": 100, "liouvillians": 100, "gram_schmidt": 100, "resamples": 100, "plots": 40,
            "displacements": 40, "fidelity_gradients": 10, "single_precision": 40}


def cases(tier, rnd):
    n = 330 if tier == "quick" else 3500
    for i in range(n):
        r = random.Random(rnd.random())
        yield {"kind": ["ptrace", "states", "algebra", "pulse"][i % 4], "seed": r.randrange(10**9), "f32": i % 3 == 0}


def worker_init():
    import jax
    jax.config.update("jax_enable_x64", True)


def psd(np, r, d, rank):
    a = r.standard_normal((d, rank)) + 1j * r.standard_normal((d, rank))
    m = a @ a.conj().T
    return m / np.trace(m).real


def root(np, a):
    w, v = np.linalg.eigh((a + a.conj().T) / 2)
    return (v * np.sqrt(np.clip(w, 0, None))) @ v.conj().T


def uhlmann(np, a, b):
    s = np.linalg.svd(root(np, a) @ root(np, b), compute_uv=False)
    return float(s.sum()) ** 2


def run(case, ctx):
    import numpy as np
    r = np.random.default_rng(case["seed"])
    kind = case["kind"]
    dif = lambda a, b: float(np.abs(np.asarray(a) - np.asarray(b)).max(initial=0)) if np.shape(a) == np.shape(b) else float("inf")
    if kind == "ptrace":
        import jax.numpy as jnp
        from quocslib.tools.partial_trace import create_mask, jax_partial_trace_transform
        k = int(r.integers(1, 5))
        dims = [int(v) for v in r.choice([1, 2, 2, 3, 4], size=k)]
        m = int(r.integers(0, k + 1))
        pos = [int(v) for v in r.permutation(k)[:m]]
        D = int(np.prod(dims))
        fn = jax_partial_trace_transform(list(dims), list(pos))
        for j in range(2):
            a = r.standard_normal((D, D)) + 1j * r.standard_normal((D, D))
            if j:
                a = psd(np, r, D, int(r.integers(1, D + 1)))
            t = a.reshape(dims * 2)
            row = list(range(k))
            col = [q if q in pos else k + q for q in range(k)]
            keep = [q for q in range(k) if q not in pos]
            want = np.einsum(t, row + col, keep + [k + q for q in keep])
            n = int(np.prod([dims[q] for q in keep])) if keep else 1
            got = np.asarray(fn(jnp.array(a)))
            ctx.check(dif(got, want.reshape(n, n)) < 1e-9 * max(1, D), "partial-trace", dims=dims, positions=pos, got=got, want=want)
            ctx.check(abs(np.trace(got) - np.trace(a)) < 1e-8 * D, "trace-preserved", dims=dims, positions=pos)
            ctx.count("partial_traces")
        for bad in ([-1], [k], [0, k + 3]):
            try:
                create_mask(bad, k)
                ctx.viol("bad-position-accepted", positions=bad, subsystems=k)
            except ValueError:
                pass
        ctx.cover("ptrace/%s/%s" % (dims, pos))
    elif kind == "states":
        import jax
        import jax.numpy as jnp
        from quocslib.tools.fidelities import fidelity_AD, fidelity_not_diff_due_to_sqrtm
        from quocslib.tools.operations import _displace, _sqrtm, state_to_dm
        from quocslib.utils.jax_utils import fidelity_funct
        d = int(r.integers(1, 6))
        for j in range(4):
            ra, rb = int(r.choice([1, d, r.integers(1, d + 1)])), int(r.choice([1, d, r.integers(1, d + 1)]))
            a, b = psd(np, r, d, ra), psd(np, r, d, rb)
            if r.random() < 0.2:
                b = a
            A, B = jnp.array(a), jnp.array(b)
            want = uhlmann(np, a, b)
            tol = 2e-6 if min(ra, rb) < d else 1e-8
            s = np.asarray(_sqrtm(A))
            ctx.check(bool(np.isfinite(s).all()) and dif(s @ s, a) < 1e-7 and dif(s, s.conj().T) < 1e-6
                      and np.linalg.eigvalsh((s + s.conj().T) / 2).min() > -1e-6, "square-root", rank=ra, d=d, got=s, a=a)
            ctx.count("square_roots")
            f = float(fidelity_AD(_sqrtm(A), B))
            f2 = float(fidelity_AD(_sqrtm(B), A))
            ctx.check(abs(f - want) < tol * 10 and abs(f2 - want) < tol * 10, "fidelity", got=[f, f2], want=want, d=d, ranks=[ra, rb])
            h = float(fidelity_not_diff_due_to_sqrtm(A, B))
            # the square root of a singular product loses half of the digits
            ctx.check(abs(h - np.sqrt(want)) < (1e-8 if tol == 1e-8 else 1e-5) * 10, "root-fidelity", got=h, want=np.sqrt(want), d=d, ranks=[ra, rb])
            ctx.check(-1e-9 <= f <= 1 + 1e-6 * 10, "fidelity-range", got=f)
            x = r.standard_normal((d, d)) + 1j * r.standard_normal((d, d))
            ov = float(fidelity_funct(jnp.array(x), B))
            ctx.check(abs(ov - abs(np.sum(x.conj() * b))) < 1e-9 * d, "overlap", got=ov)
            ctx.count("fidelities")
            v = r.standard_normal(d) + 1j * r.standard_normal(d)
            dm = np.asarray(state_to_dm(jnp.array(v)))
            ctx.check(dif(dm, np.array([[p * np.conj(q) for q in v] for p in v])) < 1e-10, "density-matrix", got=dm)
            ctx.cover("states/d%d/r%d%d" % (d, ra, rb))
            if case["f32"]:
                s32 = np.asarray(_sqrtm(jnp.array(a, dtype=jnp.complex64)))
                ctx.check(bool(np.isfinite(s32).all()) and dif(s32 @ s32, a) < 3e-4, "square-root-single", rank=ra, d=d, got=s32)
                ctx.count("single_precision")
        m = int(r.integers(2, 9))
        op = np.diag(np.sqrt(np.arange(1, m)), 1) + 0j
        al = complex(r.normal(), r.normal()) * 0.7
        got = np.asarray(_displace(jnp.array(op), al))
        g = al * op.conj().T - np.conj(al) * op
        w, vv = np.linalg.eigh(1j * g)
        want = vv @ np.diag(np.exp(-1j * w)) @ vv.conj().T
        ctx.check(dif(got, want) < 1e-8 and dif(got @ got.conj().T, np.eye(m)) < 1e-8, "displacement", alpha=al, m=m)
        ctx.count("displacements")
        if d >= 2 and case["seed"] % 2 == 0:
            mix = np.eye(d) / d
            a, b0, h = (psd(np, r, d, d) + mix) / 2, (psd(np, r, d, d) + mix) / 2, r.standard_normal((d, d))
            h = (h + h.T) / 2
            S = _sqrtm(jnp.array(a))
            B0, Hh = jnp.array(b0), jnp.array(h)
            fn = lambda t: fidelity_AD(S, B0 + t * Hh)
            g = float(jax.grad(fn)(0.0))
            e = 1e-6
            num = (uhlmann(np, a, b0 + e * h) - uhlmann(np, a, b0 - e * h)) / (2 * e)
            ctx.check(abs(g - num) < 1e-4 * max(1, abs(num)), "fidelity-gradient", got=g, want=num, d=d)
            ctx.count("fidelity_gradients")
    elif kind == "algebra":
        from quocslib.tools.linearalgebra import commutator, gram_schmidt, to_sup_op, to_vec
        for j in range(4):
            d = int(r.integers(1, 6))
            x = r.standard_normal((d, d)) + 1j * r.standard_normal((d, d))
            y = r.standard_normal((d, d)) + 1j * r.standard_normal((d, d))
            ctx.check(dif(commutator(x, y), x @ y - y @ x) < 1e-10 and dif(commutator(x, x), np.zeros((d, d))) < 1e-10, "commutator")
            H = x if r.random() < 0.3 else (x + x.conj().T) / 2
            H = np.real(H) if r.random() < 0.2 else H
            keep = H.copy()
            L = np.asarray(to_sup_op(H))
            com = H @ y - y @ H
            ctx.check(L.shape == (d * d, d * d) and dif(L @ y.flatten(order="F"), com.flatten(order="F")) < 1e-9
                      and np.array_equal(H, keep), "liouvillian", d=d, H=H)
            ctx.count("liouvillians")
            ctx.check(np.array_equal(np.ravel(to_vec(y)), [y[i, k] for i in range(d) for k in range(d)]), "vectorization")
            n = int(r.integers(1, 12))
            A = r.standard_normal((n, n)) + (2.0 * np.eye(n) if r.random() < 0.5 else 0)
            if r.random() < 0.3:
                A = A * 10.0 ** r.integers(-3, 4, size=n)
            if np.linalg.cond(A / np.linalg.norm(A, axis=0)) < 1e4:
                Q = gram_schmidt(A.copy())
                R = Q.T @ A
                ok = dif(Q.T @ Q, np.eye(n)) < 1e-6 and dif(np.tril(R, -1), np.zeros((n, n))) < 1e-6 * np.abs(A).max() and bool((np.diag(R) > 0).all())
                ctx.check(ok, "gram-schmidt", n=n, A=A, Q=Q)
                ctx.count("gram_schmidt")
            ctx.cover("algebra/%d/%d" % (d, n))
    else:
        from quocslib.tools.pulsetools import resample_pulse
        for j in range(4):
            n, k = int(r.integers(2, 30)), int(r.integers(1, 4))
            dt = float(10 ** r.uniform(-3, 2))
            p = r.standard_normal((n, k))
            keep = p.copy()
            t = r.uniform(-0.5, n + 0.5, size=int(r.integers(0, 40))) * dt
            t = t[np.abs((t / dt) % 1 - 0.5) > 1e-6]
            if r.random() < 0.3:
                t = np.sort(t)
            got = resample_pulse(dt, p, t if r.random() < 0.7 else list(t))
            idx = np.clip(np.round(t / dt).astype(int), 0, n - 1)
            ctx.check(np.shape(got) == (len(t), k) and np.array_equal(got, p[idx, :]) and np.array_equal(p, keep), "resample", dt=dt, n=n, k=k, t=t[:10])
            same = resample_pulse(dt, p, np.arange(n) * dt)
            ctx.check(np.array_equal(same, p), "resample-identity", dt=dt, n=n)
            ctx.count("resamples")
            if j == 0:
                import matplotlib
                matplotlib.use("Agg")
                from matplotlib import pyplot as plt
                from quocslib.tools.pulsetools import visualise_pulse
                fig = visualise_pulse(dt, p)
                ax = fig.axes[0]
                ok = len(ax.containers) == k
                for i, bars in enumerate(ax.containers[:k]):
                    h = np.array([b.get_height() for b in bars])
                    x = np.array([b.get_x() + b.get_width() / 2 for b in bars])
                    ok = ok and np.allclose(h, p[:, i]) and np.allclose(x, dt * np.arange(n)) and bars.get_label() == str(i)
                ctx.check(bool(ok) and np.array_equal(p, keep), "pulse-plot", dt=dt, n=n, k=k)
                ctx.count("plots")
                plt.close("all")
            ctx.cover("pulse/%d/%d" % (n, k))
    if ctx.sample is None:
        ctx.sample = dict(case)

"""Spy on scipy's minimize: records every (x, value, gradient) the gradient algorithms hand to it."""
import numpy as np

WALK = [None]  # (step length relative to the size of the start, steps): a short walk downhill instead of the real optimizer
CALLS = []     # one list per minimize call: ("f", x, f) / ("g", x, g) / ("fg", x, f, g)


def install():
    """Before quocslib is imported."""
    import scipy.optimize as so
    real = so.minimize

    def spy(fun, x0, args=(), *pos, **kw):
        rec = []
        CALLS.append(rec)
        jac = kw.get("jac", pos[1] if len(pos) > 1 else None)

        def f(x, *a):
            xc = np.array(x, dtype=float)
            v = fun(x, *a)
            if jac is True:
                rec.append(("fg", xc, float(v[0]), np.array(v[1], dtype=float)))
            else:
                rec.append(("f", xc, float(v)))
            return v

        if callable(jac):
            def g(x, *a):
                xc = np.array(x, dtype=float)
                v = jac(x, *a)
                rec.append(("g", xc, np.array(v, dtype=float)))
                return v
            if "jac" in kw:
                kw = dict(kw, jac=g)
            else:
                pos = list(pos)
                pos[1] = g
        if WALK[0] is not None:
            return walk(f, kw.get("jac", pos[1] if len(pos) > 1 else None), x0, args)
        return real(f, x0, args, *pos, **kw)
    so.minimize = spy


def walk(f, g, x0, args):
    """Steepest descent with small steps of fixed length: another optimizer the gradient has to serve."""
    from scipy.optimize import OptimizeResult
    x = np.array(x0, dtype=float)
    h = WALK[0][0] * np.linalg.norm(x)
    for k in range(WALK[0][1]):
        v = f(x, *args)
        v, d = (v[0], v[1]) if g is True else (v, g(x, *args))
        d = np.array(d, dtype=float)
        best = OptimizeResult(x=x.copy(), fun=float(v), jac=d, success=True, status=0, message="walked", nit=k + 1, nfev=k + 1, njev=k + 1)
        x = x - h * d / max(np.linalg.norm(d), 1e-300)
    return best


def gradients(calls):
    """(x, f or None, g) in order."""
    out = []
    for rec in calls:
        last = {}
        for c in rec:
            if c[0] == "fg":
                out.append((c[1], c[2], c[3]))
            elif c[0] == "f":
                last[c[1].tobytes()] = c[2]
            else:
                out.append((c[1], last.get(c[1].tobytes()), c[2]))
    return out

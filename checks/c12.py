"""C12: Nelder-Mead evaluates exactly the points of the textbook algorithm, from the initial simplex to its end."""
import random
from vf import dsm, gen

LEVEL = "exploration"
RULE = ("random optimizations (parameters, piecewise, Fourier, Sinc, Sigmoid pulses; standard and adaptive coefficients; "
        "several super-iterations) with smooth, rugged, random, monotone and quantized figures of merit, and figures of merit which answer with values exactly on the thresholds of the algorithm, run in lock-step with "
        "an independent Nelder-Mead (also the search by itself, from a point or a simplex): every evaluated point must be the proposed one; non-trivial: point after the initial "
        "simplex; distinct by kind of step, dimension, coefficients and kind of figure of merit")
ASSUMPTIONS = ["limits inactive", "judging stops when equal values make the order of the vertices ambiguous"]
QUICK_BUDGET = 20
THOROUGH_BUDGET = 300
REQUIRED = {"points": 4000, "expand": 200, "contract_in": 200, "contract_out": 50, "shrink": 100, "from_point": 20}


def cases(tier, rnd):
    n = 1280 if tier == "quick" else 9000
    for i in range(n):
        r = random.Random(rnd.random())
        if i % 16 == 5:
            yield {"alone": {"dim": r.randint(1, 7), "adaptive": r.random() < 0.5, "max_eval": r.randint(15, 60), "start": r.random() < 0.4,
                             "scale": r.choice([1.0, 1e-3, 100.0]), "seed": r.randrange(10**9), "args": r.random() < 0.3}}
            continue
        cfg = dsm.config(r, "NelderMead", spaces="linear", adaptive=r.random() < 0.5, quant=i % 5 == 0,
                         max_eval=r.randint(20, 90))
        if i % 10 == 7:         # many dimensions
            n_ = r.randint(10, 30)
            cfg = dsm.config(r, "NelderMead", alg="DirectSearch", dims=n_, adaptive=r.random() < 0.5, max_eval=n_ + r.randint(20, 60), max_dim=30)
        if i % 20 == 11:        # many iterations
            cfg = dsm.config(r, "NelderMead", alg="DirectSearch", dims=r.randint(2, 6), adaptive=r.random() < 0.5, max_eval=r.randint(250, 700))
            cfg["fom"].update(noise=r.choice([0.3, 1e-3]))
        sc = cfg["opt"]["algorithm_settings"]["dsm_settings"]["stopping_criteria"]
        sc["xatol"], sc["fatol"] = 1e-14, 1e-100
        yield {"cfg": cfg, "edge": r.randrange(10**9) if i % 5 == 3 else None}


class Edge:
    """Figure of merit which answers with values on (and around) every threshold of the algorithm."""

    def __init__(self, case, tr):
        self.r, self.tr, self.cfg, self.si = random.Random(case["edge"]), tr, case["cfg"], None
        self.adaptive = bool(self.cfg["opt"]["algorithm_settings"]["dsm_settings"]["general_settings"].get("is_adaptive"))

    def __call__(self, pulses, timegrids, parameters):
        from vf import refs
        r, d = self.r, self.cfg["dim"]
        x = dsm.vec({"pulses": pulses, "parameters": parameters})
        si = getattr(self.tr.alg, "super_it", 1)
        if si != self.si:
            self.si, self.pts, self.ref = si, [], None
        if self.ref is None:
            v = r.uniform(-1, 1)
            self.pts.append((x, v))
            if len(self.pts) == d + 1:
                self.ref = refs.NelderMeadRef([p for p, _ in self.pts], self.adaptive)
                for p, q in self.pts:
                    self.ref.tell(p, q)
            return {"FoM": self.tr.sign * v}
        ref, fs = self.ref, self.ref.fs
        best, second, worst, s = fs[0], fs[-2], fs[-1], 0.05 + abs(fs[-1] - fs[0])
        mid = best + r.random() * (second - best)
        if ref.kind == "reflect":
            v = r.choice([best - r.random() * s, best, mid, second, second + r.random() * (worst - second),
                          second + r.random() * (worst - second), worst, worst + r.random() * s])
        elif ref.kind == "expand":
            v = r.choice([self.fr, self.fr - r.random() * s, self.fr + r.random() * s, best])
        elif ref.kind == "contract_out":
            v = r.choice([self.fr, self.fr, mid, best - r.random() * s, worst, worst + s])
        elif ref.kind == "contract_in":
            v = r.choice([worst, second + r.random() * (worst - second), best - r.random() * s, worst + s])
        else:
            v = r.uniform(best - 0.2 * s, worst + s)
        if ref.kind == "reflect":
            self.fr = v
        ref.tell(x, v)
        return {"FoM": self.tr.sign * v}


def alone(case, ctx):
    """The search by itself, started from a point only, or from a simplex."""
    import numpy as np
    from vf import refs
    from quocslib.gradientfreemethods.NelderMead import NelderMead
    k = case["alone"]
    d, r = k["dim"], np.random.default_rng(k["seed"])
    x0 = k["scale"] * r.standard_normal(d) * (r.random(d) < 0.8)
    center, w = k["scale"] * r.standard_normal(d), r.uniform(0.2, 3, d)
    start = x0 + k["scale"] * r.standard_normal((d + 1, d)) if k["start"] else None
    pts, extra = [], ((0.25,) if k["args"] else ())

    def f(x, iteration, *more):
        v = float(np.sum(w * (np.asarray(x) - center) ** 2)) + (more[0] if more else 0.0)
        pts.append((np.array(x, dtype=float), v))
        return v

    keep = x0.copy()
    s = NelderMead({"is_adaptive": k["adaptive"]}, {"max_eval": k["max_eval"], "xatol": 1e-14, "fatol": 1e-100})
    res = s.run_dsm(f, x0, args=extra, initial_simplex=None if start is None else start.copy())
    if not ctx.check(len(pts) > d + 1 and bool(np.array_equal(x0, keep)), "alone-start", points=len(pts)):
        return
    first = np.array([p for p, _ in pts[:d + 1]])
    if start is None:
        ctx.count("from_point")
        ctx.check(any(np.array_equal(p, x0) for p in first), "start-point-not-evaluated", x0=x0, points=first[:3])
        off = sorted(tuple(np.flatnonzero(p != x0)) for p in first)
        ctx.check(off == sorted([()] + [(i,) for i in range(d)]), "start-simplex", x0=x0, points=first[:3])
    else:
        ctx.check(bool(np.array_equal(first, start)), "start-simplex", want=start[:3], points=first[:3])
    ref = refs.NelderMeadRef(first, k["adaptive"])
    scale = 1e-3 * k["scale"]
    for j, (x, v) in enumerate(pts):
        scale = max(scale, float(np.max(np.abs(x))))
        if j > d:
            if ref.ambiguous:
                break
            ctx.count("points")
            ctx.count(ref.kind)
            if not ctx.check(float(np.max(np.abs(x - ref.next))) <= 1e-7 * scale, "wrong-point", step=ref.kind, evaluation=j, got=x, want=ref.next):
                break
        ref.tell(x, v)
    best = min(v for _, v in pts)
    ctx.check(res["F_min_val"] == best and any(v == best and np.array_equal(x, res["X_opti_vec"]) for x, v in pts), "alone-result",
              got=res["F_min_val"], want=best)
    ctx.cover("alone/d%d/%s/%s" % (d, k["adaptive"], k["start"]))


def run(case, ctx):
    import numpy as np
    from vf import rec, refs
    if "alone" in case:
        return alone(case, ctx)
    cfg = case["cfg"]
    sec = dsm.Sections()
    if case["edge"] is not None:
        tr = rec.Trace(cfg)
        tr = rec.run(cfg, trace=tr, fom=rec.make_fom(tr, Edge(case, tr), sec))
    else:
        tr = rec.run(cfg, hook=sec)
    if not ctx.check(tr.error is None, "run-failed", error=tr.error):
        return
    a = cfg["opt"]["algorithm_settings"]
    adaptive = bool(a["dsm_settings"]["general_settings"].get("is_adaptive"))
    dim = cfg["dim"]
    for s, evs in enumerate(sec.split(tr.evals)):
        X = [dsm.vec(e) for e in evs]
        F = [tr.sign * e["fom"] for e in evs]
        if len(X) < dim + 2:
            continue
        ref = refs.NelderMeadRef(X[:dim + 1], adaptive)
        scale = 1.0
        for j, (x, f) in enumerate(zip(X, F)):
            scale = max(scale, float(np.max(np.abs(x))))
            if j > dim:
                if ref.ambiguous:
                    ctx.count("ambiguous_ties")
                    break
                kind = ref.kind
                ctx.count("points")
                ctx.count(kind)
                dev = float(np.max(np.abs(x - ref.next)))
                if not ctx.check(dev <= 1e-7 * scale, "wrong-point", step=kind, si=s + 1, evaluation=j, deviation=dev,
                                 got=x[:6], want=ref.next[:6], adaptive=adaptive, values=F[:j][-dim - 3:]):
                    break
                ctx.cover("%s/d%d/%s/%s" % (kind, dim, adaptive, "edge" if case["edge"] is not None else cfg["fom"]["kind"]))
            ref.tell(x, f)
    if ctx.sample is None:
        ctx.sample = {"settings": gen.describe(cfg), "dim": dim, "adaptive": adaptive, "evaluations": len(tr.evals)}

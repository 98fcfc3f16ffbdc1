"""C08: super-iterations build on each other: each starts from the best controls, and the reported lists rebuild them."""
import random
from vf import gen

LEVEL = "exploration"
RULE = ("random dCRAB runs with 2-5 super-iterations, all bases, several pulses and parameters, ended regularly or by a stop; "
        "checked per run: first evaluation of each super-iteration equals the best controls so far, and the controls rebuilt "
        "by an independent implementation from the frequencies and coefficients in the result file equal the getter and the "
        "starting point of every super-iteration; non-trivial: the start of a super-iteration differs from the initial guess; "
        "distinct by settings class and super-iteration")
ASSUMPTIONS = ["noise-free figure of merit without ties", "default shaping, no overwrite_base_pulse for continuity"]
QUICK_BUDGET = 22
THOROUGH_BUDGET = 300
REQUIRED = {"starts_checked": 150, "moved_starts": 100, "rebuilt": 80}


def cases(tier, rnd):
    n = 1040 if tier == "quick" else 8000
    for i in range(n):
        r = random.Random(rnd.random())
        basis = (gen.CHOPPED + ["PiecewiseBasis"])[i % 9]
        over = r.random() < 0.17
        cfg = gen.config(r, alg="dCRAB", bases=[basis] if r.random() < 0.5 else None, si=r.randint(2, 5), max_eval_total=None,
                         quant=False, overwrite=over, drift=i % 7 == 3)
        cfg["fom"].pop("ret", None)
        a = cfg["opt"]["algorithm_settings"]
        if i % 20 == 9:
            a["super_iteration_number"] = r.randint(8, 20)
        if r.random() < 0.3:
            a["max_eval_total"] = r.randint(cfg["dim"] + 3, 120)
        if i % 8 == 6:
            cfg = gen.in_units(r, cfg)
        yield {"cfg": cfg, "over": over}


def run(case, ctx):
    import numpy as np
    from vf import rec, refs
    cfg = case["cfg"]
    o, unit = cfg["opt"], cfg.get("unit", 1.0)
    starts = {}

    def hook(t, kind, e):
        if kind == "call":
            s = getattr(t.alg, "super_it", None)
            if s not in starts:
                starts[s] = len(t.evals) - 1

    tr = rec.run(cfg, hook=hook)
    if not ctx.check(tr.error is None, "run-failed", error=tr.error):
        return
    res = tr.final()
    sg = tr.sign
    over = any(p.get("overwrite_base_pulse") for p in o["pulses"])
    paras, freqs = res["dcrab_para_list"], res["dcrab_freq_list"]
    ctx.check(len(paras) == len(freqs), "list-lengths", paras=len(paras), freqs=len(freqs))
    ref = refs.RefControls(cfg)
    best_i, best_v = None, np.inf
    pars0 = [q["initial_value"] for q in o["parameters"]]
    order = sorted(k for k in starts if k is not None)
    for s in order:
        i0 = starts[s]
        if s >= 2:
            e = tr.evals[i0]
            prev = [j for j in range(i0) if tr.evals[j]["fom"] is not None]
            b = min(prev, key=lambda j: (sg * tr.evals[j]["fom"], j))
            if not over:
                ctx.check(rec.same_controls(e, tr.evals[b], 1e-8, unit), "start-not-best", si=s, start=i0, best=b,
                          got=[p[:4] for p in e["pulses"]], want=[p[:4] for p in tr.evals[b]["pulses"]],
                          pars=[e["parameters"], tr.evals[b]["parameters"]])
            ctx.count("starts_checked")
            if not rec.same_controls(e, tr.evals[0], 1e-6, unit):
                ctx.count("moved_starts")
                ctx.cover("%s/si%d" % (gen.describe(cfg), s))
            # rebuilt from the lists: s-1 commits
            if len(paras) >= s - 1:
                rf = refs.RefControls(cfg)
                for x, w in zip(paras[:s - 1], freqs[:s - 1]):
                    rf.commit(x, w)
                q = list(np.asarray(paras[s - 2], dtype=float)[rf.dim - len(rf.params):])
                x = np.concatenate([np.zeros(rf.dim - len(rf.params)), q])
                w = freqs[min(s - 1, len(freqs) - 1)]
                want = rf.build(x, w)
                ctx.check(rec.same_controls(e, want, 1e-8, unit), "start-not-rebuildable", si=s,
                          got=[p[:4] for p in e["pulses"]], want=[np.asarray(p)[:4] for p in want["pulses"]])
    for x, w in zip(paras, freqs):
        ctx.check(len(x) == ref.dim, "vector-length", got=len(x), want=ref.dim)
        ref.commit(x, w)
    q = list(np.asarray(paras[-1], dtype=float)[ref.dim - len(ref.params):]) if paras else pars0
    x = np.concatenate([np.zeros(ref.dim - len(ref.params)), q])
    want = ref.build(x, freqs[-1])
    g = tr.best_controls()
    ctx.check(rec.same_controls(g, want, 1e-8, unit), "getter-not-rebuildable", got=[np.asarray(p)[:4] for p in g["pulses"]],
              want=[np.asarray(p)[:4] for p in want["pulses"]])
    ctx.count("rebuilt")
    ctx.count("evaluations", len(tr.evals))
    if ctx.sample is None:
        ctx.sample = {"settings": gen.describe(cfg), "super_iterations": order, "evaluations": len(tr.evals)}

"""C01: the reported optimum is the best figure of merit the user's object ever returned."""
import random
from vf import gen

LEVEL = "exploration"
RULE = ("random optimizations (dCRAB/DirectSearch with Nelder-Mead/CMA-ES, GRAPE, AD) with smooth, rugged, tied, noisy "
        "and hostile (NaN, inf, error status) figures of merit; non-trivial: at least 2 evaluations delivered a value; "
        "distinct by settings class, hostile class and stop class")
ASSUMPTIONS = ["no drift compensation or re-evaluation (other properties)", "finite figures of merit below 1e10"]
QUICK_BUDGET = 22
THOROUGH_BUDGET = 400
REQUIRED = {"runs_judged": 30, "evaluations": 500}


def cases(tier, rnd):
    n = 1260 if tier == "quick" else 9000
    for i in range(n):
        r = random.Random(rnd.random())
        k = i % 20
        if k in (3, 13):
            from vf import gr
            direction = r.choice(["minimization", "maximization"])
            c = {"kind": "grape", "cfg": gr.grape_cfg(r, direction, total=r.choice([None, None, r.randint(1, 12)]))}
            if r.random() < 0.3:
                c["spec"] = {"kind": "rugged", "seed": r.randrange(10**6), "flip": direction == "maximization",
                             "special": {str(r.randrange(8)): r.choice(["nan", "inf", "-inf", 5.0])}}
            yield c
            continue
        if i in (7, 27) or (tier == "thorough" and k == 7 and i % 3 == 0):
            from vf import gr
            yield {"kind": "ad", "cfg": gr.ad_cfg(r, r.choice(["minimization", "maximization"]), si=r.choice([1, 2]),
                                                  maxfun=r.randint(2, 6), npulses=r.choice([1, 2]),
                                                  nparams=r.choice([0, 1]))}
            continue
        cfg = gen.config(r, noise=True, shaping=True, overwrite=True)
        if r.random() < 0.07:
            cfg = gen.in_units(r, cfg)
        if i % 180 == 77:
            cfg = gen.longer(r, cfg)
        f = cfg["fom"]
        mode = r.choice(["plain", "plain", "nan", "inf", "status", "const", "mixed", "goal"])
        if mode in ("nan", "inf", "mixed"):
            f["special"] = {}
            for _ in range(r.randint(1, 5)):
                v = {"nan": "nan", "inf": r.choice(["inf", "-inf"])}.get(mode, r.choice(["nan", "inf", -7.5, 9.25]))
                f["special"][str(r.choice([0, 1, 2, r.randrange(40)]))] = v
            if mode != "plain" and f.get("ret") in ("int", "count", "count16"):
                f.pop("ret")
        if mode == "status":
            f["status"] = {str(r.randrange(30)): r.choice([[-1], [2, -1e6], [1, None], [5, 1e6], [-3, float(0)]])}
        if mode == "const":
            cfg["fom"] = f = {"kind": "const", "value": r.choice([1.0, 0.0, -2.5]), "seed": 1}
        if mode == "goal":
            cfg["opt"]["algorithm_settings"]["FoM_goal"] = round(r.uniform(-1, 1.5), 3)
        cfg["default_handle"] = i % 5 == 3
        yield {"kind": "run", "mode": mode, "cfg": cfg}


def run(case, ctx):
    from vf import rec, gr
    cfg = case["cfg"]
    if case["kind"] == "grape":
        tr = gr.grape_run(cfg, spec=case.get("spec"))
    elif case["kind"] == "ad":
        tr = gr.ad_run(cfg)
    else:
        seen = []

        def hook(t, kind, p):
            # the value reported so far must never be worse or better than what was measured
            if kind == "plot":
                best = t.best_value()
                cur = getattr(t.alg, "best_FoM", None)
                if best is not None and cur is not None and abs(best) < 1e10:
                    ctx.count("prefix_checks")
                    if not ctx.check(same(t.sign * float(cur), best), "running-best", after=len(t.evals),
                                     reported=t.sign * float(cur), best=best):
                        seen.append(1)
        tr = rec.run(cfg, hook=hook)
    ctx.count("evaluations", len(tr.evals))
    if tr.error:
        # a non finite value may break the linear algebra of CMA-ES or of L-BFGS-B; not this property
        if any(isinstance(v, str) for v in (cfg["fom"].get("special") or case.get("spec", {}).get("special", {})).values()):
            ctx.count("hostile_errors")
            return
        ctx.viol("run-failed", error=tr.error)
        return
    res = tr.final()
    if not ctx.check(res is not None and "Figure of merit" in res, "no-result", files=str(tr.folder)):
        return
    best = tr.best_value()
    rep = res["Figure of merit"]
    if best is None or abs(best) >= 1e10 and abs(best) != float("inf"):
        ctx.count("nothing_measured")
        return
    if best == float("inf") * tr.sign:        # only useless values: the placeholder stays
        return
    ctx.check(same(rep, best), "reported-optimum", reported=rep, best=best, evals=len(tr.evals),
              foms=[e["fom"] for e in tr.evals][:40])
    if len(tr.valid()) >= 2:
        ctx.count("runs_judged")
        ctx.cover("%s/%s/%s" % (case["kind"], gen.describe(cfg), case.get("mode", "")))
    if ctx.sample is None:
        ctx.sample = {"settings": gen.describe(cfg), "reported": rep, "best_observed": best, "evaluations": len(tr.evals)}


def same(a, b):
    return a == b or abs(a - b) <= 1e-9 * max(1.0, abs(b))

"""C02: get_best_controls() are the controls the best figure of merit was measured with."""
import random
from vf import gen

LEVEL = "exploration"
RULE = ("random dCRAB (1-4 super-iterations, all bases), DirectSearch, GRAPE and AD runs ended by every kind of stop; "
        "the controls of the getter are matched against the recorded evaluation(s) attaining the best value, and guess, scaling and "
        "limits applied to the bare variant must give them again; non-trivial: "
        "the best evaluation is neither the first nor the last one; distinct by settings class and stop class")
ASSUMPTIONS = ["no drift compensation, re-evaluation, noise or overwrite_base_pulse; shaping includes the base pulse",
               "controls compared to 1e-8 relative (the best pulse is re-assembled from its parts)"]
QUICK_BUDGET = 25
THOROUGH_BUDGET = 400
REQUIRED = {"runs_judged": 30, "best_in_middle": 20, "last_si_without_record": 3, "asked_in_between": 20, "bare_not_zero": 100}


def cases(tier, rnd):
    n = 1080 if tier == "quick" else 9000
    for i in range(n):
        r = random.Random(rnd.random())
        k = i % 18
        from vf import gr
        if k in (4,):
            d = r.choice(["minimization", "maximization"])
            c = {"kind": "grape", "stop": "-", "cfg": gr.grape_cfg(r, d, total=r.choice([None, None, r.randint(1, 12)]))}
            if r.random() < 0.4:
                c["spec"] = {"kind": "rugged", "seed": r.randrange(10**6), "flip": d == "maximization"}
            yield c
            continue
        if i in (7, 25) or (tier == "thorough" and k == 7 and i % 3 == 0):
            yield {"kind": "ad", "stop": "-", "cfg": gr.ad_cfg(
                r, r.choice(["minimization", "maximization"]), si=r.choice([1, 2]), maxfun=r.randint(2, 6),
                npulses=r.choice([1, 2]), nparams=r.choice([0, 1]), total=r.choice([None, 4]),
                bases=r.choice([("PiecewiseBasis",), ("PiecewiseBasis", "Fourier")]))}
            continue
        stop = r.choice(["none", "total", "goal", "he_call", "he_ctrl", "status", "prelast"])
        cfg = gen.config(r, max_eval_total=None, quant=False)
        if i % 9 == 8:
            cfg = gen.in_units(r, cfg)
        me = cfg["opt"]["algorithm_settings"]["dsm_settings"]["stopping_criteria"]["max_eval"]
        a = cfg["opt"]["algorithm_settings"]
        at = r.randrange(1, 3 * me)
        if stop == "total":
            a["max_eval_total"] = at
        elif stop == "goal":
            a["FoM_goal"] = round(r.uniform(-1, 1.2), 3)
        elif stop == "status":
            cfg["fom"]["status"] = {str(at): [-1, r.choice([None, -1e5, 1e5])]}
        elif stop == "prelast":
            # a FoM which only improves in the first super-iteration: later ones must not disturb the best controls
            cfg["fom"]["late_penalty"] = r.randint(3, me)
        ask = sorted(r.randrange(0, 2 * me) for _ in range(r.randint(1, 4))) if r.random() < 0.4 else []
        yield {"kind": "run", "stop": stop, "at": at, "cfg": cfg, "ask": ask}


def bare_getter(ctx, tr, cfg, best, tol):
    """Guess, scaling and limits applied to the bare best pulses give the best pulses."""
    import numpy as np
    from vf import refs
    bare = tr.alg.get_best_bare_controls()["bare_pulses"]
    rc = refs.RefControls(cfg)
    if not ctx.check(len(bare) == len(rc.pulses), "bare-number", got=len(bare), want=len(rc.pulses)):
        return
    for p, b, want in zip(rc.pulses, bare, best["pulses"]):
        b = np.real(np.asarray(b)).astype(float)
        if not ctx.check(b.shape == (p.n,), "bare-shape", got=list(b.shape), want=p.n):
            return
        p.base = b
        p.shaped = lambda x, w, n=p.n: np.zeros(n)
        u = p.build(None, None)
        want = np.asarray(want)[:p.n]
        bound = tol * max(1e-300, float(np.abs(u).max()), float(np.abs(b).max()), abs(p.lo), abs(p.hi))
        ctx.check(float(np.abs(u - want).max()) <= bound, "bare-controls", settings=gen.describe(cfg), got=b, rebuilt=u, want=want)
        ctx.count("bare_pulses")
        if float(np.abs(b).max()) > 0:
            ctx.count("bare_not_zero")
    again = tr.best_controls()["pulses"]
    ctx.check(all(np.array_equal(np.real(np.asarray(x)), y) for x, y in zip(again, best["pulses"])), "changed-by-bare-getter")


def run(case, ctx):
    import numpy as np
    from vf import rec, gr
    cfg, stop = case["cfg"], case["stop"]
    if case["kind"] == "grape":
        tr = gr.grape_run(cfg, spec=case.get("spec"))
        tol = 1e-8
    elif case["kind"] == "ad":
        tr = gr.ad_run(cfg)
        tol = 3e-4        # single precision
    else:
        tol = 1e-8

        def hook(t, kind, p):
            if kind == "call" and p["n"] in case["ask"]:
                t.alg.get_best_controls()       # a display asks for the best controls in between
                ctx.count("asked_in_between")
            if stop == "he_call" and kind == "call" and p["n"] == case["at"]:
                t.he.is_user_running = False
            if stop == "he_ctrl" and kind == "ctrl" and len(t.evals) == case["at"]:
                t.he.is_user_running = False
        fom = None
        tr = rec.Trace(cfg)
        if "late_penalty" in cfg["fom"]:
            base = rec.Fom(cfg["fom"])
            lim = cfg["fom"]["late_penalty"]

            def fn(a, b, c):
                v = base(a, b, c)
                if base.n > lim:
                    v["FoM"] = v["FoM"] + tr.sign * 50.0
                return v
            fom = rec.make_fom(tr, fn, hook)
        rec.run(cfg, hook=hook, trace=tr, fom=fom)
    ctx.count("evaluations", len(tr.evals))
    if tr.error:
        ctx.viol("run-failed", error=tr.error)
        return
    best = tr.best_value()
    if best is None:
        return
    got = tr.best_controls()
    got = {k: [np.real(np.asarray(x)) for x in got[k]] for k in ("pulses", "timegrids", "parameters")}
    if case["kind"] == "ad":
        got["parameters"] = [float(x) for x in got["parameters"]]
    cand = [e for e in tr.valid() if e["fom"] == best]
    def match(e):
        e = {k: [np.real(np.asarray(x)) for x in e[k]] for k in ("pulses", "timegrids", "parameters")}
        return rec.same_controls(got, e, tol, cfg.get("unit", 1.0))
    ok = any(match(e) for e in cand)
    ctx.check(ok, "best-controls", settings=gen.describe(cfg), best=best, n=[e["n"] for e in cand], got=got,
              want={k: cand[0][k] for k in ("pulses", "parameters")}, evals=len(tr.evals),
              same_as=[e["n"] for e in tr.evals if match(e)][:5])
    bare_getter(ctx, tr, cfg, got, tol)
    if case["kind"] == "run" and cfg["opt"]["algorithm_settings"]["algorithm_name"] == "DirectSearch":
        fin = tr.final()
        xs = fin.get("parameters")
        lim = [(q["lower_limit"], q["upper_limit"]) for q in cfg["opt"]["parameters"]]
        if xs is not None:
            clip = [min(max(x, a), b) for x, (a, b) in zip(xs, lim)]
            ctx.check(len(xs) == len(lim) and any(rec.close(clip, e["parameters"]) for e in cand), "final-parameters", got=xs,
                      want=cand[0]["parameters"])
    ctx.count("runs_judged")
    if 0 < cand[0]["n"] < len(tr.evals) - 1:
        ctx.count("best_in_middle")
        ctx.cover("%s/%s/%s" % (case["kind"], gen.describe(cfg), stop))
    if stop == "prelast" and tr.final().get("dcrab_para_list") and len(tr.final()["dcrab_para_list"]) > 1:
        ctx.count("last_si_without_record")
    if ctx.sample is None:
        ctx.sample = {"settings": gen.describe(cfg), "stop": stop, "best_at": cand[0]["n"], "evaluations": len(tr.evals)}

"""C11: maximizing f is exactly minimizing -f."""
import random
from vf import gen

LEVEL = "exploration"
RULE = ("each random optimization (all algorithms, drift compensation, re-evaluation, change-based stop, goals, hostile "
        "values) is run as a minimization of f and as a maximization of -f with the same seed; evaluated controls, number "
        "of evaluations, stop reasons, saved controls and best controls must be identical and every reported figure of "
        "merit negated; non-trivial: at least 2 records in the run; distinct by settings class and extra feature")
ASSUMPTIONS = []
QUICK_BUDGET = 22
THOROUGH_BUDGET = 300
REQUIRED = {"pairs": 100, "with_records": 80}


def cases(tier, rnd):
    n = 520 if tier == "quick" else 7000
    for i in range(n):
        r = random.Random(rnd.random())
        k = i % 20
        from vf import gr
        if k == 5:
            cfg = gr.grape_cfg(r, None, total=r.choice([None, r.randint(1, 15)]))
            yield {"kind": "grape", "cfg": cfg, "extra": "-"}
            continue
        if i in (6, 26) or (tier == "thorough" and k == 6 and i % 3 == 0):
            yield {"kind": "ad", "cfg": gr.ad_cfg(r, None, si=r.choice([1, 2]), maxfun=5, nparams=1), "extra": "-"}
            continue
        extra = ["plain", "drift", "reeval", "cbs", "goal", "status", "periodic", "plain"][i % 8]
        cfg = gen.config(r, direction="minimization", shaping=True, overwrite=True, noise=True, drift=extra == "drift",
                         reeval=extra == "reeval")
        a, f = cfg["opt"]["algorithm_settings"], cfg["fom"]
        if extra == "goal" and f.get("ret") in ("int", "count", "count16"):
            f.pop("ret")
        elif i % 9 == 4:
            f["ret"] = r.choice(["count", "count16", "int"])
        if extra == "reeval":
            f["std"] = r.choice([0.05, "rand"])
            f.pop("ret", None)
        if extra == "cbs":
            a["dsm_settings"]["stopping_criteria"]["change_based_stop"] = {"cbs_funct_evals": r.randint(3, 8),
                                                                          "cbs_change": r.choice([0.05, 0.5, 2.0])}
        if extra == "goal":
            a["FoM_goal"] = r.choice([round(r.uniform(-1, 1.5), 3), r.randint(-1, 2)])
        if extra == "status":
            f["status"] = {str(r.randrange(20)): [-1, r.choice([None, 0.5])]}
        if extra == "periodic":
            a["compensate_drift"] = {"compensate_after_minutes": 1e-9, "num_average": r.choice([1, 2])}
        cfg["default_handle"] = r.random() < 0.3
        yield {"kind": "run", "cfg": cfg, "extra": extra}


def run(case, ctx):
    import copy
    import numpy as np
    from vf import rec, gr
    from checks.c10 import same_seq
    lo = copy.deepcopy(case["cfg"])
    hi = copy.deepcopy(case["cfg"])
    lo["opt"]["algorithm_settings"]["optimization_direction"] = "minimization"
    ha = hi["opt"]["algorithm_settings"]
    ha["optimization_direction"] = "maximization"
    if ha.get("FoM_goal") is not None:
        ha["FoM_goal"] = -ha["FoM_goal"]
    if case["kind"] == "run":
        hi["fom"]["flip"] = True
        for v in hi["fom"].get("status", {}).values():
            if len(v) > 1 and v[1] is not None:
                v[1] = -v[1]
        a, b = rec.run(lo), rec.run(hi)
    elif case["kind"] == "grape":
        a, b = gr.grape_run(lo), gr.grape_run(hi)
    else:
        a, b = gr.ad_run(lo), gr.ad_run(hi)
    if a.error or b.error:
        # both must fail alike
        ctx.check(a.error_type == b.error_type, "run-failed", a=a.error, b=b.error)
        return
    ctx.count("pairs")
    ctx.count("evaluations", len(a.evals) + len(b.evals))
    va = [dict(e, fom=None if e["fom"] is None else 0.0) for e in a.evals]
    vb = [dict(e, fom=None if e["fom"] is None else 0.0) for e in b.evals]
    if not ctx.check(same_seq(va, vb) is None, "sequences-differ", what=same_seq(va, vb), extra=case["extra"]):
        return
    ra, rb = a.final(), b.final()
    for k in ra:
        if k == "Figure of merit":
            ctx.check(ra[k] == -rb[k] or ra[k] != ra[k], "result-fom", a=ra[k], b=rb[k])
        else:
            ctx.check(k in rb and repr(ra[k]) == repr(rb[k]), "result-" + k.replace(" ", "-")[:20], a=ra[k], b=rb.get(k))
    ctx.check(a.log_reason() == b.log_reason(), "reason", a=a.log_reason(), b=b.log_reason())
    sa, sb = a.saved(), b.saved()
    if not ctx.check((sa is None) == (sb is None), "saved-one-only"):
        return
    if sa is not None:
        for k in sa:
            if k == "FoM":
                ctx.check(float(np.real(sa[k])) == -float(np.real(sb[k])), "saved-fom", a=sa[k], b=sb[k])
            elif k in sb:
                ctx.check(sa[k].dtype.kind in "USO" or np.array_equal(sa[k], sb[k], equal_nan=True), "saved-" + k,
                          a=sa[k], b=sb[k])
            else:
                ctx.viol("saved-key-missing", key=k)
    ctx.check(rec.same_controls(a.best_controls(), b.best_controls(), 0.0), "best-controls")
    ctx.check(rec.close([-x for x in a.alg.FoM_list], b.alg.FoM_list, 1e-12), "fom-history", a=a.alg.FoM_list[:5],
              b=b.alg.FoM_list[:5])
    # records in the minimization
    best, nrec = np.inf, 0
    for e in a.valid():
        if e["fom"] < best:
            best, nrec = e["fom"], nrec + 1
    if nrec >= 2:
        ctx.count("with_records")
        ctx.cover("%s/%s" % (gen.describe(lo), case["extra"]))
    if ctx.sample is None:
        ctx.sample = {"settings": gen.describe(lo), "extra": case["extra"], "evaluations": len(a.evals), "records": nrec}

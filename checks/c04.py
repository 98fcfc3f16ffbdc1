"""C04: the evaluation budget is a hard limit and evaluations are counted exactly."""
import random
from vf import gen

LEVEL = "exploration"
RULE = ("random optimizations of all algorithms with a global budget from 1 evaluation up, hit in the initial simplex, in "
        "every Nelder-Mead step, between super-iterations, in drift compensation and in re-evaluations, with the stop "
        "honoured by the algorithm alone; non-trivial: the budget was really exhausted; distinct by settings class and "
        "by where the budget ended")
ASSUMPTIONS = []
QUICK_BUDGET = 22
THOROUGH_BUDGET = 300
REQUIRED = {"budget_exhausted": 40, "runs_judged": 100, "no_budget_runs": 10, "failed_measurements": 10}


def cases(tier, rnd):
    n = 900 if tier == "quick" else 8000
    for i in range(n):
        r = random.Random(rnd.random())
        k = i % 15
        from vf import gr
        if k == 5:
            yield {"kind": "grape", "cfg": gr.grape_cfg(r, r.choice(["minimization", "maximization"]), maxfun=40,
                                                        total=r.choice([None, 1, 2, 3, r.randint(1, 20)]))}
            continue
        if i in (6, 21) or (tier == "thorough" and k == 6 and i % 4 == 0):
            yield {"kind": "ad", "cfg": gr.ad_cfg(r, r.choice(["minimization", "maximization"]), si=2, maxfun=6,
                                                  nparams=r.choice([0, 1]), total=r.choice([1, 2, 5, 9]))}
            continue
        extra = r.choice(["plain", "plain", "drift", "reeval", "both"])
        cfg = gen.config(r, max_eval_total=None, shaping=True,
                         drift=(extra in ("drift", "both")), reeval=extra in ("reeval", "both"), noise=True)
        a = cfg["opt"]["algorithm_settings"]
        if extra in ("reeval", "both"):
            cfg["fom"]["std"] = r.choice([0.05, "rand"])
            if cfg["fom"].get("ret") in ("int", "count", "count16"):
                cfg["fom"].pop("ret")
        me = a["dsm_settings"]["stopping_criteria"]["max_eval"]
        si = a.get("super_iteration_number", 1)
        b = r.choice(["tiny", "simplex", "mid", "si", "none", "huge"])
        if b == "tiny":
            a["max_eval_total"] = r.randint(1, 3)
        elif b == "simplex":
            a["max_eval_total"] = r.randint(1, cfg["dim"] + 2)
        elif b == "mid":
            a["max_eval_total"] = r.randint(1, max(2, si * me))
        elif b == "si":
            a["max_eval_total"] = r.randint(max(1, me - 3), me + cfg["dim"] + 6)
        elif b == "huge":
            a["max_eval_total"] = 3000
        if r.random() < 0.2 and "max_eval_total" in a:
            a["max_eval_total"] = float(a["max_eval_total"])
        if r.random() < 0.12:       # a measurement which fails
            cfg["fom"]["status"] = {str(r.randrange(0, me + 5)): [r.choice([-1, 1, 7]), r.choice([None, 1e5])]}
        yield {"kind": "run", "extra": extra, "cfg": cfg, "b": b}


def run(case, ctx):
    from vf import rec, gr
    cfg = case["cfg"]
    a = cfg["opt"]["algorithm_settings"]
    run_it = {"grape": gr.grape_run, "ad": gr.ad_run, "run": rec.run}[case["kind"]]
    tr = run_it(cfg)
    if not ctx.check(tr.error is None, "run-failed", error=tr.error):
        return
    n = len(tr.evals)
    lim = a.get("max_eval_total")
    ctx.count("evaluations", n)
    ctx.count("runs_judged")
    res = tr.final()
    if not ctx.check(res is not None, "no-result"):
        return
    if lim is not None:
        ctx.check(n <= int(lim), "budget-exceeded", limit=lim, evaluations=n)
    for key in ("total number of function evaluations", "nfev"):
        if key in res:
            ctx.check(res[key] == n, "reported-count", key=key, reported=res[key], evaluations=n)
    plots = [p["n"] for k, p in tr.log if k == "plot"]
    failed = n - len(tr.valid())
    ctx.check(failed in (0, 1), "evaluation-after-failure", failed=failed)
    ctx.check(plots == list(range(1, n + 1 - failed)), "numbering", plots=plots[:50], evaluations=n, failed=failed)
    sv = tr.saved()
    if sv is not None and "iteration_number" in sv:
        ctx.check(1 <= int(sv["iteration_number"]) <= n, "saved-number", saved=int(sv["iteration_number"]), n=n)
    stopped = not tr.he._v
    reason = tr.log_reason() or ""
    if failed:
        ctx.count("failed_measurements")
        ctx.cover("failed/%s/n%d" % (gen.describe(cfg), min(n, 12)))
    elif stopped:
        # the only global stop of these workloads is the budget
        ctx.check(lim is not None and n == int(lim), "stopped-early", limit=lim, evaluations=n, reason=reason)
        ctx.check("aximum number of total" in reason, "wrong-reason", reason=reason)
        ctx.count("budget_exhausted")
        ctx.cover("%s/%s/%s/n%d" % (case["kind"], gen.describe(cfg), case.get("b"), min(n, 12)))
    else:
        ctx.check("aximum number of total" not in reason, "wrong-reason", reason=reason)
        ctx.count("no_budget_runs")
        if case["kind"] == "run" and a["algorithm_name"] == "dCRAB":
            want = a["super_iteration_number"]
            ctx.check(len(res["dcrab_para_list"]) == want, "super-iterations", want=want,
                      got=len(res["dcrab_para_list"]))
            ctx.count("super_iterations", want)
    if ctx.sample is None:
        ctx.sample = {"settings": gen.describe(cfg), "limit": lim, "evaluations": n, "stopped": stopped}

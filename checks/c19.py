"""C19: observers see every evaluation, in order, with the true controls and value, and do not disturb the run."""
import random
from vf import gen

LEVEL = "exploration"
RULE = ("random optimizations of all algorithms with the three observer signals attached, with error states, stops by the "
        "user before/during/after an evaluation, budgets, drift compensation and re-evaluation; an online automaton checks "
        "the event order start (controls, evaluation, value)*, the data of every event and the numbering; the same run "
        "without observers must evaluate the same controls; non-trivial: at least 3 evaluations; distinct by settings class "
        "and injected event")
ASSUMPTIONS = ["the sign of the plotted value is not judged (internal convention)",
               "the plotted value during re-evaluation is not judged"]
QUICK_BUDGET = 22
THOROUGH_BUDGET = 300
REQUIRED = {"triples": 4000, "stopped_between": 10, "error_states": 10, "passive_pairs": 60, "iteration_numbers": 4000}


def cases(tier, rnd):
    from vf import gr
    n = 780 if tier == "quick" else 7000
    for i in range(n):
        r = random.Random(rnd.random())
        d = r.choice(["minimization", "maximization"])
        k = i % 20
        if k == 5:
            yield {"kind": "grape", "cfg": gr.grape_cfg(r, d), "inject": r.choice(["-", "stop_ctrl", "stop_plot"]),
                   "at": r.randint(0, 8)}
            continue
        if i in (6, 26) or (tier == "thorough" and k == 6 and i % 3 == 0):
            yield {"kind": "ad", "cfg": gr.ad_cfg(r, d, si=r.choice([1, 2]), maxfun=5, nparams=1), "inject": "-", "at": 0}
            continue
        extra = ["plain", "plain", "drift", "reeval", "periodic"][i % 5]
        cfg = gen.config(r, drift=extra == "drift" or ({"compensate_after_minutes": 1e-9} if extra == "periodic" else None),
                         reeval=extra == "reeval", shaping=True, overwrite=True, noise=True)
        if i % 90 == 77:
            cfg = gen.longer(r, cfg)
        if r.random() < 0.2:
            cfg["fom"]["gain"] = r.choice([1e8, 1e-9])
        if extra == "reeval":
            cfg["fom"]["std"] = "rand"
        inj = r.choice(["-", "-", "stop_ctrl", "stop_plot", "stop_call", "status"])
        at = r.randint(0, 40)
        if inj == "status":
            cfg["fom"]["status"] = {str(at): [r.choice([-1, 7]), r.choice([None, 0.5])]}
        yield {"kind": "run", "cfg": cfg, "inject": inj, "at": at, "extra": extra}


def run(case, ctx):
    import numpy as np
    from vf import rec, gr
    cfg, inj, at = case["cfg"], case["inject"], case["at"]

    def hook(t, kind, p):
        n = len(t.evals)
        if inj == "stop_ctrl" and kind == "ctrl" and n == at:
            t.he._v = False
        if inj == "stop_call" and kind == "call" and n == at + 1:
            t.he._v = False
        if inj == "stop_plot" and kind == "plot" and n == at + 1:
            t.he._v = False
    go = {"grape": gr.grape_run, "ad": gr.ad_run, "run": rec.run}[case["kind"]]
    tr = go(cfg, hook=hook)
    if not ctx.check(tr.error is None, "run-failed", error=tr.error):
        return
    ad = case["kind"] == "ad"
    reeval = "re_evaluation" in cfg["opt"]["algorithm_settings"]
    last_ctrl, ev, phase, started, nplot = None, None, "idle", 0, 0
    stopped = False
    for k, p in tr.log:
        if k in ("trace", "set"):
            continue
        if k == "msg":
            ctx.check(p["msg"] == "start" and phase == "idle" and ev is None and last_ctrl is None, "start-message",
                      msg=p["msg"], phase=phase)
            started += 1
        elif k == "ctrl":
            if not ctx.check(phase in ("idle", "ret_err"), "event-order", event=k, after=phase):
                return
            ctx.check(not stopped, "event-after-stop", event=k)
            last_ctrl, phase = p, "ctrl"
        elif k == "call":
            if not ctx.check(phase == "ctrl", "event-order", event=k, after=phase):
                return
            ev = tr.evals[p["n"]]
            same = len(ev["pulses"]) == len(last_ctrl["pulses"]) and all(
                np.array_equal(a, b) for a, b in zip(list(ev["pulses"]) + list(ev["timegrids"]),
                                                     list(last_ctrl["pulses"]) + list(last_ctrl["timegrids"])))
            same = same and np.allclose(ev["parameters"], last_ctrl["parameters"], rtol=0, atol=0)
            ctx.check(same, "controls-differ", evaluation=p["n"])
            phase = "call"
        elif k == "ret":
            phase = "ret" if ev["status"] == 0 else "ret_err"
            if phase == "ret_err":
                ctx.count("error_states")
        elif k == "plot":
            if not ctx.check(phase == "ret", "event-order", event=k, after=phase):
                return
            ctx.check(p["n"] == ev["n"] + 1, "numbering", got=p["n"], want=ev["n"] + 1)
            ctx.count("iteration_numbers")
            if not reeval:
                f = ev["fom"]
                tol = 1e-6 if ad else 1e-12
                ctx.check(abs(abs(p["fom"]) - abs(f)) <= tol * max(1, abs(f)) or (p["fom"] != p["fom"] and f != f), "value",
                          got=p["fom"], want=f, evaluation=ev["n"])
            ctx.count("triples")
            nplot += 1
            phase = "idle"
    ctx.check(started == 1, "start-message", times=started)
    ok = {"idle"}
    if inj == "stop_ctrl" or not tr.he._v:
        ok |= {"ctrl"} if inj == "stop_ctrl" else set()
        ok |= {"ret_err"} if inj == "status" else set()
    if phase == "ctrl" and inj == "stop_ctrl":
        ctx.count("stopped_between")
    ctx.check(phase in ok, "incomplete-evaluation", phase=phase, inject=inj)
    if len(tr.evals) >= 3:
        ctx.cover("%s/%s/%s" % (case["kind"], inj, gen.describe(cfg)))
    # without observers
    if inj in ("-", "status", "stop_call") and not ad:
        t2 = go(cfg, hook=hook if inj == "stop_call" else None, signals=False)
        ctx.count("passive_pairs")
        if ctx.check(t2.error is None, "run-failed-without-observers", error=t2.error):
            if "compensate_after_minutes" in str(cfg["opt"]["algorithm_settings"].get("compensate_drift", "")):
                return
            ctx.check(len(t2.evals) == len(tr.evals) and all(
                rec.same_controls(a, b, 0) and (a["fom"] == b["fom"] or a["fom"] != a["fom"])
                for a, b in zip(tr.evals, t2.evals)), "observers-disturb", n=[len(tr.evals), len(t2.evals)])
    if ctx.sample is None:
        ctx.sample = {"settings": gen.describe(cfg), "evaluations": len(tr.evals), "plots": nplot, "injected": inj}

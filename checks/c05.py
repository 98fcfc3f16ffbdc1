"""C05: global stops (goal, run time limit, user stop, Ctrl+C, error status) act promptly and only with their cause."""
import copy
import os
import random
import signal
from vf import gen

LEVEL = "fault_enumeration"
RULE = ("random optimizations of all algorithms into which a stop event is injected at a random evaluation: goal value, "
        "virtual-clock time limit, handle-exit flag lowered during the evaluation / by the controls or FoM observer / "
        "from another thread, SIGINT, error status of the FoM; control group without stop; Ctrl+C with a second optimization set up "
        "meanwhile or run inside; distinct by settings class, "
        "stop kind and position (simplex, middle, later super-iteration)")
ASSUMPTIONS = ["time is a virtual clock advanced by the workload", "one stop event per run"]
QUICK_BUDGET = 24
THOROUGH_BUDGET = 400
REQUIRED = {"stop_goal": 8, "stop_goal_record": 5, "stop_time": 8, "stop_user": 8, "stop_sigint": 8, "stop_status": 8, "control_runs": 20, "stop_sigint_other": 20}
KINDS = ["goal", "time", "user_ret", "user_call", "user_ctrl", "user_plot", "user_thread", "sigint", "sigint_ctrl",
         "status", "none", "none", "goal_exact", "zero_time"]


def before_import():
    from vf import clock
    clock.install()


def cases(tier, rnd):
    n = 1260 if tier == "quick" else 9000
    for i in range(n):
        r = random.Random(rnd.random())
        k = i % 14
        from vf import gr
        if i % 21 == 4:
            pair = []
            for _ in range(2):
                if r.random() < 0.2:
                    c = gr.grape_cfg(r, "minimization", maxfun=20)
                    kind = "grape"
                else:
                    c = gen.config(r, max_eval_total=None, quant=False, max_eval=r.randint(6, 25))
                    c["opt"]["algorithm_settings"]["random_number_generator"] = {"seed_number": r.randrange(1000)}
                    kind = "run"
                c["default_handle"] = r.random() < 0.3
                pair.append([kind, c])
            yield {"kind": "other", "how": ["setup", "nested", "inner"][(i // 21) % 3], "pair": pair, "at": r.randrange(1, 5)}
            continue
        stop = KINDS[(i // 2) % len(KINDS)] if i % 2 else r.choice(KINDS)
        direction = r.choice(["minimization", "maximization"])
        if k == 5:
            cfg = gr.grape_cfg(r, direction, maxfun=40)
            c = {"kind": "grape", "at": r.randrange(0, 9)}
        elif i in (6, 20) or (tier == "thorough" and k == 6 and i % 4 == 0):
            cfg = gr.ad_cfg(r, direction, si=2, maxfun=6)
            c = {"kind": "ad", "at": r.randrange(0, 5)}
        else:
            extra = r.choice(["plain", "plain", "plain", "drift", "reeval"])
            cfg = gen.config(r, max_eval_total=None, quant=False, drift=extra == "drift", reeval=extra == "reeval")
            if extra == "reeval":
                cfg["fom"]["std"] = r.choice([0.05, "rand"])
                cfg["fom"].pop("ret", None)
            me = cfg["opt"]["algorithm_settings"]["dsm_settings"]["stopping_criteria"]["max_eval"]
            c = {"kind": "run", "at": r.choice([0, r.randrange(cfg["dim"] + 2), r.randrange(me),
                                                r.randrange(3 * me)]), "extra": extra}
        a = cfg["opt"]["algorithm_settings"]
        c.update(cfg=cfg, stop=stop, step=r.choice([0.3, 1.0, 7.5, 60.0, 400.0, 30011.0, 90000.0]))
        if stop in ("time", "zero_time"):
            # minutes; the limit falls strictly between two evaluations or exactly on one
            a["total_time_lim"] = (c["at"] + r.choice([0.0, 0.5, 0.999])) * c["step"] / 60.0
            if stop == "zero_time":
                a["total_time_lim"] = 0
        if stop == "goal":
            a["FoM_goal"] = round(r.uniform(-1, 1.5), 3) if i % 3 else r.randint(-1, 2)
            if r.random() < 0.35:
                # zero is a goal like any other
                a["FoM_goal"] = r.choice([0, 0.0])
                if c["kind"] == "run":
                    cfg["fom"]["offset"] = -round(r.uniform(0.05, 1.0), 3)
            if c.get("extra") == "reeval":
                cfg["fom"].update(noise=r.choice([0.2, 0.6]), std=r.choice([0.05, 0.6]))
        if stop == "status":
            c["code"] = r.choice([-1, -2, 1, 404])
        yield c


def other(case, ctx):
    """Ctrl+C stops the optimization which is executed, and only this one, whatever else the process has set up or run."""
    from vf import gr, rec
    how, at = case["how"], case["at"]
    (ka, a), (kb, b) = case["pair"]

    def go(kind, cfg, hook=None, **kw):
        cfg = copy.deepcopy(cfg)
        return gr.grape_run(cfg, hook=hook, **kw) if kind == "grape" else rec.run(cfg, hook=hook, close=False, **kw)

    def press(t, kind, p):
        if kind == "call" and p["n"] == at:
            os.kill(os.getpid(), signal.SIGINT)

    old = signal.getsignal(signal.SIGINT)
    try:
        la, lb = len(go(ka, a).evals), len(go(kb, b).evals)
        if how == "setup":
            ta = go(ka, a, press, execute=False)
            tb = go(kb, b, execute=False)
            for t in (ta, tb):
                if t.error is None:
                    t.opt.execute()
            stopped, free, n = ta, tb, lb
        elif how == "nested":
            box = []

            def hook(t, kind, p):
                if kind == "call" and p["n"] == 0:
                    box.append(go(kb, b))
                press(t, kind, p)
            stopped = go(ka, a, hook)
            free, n = box[0], lb
        else:
            box = []

            def hook(t, kind, p):
                if kind == "call" and p["n"] == 2:
                    box.append(go(kb, b, press))
            free, n = go(ka, a, hook), la
            if not box:
                return ctx.count("too_short")
            stopped = box[0]
    except KeyboardInterrupt:
        return ctx.viol("keyboard-interrupt", how=how)
    finally:
        signal.signal(signal.SIGINT, old)
        rec.close_logger()
    if not ctx.check(stopped.error is None and free.error is None, "run-failed", how=how, error=[stopped.error, free.error]):
        return
    length = lb if how == "inner" else la
    if length > at + 1:
        ctx.check(len(stopped.evals) == at + 1, "other-not-stopped", how=how, stop_at=at, evaluations=len(stopped.evals))
        ctx.count("stop_sigint_other")
    ctx.check(len(free.evals) == n, "stopped-with-other", how=how, evaluations=len(free.evals), alone=n)
    ctx.cover("other/%s/%s/%s" % (how, ka, kb))


def run(case, ctx):
    if case["kind"] == "other":
        return other(case, ctx)
    import numpy as np
    import threading
    from vf import rec, gr, clock
    cfg, stop, at, step = case["cfg"], case["stop"], case["at"], case["step"]
    a = cfg["opt"]["algorithm_settings"]
    sgn = -1.0 if a.get("optimization_direction") == "maximization" else 1.0
    ev = {"stop_after": None, "start": None, "clock": [], "si": []}
    if stop == "status":
        if case["kind"] == "ad":
            stop = "user_ret"
        elif case["kind"] == "run":
            cfg["fom"]["status"] = {str(at): [case["code"], random.Random(at).choice([None, 0.0, -1e9, 1e9])]}

    def lower(t):
        t.he.set_is_user_running(False)

    def hook(t, kind, p):
        n = len(t.evals)
        if kind == "msg":
            ev["start"] = clock.now_s()
        if kind == "call":
            ev["clock"].append(clock.now_s() - (ev["start"] or 0))
            if getattr(t.alg, "super_it", 0):
                ev["si"].append(t.alg.super_it)
        if kind == "ret":
            clock.advance(step)
        hit = (p or {}).get("n") == at if kind in ("call", "ret") else False
        if hit and kind == "ret" and stop in ("user_ret", "user_thread", "sigint") or \
                hit and kind == "call" and stop == "user_call":
            ev["stop_after"] = n
            if stop == "sigint":
                os.kill(os.getpid(), signal.SIGINT)
            elif stop == "user_thread":
                th = threading.Thread(target=lower, args=(t,))
                th.start()
                th.join()
            else:
                lower(t)
        if kind == "ctrl" and n == at and ev["stop_after"] is None and stop in ("user_ctrl", "sigint_ctrl"):
            ev["stop_after"] = n
            if stop == "sigint_ctrl":
                os.kill(os.getpid(), signal.SIGINT)
            else:
                lower(t)
        if kind == "plot" and n == at + 1 and stop == "user_plot" and ev["stop_after"] is None:
            ev["stop_after"] = n
            lower(t)
        if kind == "ret" and stop == "status" and p["status"] != 0:
            ev["stop_after"] = n

    old = signal.getsignal(signal.SIGINT)
    try:
        if case["kind"] == "grape":
            tr0 = None
            if stop == "goal_exact" or stop == "goal":
                tr0 = gr.grape_run(cfg)
                pick(a, tr0, sgn, at)
            if stop == "status":
                spec = StatusWrap(cfg, sgn, at, case["code"], gr)
                tr = gr.grape_run(cfg, hook=hook, spec=spec)
            else:
                tr = gr.grape_run(cfg, hook=hook)
        elif case["kind"] == "ad":
            if stop in ("goal", "goal_exact"):
                a["FoM_goal"] = sgn * 1.5
            tr = gr.ad_run(cfg, hook=hook)
        else:
            if stop == "goal_exact":
                tr0 = rec.run(cfg)
                if tr0.error:
                    return ctx.viol("run-failed", error=tr0.error)
                pick(a, tr0, sgn, at)
            tr = rec.run(cfg, hook=hook)
    except KeyboardInterrupt:
        return ctx.viol("keyboard-interrupt", stop=stop)
    finally:
        signal.signal(signal.SIGINT, old)
    n = len(tr.evals)
    ctx.count("evaluations", n)
    if not ctx.check(tr.error is None and tr.phase == "done", "run-failed", stop=stop, error=tr.error):
        return
    ctx.check(tr.final() is not None, "no-result", stop=stop)
    running = tr.he._v
    if case["kind"] == "run" and a["algorithm_name"] == "dCRAB" and not running and ev["si"]:
        # no super-iteration is begun after the stop (one may have been begun when the stop is noticed)
        entries = len(tr.final()["dcrab_para_list"])
        ctx.check(entries <= ev["si"][-1] + 1, "super-iterations-after-stop", last=ev["si"][-1], entries=entries)
    reason = tr.log_reason() or ""
    reeval = "re_evaluation" in a
    where = "%s/%s" % (case["kind"], gen.describe(cfg))
    pos = "0" if n <= 1 else ("simplex" if n <= cfg.get("dim", 4) + 1 else
                              ("later" if getattr(tr.alg, "super_it", 1) > 1 else "mid"))

    def stopped(group):
        ctx.count("stop_" + group)
        ctx.cover("%s/%s/%s" % (stop, where, pos))

    sc_goal = a.get("FoM_goal")
    if sc_goal is not None:
        g = sgn * sc_goal
        if not reeval and not case.get("extra") == "drift":
            hits = [i for i, e in enumerate(tr.evals) if e["fom"] is not None and sgn * e["fom"] <= g]
            if hits:
                ctx.check(n == hits[0] + 1, "goal-not-prompt", goal=sc_goal, reached_at=hits[0], evaluations=n)
                if not running:
                    ctx.check("oal" in reason, "wrong-reason", reason=reason, stop=stop)
                    stopped("goal")
            else:
                ctx.check(running and "oal" not in reason, "goal-without-cause", goal=sc_goal, evaluations=n,
                          best=tr.best_value(), reason=reason)
        else:
            got = tr.final()["Figure of merit"]
            if not running:
                ctx.check("oal" in reason, "wrong-reason", reason=reason, stop=stop)
                # the record (an average) has reached the goal, not just one lucky evaluation
                ctx.check(sgn * got <= g, "goal-not-reached", goal=sc_goal, reported=got, extra=case.get("extra"))
                stopped("goal_record")
            sv = tr.saved()
            if reeval and sv is not None and sgn * got <= g:
                ctx.check(int(sv["iteration_number"]) == n, "goal-not-prompt", record_at=int(sv["iteration_number"]),
                          evaluations=n)
        return
    lim = a.get("total_time_lim")
    if lim is not None:
        late = [i for i, c in enumerate(ev["clock"]) if c >= lim * 60.0 + 1e-3]
        ctx.check(not late, "time-limit-late", limit_s=lim * 60, starts=ev["clock"][-3:], evaluations=n)
        total = n * step
        if running:
            ctx.check("runtime" not in reason, "wrong-reason", reason=reason)
        else:
            ctx.check(total >= lim * 60.0 - 1e-3, "time-limit-early", limit_s=lim * 60, elapsed=total, evaluations=n)
            ctx.check("runtime" in reason, "wrong-reason", reason=reason, stop=stop)
            stopped("time")
        return
    if ev["stop_after"] is not None:
        ctx.check(n == ev["stop_after"], "stop-not-prompt", stop=stop, stopped_after=ev["stop_after"], evaluations=n)
        ctx.check(not running, "stop-forgotten", stop=stop)
        if stop.startswith("sigint"):
            ctx.check("ser stopped" in reason, "wrong-reason", reason=reason, stop=stop)
            stopped("sigint")
        elif stop == "status":
            plots = [p["n"] for k, p in tr.log if k == "plot"]
            ctx.check(n not in plots, "error-status-plotted", plots=plots[-3:], n=n)
            stopped("status")
        else:
            stopped("user")
        if ctx.sample is None:
            ctx.sample = {"stop": stop, "settings": gen.describe(cfg), "injected_after": ev["stop_after"], "evaluations": n}
        return
    # nothing was injected (the run ended before): control group
    ctx.count("control_runs")
    ctx.check(running and not tr.he.sets, "stop-without-cause", stop=stop, sets=tr.he.sets[:3], reason=reason)
    ctx.check(reason == "", "reason-without-stop", reason=reason)
    if case["kind"] == "run" and a["algorithm_name"] == "dCRAB":
        res = tr.final()
        ctx.check(len(res["dcrab_para_list"]) == a["super_iteration_number"], "super-iterations",
                  want=a["super_iteration_number"], got=len(res["dcrab_para_list"]))


def pick(a, tr0, sgn, at):
    """Goal equal to a value really attained (<= must count)."""
    v = [sgn * e["fom"] for e in tr0.evals if e["fom"] is not None]
    if v:
        best = min(v[:max(1, min(len(v), at + 1))])
        a["FoM_goal"] = sgn * best


class StatusWrap:
    def __init__(self, cfg, sgn, at, code, gr):
        self.pr, self.sgn, self.at, self.code, self.n, self.T = gr.Problem(*cfg["prob"]), sgn, at, code, 0, cfg["T"]

    def __call__(self, pulses, timegrids, parameters):
        self.n += 1
        if self.n - 1 == self.at:
            return {"FoM": None, "status_code": self.code}
        return {"FoM": -self.sgn * self.pr.overlap(pulses[0], self.T)}

"""C15: re-evaluation decides from averages and standard deviations alone which controls become the best ones."""
import random
from vf import dsm, gen

LEVEL = "exploration"
RULE = ("random optimizations with a re-evaluation list of thresholds (default, one to five steps, rising and falling), noisy, "
        "drifting, adversarial and not-a-number figures of merit, constant, random and missing standard deviations, budgets and stops which "
        "cut a candidate: an independent state machine predicts after every evaluation whether the same controls come again, "
        "the value the search continues with, and every change of the best controls; non-trivial: candidate evaluated more "
        "than once; distinct by algorithm, method, thresholds passed and outcome")
ASSUMPTIONS = ["a probability within 1e-9 of a threshold counts as either", "standard deviations are positive",
               "limits inactive"]
QUICK_BUDGET = 22
THOROUGH_BUDGET = 300
REQUIRED = {"candidates": 3000, "rejected_first": 800, "rejected_later": 150, "record": 300, "lost_at_end": 20,
            "cut": 20, "search_points": 1500, "results": 100, "not_a_number": 50}


def cases(tier, rnd):
    n = 1080 if tier == "quick" else 9000
    for i in range(n):
        r = random.Random(rnd.random())
        alg = "DirectSearch" if i % 3 == 0 else "dCRAB"
        method = "CMAES" if i % 5 == 4 else "NelderMead"
        cfg = dsm.config(r, method, alg=alg, si=r.choice([1, 2, 3]), max_eval=r.randint(10, 70),
                         spaces="linear", dims=r.randint(1, 4))
        a = cfg["opt"]["algorithm_settings"]
        sc = a["dsm_settings"]["stopping_criteria"]
        sc["xatol"], sc["fatol"] = 1e-14, 1e-100
        k = r.randrange(6)
        if k == 0:
            a["re_evaluation"] = {}
        elif k == 1:
            a["re_evaluation"] = {"re_evaluation_steps": [gen.r3(r, 0.05, 0.9)]}
        elif k == 2:
            a["re_evaluation"] = {"re_evaluation_steps": [0.3, 0.5, 0.6]}
        elif k == 3:
            a["re_evaluation"] = {"re_evaluation_steps": sorted(gen.r3(r, 0.1, 0.95) for _ in range(r.randint(2, 5)))}
        elif k == 4:
            a["re_evaluation"] = {"re_evaluation_steps": [gen.r3(r, 0.1, 0.9) for _ in range(r.randint(2, 5))]}
        else:
            a["re_evaluation"] = {"re_evaluation_steps": [0.33, 0.5, 0.501, 0.51]}
        f = cfg["fom"]
        f["std"] = r.choice([0.02, 0.3, "rand", "rand", None, 2.0, 0.0, "zeros"])
        if f["std"] is None:
            f.pop("std")
        if f["kind"] != "seq":
            f["noise"] = r.choice([0.02, 0.2, 1.0])
        if r.random() < 0.3:
            a["max_eval_total"] = r.randint(2, 100)
        if r.random() < 0.15:
            a["FoM_goal"] = (-1 if cfg["fom"].get("flip") else 1) * r.choice([0.2, 0.5, 1.0])
        if i % 10 in (3, 6):                    # a figure of merit in small or large units
            u = f["value_unit"] = r.choice([1e-5, 1e-9, 2.0 ** -30, 1e6])
            f["gain"] = f.get("gain", 1.0) * u
            f["offset"] = f.get("offset", 0.0) * u
            f["std"] = r.choice([0.02, 0.3, 2.0]) * u
            if f.get("noise"):
                f["noise"] *= u
            if "FoM_goal" in a:
                a["FoM_goal"] *= u
        if i % 7 == 3 and method == "NelderMead" and cfg["dim"] > 1:      # measurements which give no number
            f["special"] = {str(r.randrange(1, 30)): "nan" for _ in range(r.randint(1, 3))}
        yield {"cfg": cfg, "stop": r.randint(2, 60) if r.random() < 0.2 else None}


def run(case, ctx):
    import math
    import numpy as np
    from vf import rec, refs
    cfg = case["cfg"]
    a = cfg["opt"]["algorithm_settings"]
    alg = a["algorithm_name"]
    gs = a["dsm_settings"]["general_settings"]
    method = gs["dsm_algorithm_name"]
    thr_all = a["re_evaluation"].get("re_evaluation_steps", [0.3, 0.5, 0.501])
    sec = dsm.Sections()

    def hook(t, kind, e):
        sec(t, kind, e)
        if kind == "ret" and case["stop"] is not None and e["n"] + 1 == case["stop"]:
            t.he._v = False
    tr = rec.run(cfg, hook=hook)
    if not ctx.check(tr.error is None, "run-failed", error=tr.error):
        return
    goal = a.get("FoM_goal")
    goal = None if goal is None else tr.sign * goal
    best, best_sd, best_e = 1e10, 0.0, None
    state, cur, unsure = "new", None, False
    nm, nm_si, nm_on = None, None, True
    E = tr.evals
    flat = cfg["dim"] == 1      # a failed contraction and the shrink after it are the same point
    outcomes = set()

    def decide(m, s):
        comb = math.sqrt(s * s + best_sd * best_sd)
        return 0.5 * math.erfc(-(best - m) / (comb if comb >= 1e-14 else 1.0) / math.sqrt(2))

    def finish_candidate(m):
        """The search continues with the average."""
        nonlocal nm_on
        if method != "NelderMead" or not nm_on:
            return
        nm.tell(cur["x"], m)
        if nm.ambiguous:
            nm_on = False

    def start(e, si):
        nonlocal nm, nm_si, nm_on
        if method != "NelderMead":
            return
        if nm_si != si:
            nm_si, nm, nm_on = si, None, True
            # the start simplex is whatever the run evaluates first: collected lazily below
            nm = Lazy(refs, cfg["dim"], bool(gs.get("is_adaptive")))
        if nm_on:
            nx = nm.next()
            if nx is not None:
                dev = float(np.max(np.abs(nx - cur["x"]))) / max(1.0, float(np.max(np.abs(cur["x"]))))
                ctx.check(dev < 1e-7, "search-point", evaluation=e["n"], deviation=dev, step=nm.kind())
                ctx.count("search_points")

    for j, e in enumerate(E):
        si = sec.si[j]
        F, s = tr.sign * e["fom"], (1.0 if e["std"] is None else float(e["std"]))
        x = dsm.vec(e)
        if goal is not None and best <= goal:
            ctx.viol("evaluated-after-goal", best=best, goal=goal, evaluation=j)
            return
        if state == "either":
            state = "same" if np.array_equal(x, cur["x"]) else "new"
        if state == "same":
            if not ctx.check(np.array_equal(x, cur["x"]), "not-re-evaluated", evaluation=j, steps_done=cur["n"],
                             thresholds=thr_all, best=best):
                return
            cur["F"].append(F)
            cur["S"].append(s)
        else:
            if cur is not None and cur["si"] == si and not ctx.check(
                    not np.array_equal(x, cur["x"]) or flat, "evaluated-too-often", evaluation=j,
                    steps_done=cur["n"], thresholds=thr_all, best=best):
                return
            cur = {"x": x, "F": [F], "S": [s], "si": si, "e": e, "n": 0, "thr": [0.5] if j == 0 else thr_all}
            start(e, si)
            ctx.count("candidates")
        cur["n"] += 1
        m, sd = float(np.mean(cur["F"])), float(np.mean(cur["S"]))
        P = decide(m, sd)
        k = cur["n"] - 1
        lim = cur["thr"][k] if k < len(cur["thr"]) else cur["thr"][-1]
        if abs(P - lim) < 1e-9:
            unsure = True
            break
        if m != m:
            # no number passes no threshold, but it may be measured again
            nm_on = False
            ctx.count("not_a_number")
            state = "either" if k < len(cur["thr"]) else "new"
        elif k < len(cur["thr"]):
            if P < lim:
                state = "new"
                finish_candidate(m)
                ctx.count("rejected_first" if k == 0 else "rejected_later")
                outcomes.add("rej%d" % k)
            else:
                state = "same"
        else:
            state = "new"
            if P > lim:
                if case["stop"] == j + 1:
                    ctx.count("stopped_during_last_step")      # it may count or not
                    return
                best, best_sd, best_e = m, sd, e
                ctx.count("record")
                outcomes.add("rec%d" % k)
            else:
                ctx.count("lost_at_end")
                outcomes.add("lost%d" % k)
            finish_candidate(m)
    for o in outcomes:
        if o != "rej0":
            ctx.cover("%s/%s/%s" % (alg, method, o))
    if unsure:
        ctx.count("unsure")
        return
    if state == "same":
        # only a stop from outside may cut a candidate
        ok = not tr.he._v and (case["stop"] == len(E) or a.get("max_eval_total") == len(E)
                               or (goal is not None and best <= goal))
        ctx.check(ok, "candidate-cut", evaluations=len(E), reason=tr.log_reason())
        ctx.count("cut")
    if best_e is None:
        return
    ctx.count("results")
    res = tr.final()
    unit = min(1.0, cfg["fom"].get("value_unit", 1.0))
    tol = 1e-9 * max(unit, abs(best))
    ctx.check(abs(res["Figure of merit"] - tr.sign * best) <= tol, "result-fom", got=res["Figure of merit"],
              want=tr.sign * best)
    if "Std" in res:
        ctx.check(abs(res["Std"] - best_sd) <= 1e-9 * max(unit, best_sd), "result-std", got=res["Std"], want=best_sd)
    g = tr.best_controls()
    ctx.check(rec.same_controls(g, best_e, 1e-8), "getter-controls", evaluation=best_e["n"], best=best)
    sv = tr.saved()
    if ctx.check(sv is not None, "nothing-saved"):
        ctx.check(rec.same_controls(rec.controls_from_saved(sv, cfg), best_e, 1e-9), "saved-controls",
                  evaluation=best_e["n"], best=best)
        ctx.check(abs(float(sv["FoM"]) - tr.sign * best) <= tol, "saved-fom", got=float(sv["FoM"]), want=tr.sign * best)
    if ctx.sample is None:
        ctx.sample = {"settings": gen.describe(cfg), "thresholds": thr_all, "evaluations": len(E), "best": best,
                      "best_std": best_sd, "outcomes": sorted(outcomes)}


class Lazy:
    """Nelder-Mead reference whose start simplex is the one the run evaluates."""

    def __init__(self, refs, dim, adaptive):
        self.refs, self.dim, self.adaptive = refs, dim, adaptive
        self.init, self.ref = [], None

    def next(self):
        return None if self.ref is None else self.ref.next

    def kind(self):
        return self.ref.kind

    def tell(self, x, f):
        if self.ref is not None:
            self.ref.tell(x, f)
            return
        self.init.append((x, f))
        if len(self.init) == self.dim + 1:
            self.ref = self.refs.NelderMeadRef([p for p, _ in self.init], self.adaptive)
            for p, v in self.init:
                self.ref.tell(p, v)

    @property
    def ambiguous(self):
        return self.ref is not None and self.ref.ambiguous

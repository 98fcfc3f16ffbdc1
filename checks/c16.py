"""C16: drift compensation measures the best controls again and continues with the new value."""
import random
from vf import dsm, gen

LEVEL = "exploration"
RULE = ("random optimizations with drift compensation after super-iterations and/or after (virtual) minutes, one to four "
        "averages, drifting, noisy and adversarial figures of merit, budgets and stops at every place: an independent model "
        "with a lock-step Nelder-Mead predicts when the best controls are measured again, the values the simplex continues "
        "with, and the best figure of merit and controls at the end; non-trivial: a completed compensation; distinct by "
        "algorithm, method, kind of compensation, averages and end of the run")
ASSUMPTIONS = ["limits inactive", "judging stops when equal values make the order of the vertices ambiguous"]
QUICK_BUDGET = 22
THOROUGH_BUDGET = 300
REQUIRED = {"after_si": 150, "periodic": 300, "interrupted": 5, "search_points": 3000, "results": 150, "worse_after": 60, "saved_values": 300}


def before_import():
    from vf import clock
    clock.install()


def cases(tier, rnd):
    n = 1800 if tier == "quick" else 9000
    for i in range(n):
        r = random.Random(rnd.random())
        kind = ["si", "periodic", "both"][i % 3]
        alg = "dCRAB" if kind != "periodic" or i % 2 else "DirectSearch"
        method = "CMAES" if kind == "si" and i % 4 == 0 else "NelderMead"
        cfg = dsm.config(r, method, alg=alg, si=r.choice([2, 3, 4] if kind != "periodic" else [1, 2, 3]),
                         spaces="linear", max_eval=r.randint(12, 50), dims=r.randint(2, 4))
        a = cfg["opt"]["algorithm_settings"]
        sc = a["dsm_settings"]["stopping_criteria"]
        sc["xatol"], sc["fatol"] = 1e-14, 1e-100
        step = r.choice([1.0, 7.0, 60.0])
        cd = {}
        if kind in ("si", "both"):
            cd["compensate_after_SI"] = True
        if kind in ("periodic", "both"):
            cd["compensate_after_minutes"] = (r.choice([0, 3, 6, 11, 25]) + 0.5) * step / 60.0
        if r.random() < 0.7:
            cd["num_average"] = r.choice([1, 2, 3, 4])
        a["compensate_drift"] = cd
        f = cfg["fom"]
        if f["kind"] != "seq":
            f["noise"] = r.choice([0.0, 0.05, 0.5])
            f["drift"] = r.choice([0.0, 0.02, -0.02, 0.3])
        if r.random() < 0.3:
            a["max_eval_total"] = r.randint(4, 150)
        yield {"cfg": cfg, "step": step, "kind": kind, "stop": r.randint(2, 90) if r.random() < 0.35 else None}


def run(case, ctx):
    import numpy as np
    from vf import rec, refs, clock
    cfg, step = case["cfg"], case["step"]
    a = cfg["opt"]["algorithm_settings"]
    alg = a["algorithm_name"]
    gs = a["dsm_settings"]["general_settings"]
    method = gs["dsm_algorithm_name"]
    cd = a["compensate_drift"]
    k_avg = cd.get("num_average", 1)
    minutes = cd.get("compensate_after_minutes", 0.0)
    after_si = alg == "dCRAB" and (cd.get("compensate_after_SI", False) or minutes > 0)
    periodic = minutes > 0 and method == "NelderMead"
    sec = dsm.Sections()

    def hook(t, kind, e):
        sec(t, kind, e)
        if kind == "ret":
            clock.advance(step)
            if case["stop"] is not None and e["n"] + 1 == case["stop"]:
                t.he._v = False
    tr = rec.run(cfg, hook=hook)
    if not ctx.check(tr.error is None, "run-failed", error=tr.error):
        return
    E = tr.evals
    best, best_e, single = 1e10, None, True   # single: the best value is not an average over repeated measurements after an SI
    si_now = None
    comp, comp_kind, comp_x, prev_best = [], None, None, None    # pending compensation: values so far
    ref, simp, seen_iter, timer = None, [], 0, 0
    done = 0
    closing = False      # the last evaluation completed a compensation while the user stopped
    kinds = set()

    def dev(x, y):
        return float(np.max(np.abs(np.asarray(x) - y))) / max(1.0, float(np.max(np.abs(y))))

    for j, e in enumerate(E):
        F, x, si = tr.sign * e["fom"], dsm.vec(e), sec.si[j]
        if si != si_now:
            if comp_kind is not None:
                ctx.viol("compensation-cut", evaluation=j, done=len(comp), wanted=k_avg)
                return
            si_now, ref, simp, seen_iter, timer = si, None, [], 0, 0
            if si >= 2 and after_si:
                comp, comp_kind, comp_x, prev_best = [], "si", dsm.vec(best_e), best
        if comp_kind is not None:
            d = dev(x, comp_x)
            if not ctx.check(d < 1e-7, "compensation-controls", evaluation=j, kind=comp_kind, deviation=d,
                             nth=len(comp) + 1, wanted=k_avg, best_evaluation=best_e["n"]):
                return
            comp.append(F)
            if F < best:
                best, best_e, single = F, e, True
            if len(comp) == k_avg:
                if case["stop"] == j + 1:
                    closing = True
                    break
                m = float(np.mean(comp))
                ctx.count("after_si" if comp_kind == "si" else "periodic")
                if m > prev_best:
                    ctx.count("worse_after")
                kinds.add(comp_kind)
                best, best_e, single = m, e, comp_kind == "periodic" or k_avg == 1
                if comp_kind == "periodic":
                    ref.fs += m - ref.fs[0]
                    timer = j + 1
                else:
                    timer = j + 1
                comp_kind = None
                done += 1
            continue
        if method == "NelderMead":
            if len(simp) <= cfg["dim"]:
                if not simp:
                    timer = j
                simp.append((x, F))
                if len(simp) == cfg["dim"] + 1:
                    ref = refs.NelderMeadRef([p for p, _ in simp], bool(gs.get("is_adaptive")))
                    for p, v in simp:
                        ref.tell(p, v)
            else:
                if ref.ambiguous:
                    ctx.count("ambiguous")
                    return
                d = dev(ref.next, x)
                if not ctx.check(d < 1e-7, "search-point", evaluation=j, deviation=d, step=ref.kind, periodic=periodic,
                                 due_minutes=minutes, elapsed=(j - timer) * step / 60.0):
                    return
                ctx.count("search_points")
                ref.tell(x, F)
        if F < best:
            best, best_e, single = F, e, True
        if periodic and ref is not None and ref.iterations > seen_iter:
            seen_iter = ref.iterations
            if (j + 1 - timer) * step / 60.0 >= minutes:
                if ref.fs[0] == ref.fs[1]:
                    ctx.count("ambiguous")
                    return
                comp, comp_kind, comp_x, prev_best = [], "periodic", ref.sim[0].copy(), best
    n = len(E)
    if comp_kind is not None:
        stopped = case["stop"] == n or a.get("max_eval_total") == n
        if not ctx.check(stopped, "compensation-missing", kind=comp_kind, done=len(comp), wanted=k_avg, evaluations=n):
            return
        if comp:
            ctx.count("interrupted")
    if closing or best_e is None:
        return
    # interrupted compensation after an SI: the regular end needs none
    ctx.count("results")
    for q in kinds:
        ctx.cover("%s/%s/%s/%d/%s" % (alg, method, q, k_avg, "cut" if comp_kind else "stop" if not tr.he._v else "end"))
    res = tr.final()
    tol = 1e-9 * max(1.0, abs(best))
    ok = [best] if comp_kind is None else [best, prev_best]
    ctx.check(any(abs(res["Figure of merit"] - tr.sign * b) <= tol for b in ok), "result-fom",
              got=res["Figure of merit"], want=[tr.sign * b for b in ok], compensations=done)
    g = tr.best_controls()
    ctx.check(rec.same_controls(g, best_e, 1e-7), "getter-controls", evaluation=best_e["n"], best=best, compensations=done)
    sv = tr.saved()
    if ctx.check(sv is not None, "nothing-saved") and comp_kind is None:
        ctx.check(rec.same_controls(rec.controls_from_saved(sv, cfg), best_e, 1e-7), "saved-controls",
                  evaluation=best_e["n"], best=best)
        if single:
            ctx.count("saved_values")
            ctx.check(abs(float(sv["FoM"]) - tr.sign * best) <= 1e-7 * max(1.0, abs(best)), "saved-value", got=float(sv["FoM"]), want=tr.sign * best,
                      compensations=done, kinds=sorted(kinds))
    if ctx.sample is None:
        ctx.sample = {"settings": gen.describe(cfg), "compensation": cd, "evaluations": n, "completed": done, "best": best}

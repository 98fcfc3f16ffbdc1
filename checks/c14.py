"""C14: a direct search ends exactly when one of its criteria holds, and reports the one which held."""
import random
from vf import dsm, gen

LEVEL = "exploration"
RULE = ("random direct searches (Nelder-Mead, CMA-ES; one to three super-iterations) with random settings of evaluations, "
        "simplex size, spread of values, virtual-clock time limit (parts of seconds up to days) and change-based stop; after every completed iteration the "
        "criteria are recomputed from the observed points and values with an independent simplex/population; non-trivial: "
        "search ended by a criterion; distinct by method, criterion and dimension")
ASSUMPTIONS = ["limits inactive", "a criterion within 1e-9 of its threshold counts as either",
               "judging stops when equal values make the order of the vertices ambiguous"]
QUICK_BUDGET = 22
THOROUGH_BUDGET = 300
REQUIRED = {"iterations_judged": 2000, "end_max_eval": 40, "end_xatol": 10, "end_fatol": 20, "end_time": 20, "end_cbs": 20}


def before_import():
    from vf import clock
    clock.install()


def cases(tier, rnd):
    n = 1600 if tier == "quick" else 9000
    for i in range(n):
        r = random.Random(rnd.random())
        crit = ["max_eval", "xatol", "fatol", "time", "cbs", "mix"][i % 6]
        method = "CMAES" if i % 5 == 3 and crit != "xatol" else "NelderMead"
        cfg = dsm.config(r, method, si=r.choice([1, 2, 3]), max_eval=r.randint(4, 60),
                         foms=("quad", "rugged") if crit in ("xatol", "fatol") else ("quad", "rugged", "seq"))
        a = cfg["opt"]["algorithm_settings"]
        sc = a["dsm_settings"]["stopping_criteria"]
        sc.pop("xatol", None)
        sc.pop("fatol", None)
        step = r.choice([1.0, 13.0, 0.4, 0.07, 9000.0])
        if crit in ("xatol", "mix"):
            sc["xatol"] = r.choice([1.0, 0.1, 1e-2])
        if crit in ("fatol", "mix"):
            sc["fatol"] = r.choice([1.0, 0.1, 1e-2])
        if crit in ("xatol", "fatol"):
            sc["max_eval"] = 250
        if crit in ("time", "mix"):
            sc["time_lim"] = r.choice([0.0, 3, 10.5, 17, 40]) * step / 60.0
        if crit in ("cbs", "mix") or i % 12 == 11:
            sc["change_based_stop"] = {"cbs_funct_evals": r.randint(2, 12), "cbs_change": r.choice([1e-3, 0.05, 0.5, 3.0])}
        if i % 25 == 7:      # no change at all is not less than none
            sc["change_based_stop"] = {"cbs_funct_evals": 2, "cbs_change": 0}
            cfg["fom"].update(kind="seq", values=[0.0] * (cfg["dim"] + 2 + r.randrange(3)) + [r.uniform(-1, 1) for _ in range(400)])
            cfg["fom"].pop("offset", None)
        yield {"cfg": cfg, "crit": crit, "step": step}


def near(a, b):
    return abs(a - b) <= 1e-9 * max(abs(a), abs(b), 1e-300)


def run(case, ctx):
    import numpy as np
    from vf import rec, refs, clock
    cfg, step = case["cfg"], case["step"]
    a = cfg["opt"]["algorithm_settings"]
    ds = a["dsm_settings"]
    sc, gs = ds["stopping_criteria"], ds["general_settings"]
    method = gs["dsm_algorithm_name"]
    sec = dsm.Sections()
    t_ret = []

    def hook(t, kind, e):
        sec(t, kind, e)
        if kind == "ret":
            clock.advance(step)

    tr = rec.run(cfg, hook=hook)
    if not ctx.check(tr.error is None, "run-failed", error=tr.error):
        return
    if not ctx.check(tr.he._v, "global-stop-without-cause", reason=tr.log_reason()):
        return
    parts = sec.split(tr.evals)
    reasons = dsm.si_reasons(tr)
    want_si = a.get("super_iteration_number", 1) if a["algorithm_name"] == "dCRAB" else 1
    ctx.check(len(parts) == want_si and len(reasons) == want_si, "super-iterations", got=[len(parts), len(reasons)],
              want=want_si)
    res = tr.final()
    ctx.check(res["terminate_reason"] == reasons[-1], "result-reason", got=res["terminate_reason"], log=reasons[-1])
    xatol, fatol = sc.get("xatol", 1e-14), sc.get("fatol", 1e-100)
    cbs = sc.get("change_based_stop")
    dim = cfg["dim"]

    def cbs_holds(vals):
        """True/False/None (too close to tell)"""
        if cbs is None or cbs["cbs_change"] == 0:
            return False
        n = cbs["cbs_funct_evals"]
        if n <= 1 or len(vals) < n:
            return False
        y = np.array(vals[-n:])
        x = np.arange(n) - (n - 1) / 2
        ch = abs(float((x * (y - y.mean())).sum() / (x * x).sum()) * n)
        # the fit of the library has rounding errors
        if abs(ch - cbs["cbs_change"]) <= 1e-9 * (1 + abs(y).max()):
            return None
        return ch < cbs["cbs_change"]

    for evs, reason in zip(parts, reasons):
        X = [dsm.vec(e) for e in evs]
        F = [tr.sign * e["fom"] for e in evs]
        n = len(F)
        state = None          # reason the search has to end with
        unsure = False

        def crit_after(count, sim, fs):
            el = count * step / 60.0
            out = []
            if count >= sc["max_eval"]:
                return "max_eval", False
            fuzzy = False
            if sim is not None:
                m = float(np.max(np.abs(sim[1:] - sim[0])))
                fuzzy = fuzzy or near(m, xatol)
                if m <= xatol:
                    return "xatol", fuzzy
            sd = float(np.std(fs))
            fuzzy = fuzzy or near(sd, fatol) or (sd != 0 and sd < 1e-14 * max(1.0, float(np.max(np.abs(fs)))))
            if sd <= fatol:
                return "fatol", fuzzy
            if "time_lim" in sc:
                fuzzy = fuzzy or abs(el - sc["time_lim"]) < 1e-6
                if el >= sc["time_lim"]:
                    return "time", fuzzy
            return None, fuzzy

        TXT = {"max_eval": "number of allowed function", "xatol": "Convergence of the simplex", "fatol": "fatol",
               "time": "time for direct search", "cbs": "Change-based"}

        def finish(kind, used):
            if used != n:
                ctx.viol("not-stopped" if used < n else "stopped-early", criterion=kind, holds_after=used, evaluations=n,
                         reason=reason, method=method)
                return
            ctx.check(TXT[kind] in reason, "wrong-reason", criterion=kind, reason=reason, method=method)
            ctx.count("end_" + kind)
            ctx.cover("%s/%s/d%d" % (method, kind, dim))

        if method == "NelderMead":
            ref = refs.NelderMeadRef(X[:dim + 1] if len(X) > dim else X + [X[-1]] * (dim + 1 - len(X)),
                                     bool(gs.get("is_adaptive")))
            it, pend = 0, None
            done = False
            for j in range(n):
                if ref.ambiguous and j > dim:
                    unsure = True
                    break
                if j > dim and float(np.max(np.abs(X[j] - ref.next))) > 1e-6 * max(1, float(np.max(np.abs(X[j])))):
                    unsure = True      # not the textbook point: C12 reports it
                    break
                ref.tell(X[j], F[j])
                h = cbs_holds(F[:j + 1])
                if h is None:
                    unsure = True
                    break
                if h and pend is None:
                    pend = j
                if pend is not None and j >= dim:
                    finish("cbs", j + 1)
                    done = True
                    break
                if ref.iterations > it:
                    it = ref.iterations
                    ctx.count("iterations_judged")
                    kind, fuzzy = crit_after(j + 1, ref.sim, ref.fs)
                    if fuzzy:
                        unsure = True
                        break
                    if kind:
                        finish(kind, j + 1)
                        done = True
                        break
            if not done and not unsure:
                ctx.viol("stopped-early", evaluations=n, reason=reason, method=method, sc=sc)
        else:
            l_pop = int(gs["population"]) if gs.get("population") else int(4 + np.floor(3 * np.log(dim)))
            done, pend = False, None
            for g in range(1, n // l_pop + 2):
                hi = g * l_pop
                if hi > n:
                    break
                for j in range(hi - l_pop, hi):
                    h = cbs_holds(F[:j + 1])
                    if h is None:
                        unsure = True
                    if h:
                        pend = j
                if unsure:
                    break
                ctx.count("iterations_judged")
                if pend is not None:
                    finish("cbs", hi)
                    done = True
                    break
                kind, fuzzy = crit_after(hi, None, np.array(F[hi - l_pop:hi]))
                if fuzzy:
                    unsure = True
                    break
                if kind:
                    finish(kind, hi)
                    done = True
                    break
            if not done and not unsure:
                ctx.viol("stopped-early", evaluations=n, reason=reason, method=method, population=l_pop, sc=sc)
        if unsure:
            ctx.count("unsure")
    if ctx.sample is None:
        ctx.sample = {"settings": gen.describe(cfg), "criteria": sc, "reasons": reasons,
                      "evaluations": [len(p) for p in parts]}

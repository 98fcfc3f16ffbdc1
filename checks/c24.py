"""C24: the file exchange figure of merit hands over the current controls and only ever returns an answer to them."""
import json
import os
import random

LEVEL = "fault_enumeration"
RULE = ("sequences of file exchanges (json and txt, same or separate folders, 0-3 pulses, 0-4 parameters) against a responder "
        "on a virtual clock which answers early, late, never, with garbage, with an empty file, with surplus lines, or leaves "
        "a stale answer behind; whole optimizations run through the exchange and are compared evaluation by evaluation with "
        "the same optimization in memory, with the responder dying at a chosen evaluation; non-trivial: an answer was given "
        "or refused; distinct by format, kind of answer and shape of the controls")
ASSUMPTIONS = ["the answer file appears complete (written elsewhere and moved)", "time is a virtual clock",
               "an answer within one second of the time limit may count either way"]
QUICK_BUDGET = 20
THOROUGH_BUDGET = 240
REQUIRED = {"answers": 300, "timeouts": 60, "garbage": 60, "stale_before": 60, "runs": 20, "run_evaluations": 300, "run_cut": 5}
ANSWERS = ["good", "good", "good", "spaces", "surplus", "exp", "int", "never", "never", "late", "empty", "word", "comma",
           "nan", "inf", "negative"]


def before_import():
    from vf import clock
    clock.install()


def cases(tier, rnd):
    from vf import gen
    n = 1500 if tier == "quick" else 6000
    for i in range(n):
        r = random.Random(rnd.random())
        base = {"ext": r.choice(["json", "txt"]), "folders": r.choice(["same", "two", "abs", "default"]),
                "max_time": r.choice([0.3, 1, 2.5, 10, 60, 600, None])}
        if i % 4 == 3:
            cfg = gen.config(r, npulses=r.choice([1, 2]), nparams=r.choice([1, 2]), max_eval=r.randint(5, 25),
                             funcs=["none", "lambda"], dsm="NelderMead")
            base["max_time"] = r.choice([2.5, 10, 60, 600, None])
            yield dict(base, kind="run", cfg=cfg, die=r.choice([None, None, r.randint(1, 20)]),
                       how=r.choice(["never", "word", "empty"]))
        else:
            yield dict(base, kind="direct", seed=r.randrange(10**9), answers=[r.choice(ANSWERS) for _ in range(r.randint(2, 7))],
                       npulses=r.randint(0, 3), nparams=r.randint(0, 4))


AUDIT = None


def worker_init():
    """Real file operations, as the interpreter's audit events report them."""
    import sys

    def hook(event, args):
        if AUDIT is None:
            return
        try:
            if event == "open" and isinstance(args[0], str) and args[0].endswith((".json", ".txt")):
                w = isinstance(args[1], str) and any(c in args[1] for c in "wax+")
                AUDIT.append(("write" if w else "read", os.path.basename(args[0])))
            elif event in ("os.remove", "os.rename", "os.truncate"):
                AUDIT.append(("remove", os.path.basename(str(args[0]))))
        except Exception:
            pass
    sys.addaudithook(hook)


def audited(ctx, fn, cname, **info):
    global AUDIT
    AUDIT = []
    try:
        return fn()
    finally:
        ev, AUDIT = AUDIT, None
        w = [i for i, e in enumerate(ev) if e == ("write", cname)]
        if w:
            # once the controls are there an answer may be there too: it must not be thrown away
            bad = [e for e in ev[w[0]:] if e[0] in ("remove", "write") and e[1] == "FoM.txt"]
            ctx.check(not bad, "answer-could-be-lost", events=ev[:30], **info)
            ctx.count("ordered_exchanges")


class Responder:
    """Acts while the library sleeps: reads the controls file once per request, then answers after a delay."""

    def __init__(self, cpath, fpath):
        self.cpath, self.fpath = cpath, fpath
        self.plan = None            # (delay, text) of the pending request or None
        self.seen = None            # controls text seen when the request was noticed
        self.stale_seen = False
        self.due = None
        self.t0 = None

    def request(self, delay, text):
        from vf import clock
        self.plan, self.seen, self.t0, self.stale_seen = (delay, text), None, clock.now_s(), False
        self.answered = False

    def __call__(self, seconds):
        from vf import clock
        end = clock.now_s() + float(seconds)
        if self.plan is not None and self.seen is None and os.path.exists(self.cpath):
            self.seen = open(self.cpath).read()
            self.stale_seen = os.path.exists(self.fpath)
        if self.plan is not None and self.plan[1] is not None and not self.answered:
            at = self.t0 + self.plan[0]
            if at <= end:
                text = self.plan[1](self.seen) if callable(self.plan[1]) else self.plan[1]
                if text is not None:
                    with open(self.fpath + ".part", "w") as f:      # the move shows up as FoM.txt.part
                        f.write(text)
                    os.replace(self.fpath + ".part", self.fpath)
                self.answered = True
        clock.advance(max(0.0, end - clock.now_s()))


def make(case):
    from vf import clock
    from quocslib.utils.FilesUpdateFom import FilesUpdateFoM
    kw = {}
    c = f = "."
    if case["folders"] != "default":
        c, f = ("ctl", "fom") if case["folders"] != "same" else ("ex", "ex")
        os.makedirs(c, exist_ok=True)
        os.makedirs(f, exist_ok=True)
        if case["folders"] == "abs":
            c, f = os.path.abspath(c), os.path.abspath(f)
        kw.update(controls_folder=c, FoM_folder=f)
    if case["ext"] != "json" or case["folders"] != "default":
        kw["file_extension"] = case["ext"]
    if case["max_time"] is not None:
        kw["max_time"] = case["max_time"]
    obj = FilesUpdateFoM(**kw)
    rs = Responder(os.path.join(c, "controls." + case["ext"]), os.path.join(f, "FoM.txt"))
    clock.SLEEP[0] = rs
    return obj, rs


def parse(text, ext, npulses, lens):
    import numpy as np
    if ext == "json":
        d = json.loads(text)
        keys = set(d)
        pulses = [np.array(d["pulse%d" % (i + 1)]) for i in range(npulses)]
        times = [np.array(d["time_grid%d" % (i + 1)]) for i in range(npulses)]
        pars = []
        while "parameter%d" % (len(pars) + 1) in d:
            pars.append(float(d["parameter%d" % (len(pars) + 1)]))
        return pulses, times, pars, len(keys) == 2 * npulses + len(pars)
    rows = [[float(x) for x in ln.split()] for ln in text.splitlines() if ln.strip()]
    pulses = [np.array(rows[2 * i]) for i in range(npulses)]
    times = [np.array(rows[2 * i + 1]) for i in range(npulses)]
    rest = rows[2 * npulses:]
    return pulses, times, [x for row in rest for x in row], all(len(row) == 1 for row in rest)


def run(case, ctx):
    import numpy as np
    from vf import clock
    obj, rs = make(case)
    limit = 60 if case["max_time"] is None else case["max_time"]
    if case["kind"] == "run":
        return whole_run(case, ctx, obj, rs, limit)
    r = np.random.default_rng(case["seed"])
    for j, ans in enumerate(case["answers"]):
        m = [int(r.integers(1, 30)) for _ in range(case["npulses"])]
        pulses = [r.normal(size=k) * r.choice([1e-9, 1e-3, 1, 100, 1e7]) for k in m]
        times = [np.linspace(0, float(r.uniform(0.1, 5) * r.choice([1e-6, 1, 1])), k) for k in m]
        pars = [float(x) if r.random() < 0.5 else np.float64(x) for x in r.normal(size=case["nparams"])]
        val = float(r.normal())
        text = {"good": "%r\n" % val, "spaces": "  %r  \n" % val, "surplus": "%r\n7.0\nhello\n" % val, "exp": "%.17e" % val,
                "int": "3\n", "never": None, "late": "%r\n" % val, "empty": "", "word": "failed\n", "comma": "0,5\n",
                "nan": "nan\n", "inf": "inf", "negative": "-%r" % abs(val)}[ans]
        want = {"int": 3.0, "nan": float("nan"), "inf": float("inf"), "negative": -abs(val)}.get(ans, val)
        delay = limit + 2.0 + 0.1 * limit if ans == "late" else float(r.uniform(0, 1)) * max(0.0, limit - 1.0)
        if j and r.random() < 0.5 or not j and r.random() < 0.5:
            with open(rs.fpath, "w") as f:
                f.write("123456.0\n")
            ctx.count("stale_before")
        before = (os.path.exists(rs.cpath) and open(rs.cpath).read())
        rs.request(delay, text)
        t0 = clock.now_s()
        out = audited(ctx, lambda: obj.get_FoM(pulses=pulses, timegrids=times, parameters=pars),
                      os.path.basename(rs.cpath), j=j, answer=ans)
        dt = clock.now_s() - t0
        info = dict(case=case["answers"], j=j, answer=ans, out=out, took=dt, limit=limit)
        status = out.get("status_code", 0)
        silent = ans in ("never", "late")
        if not ctx.check(rs.seen is not None or (silent and dt >= limit - 1e-6), "no-controls-written", **info):
            return
        if rs.seen is not None:
            got = parse(rs.seen, case["ext"], len(pulses), m)
            tol = 0.0
            ok = got[3] and all(len(a) == len(b) and np.abs(a - b).max(initial=0) <= tol for a, b in zip(got[0], pulses))
            ok = ok and all(len(a) == len(b) and np.abs(a - b).max(initial=0) <= tol for a, b in zip(got[1], times))
            ok = ok and len(got[2]) == len(pars) and all(abs(a - b) <= tol for a, b in zip(got[2], pars))
            ctx.check(ok, "controls-handed-over", seen=rs.seen[:500], before=(before or "")[:80], **info)
            ctx.check(not rs.stale_seen, "stale-answer-present", **info)
        if silent:
            ctx.check(status != 0 and out["FoM"] is None, "answer-without-response", **info)
            ctx.check(limit - 1e-6 <= dt <= limit + 1.0 + 0.05 * limit, "time-limit", **info)
            ctx.count("timeouts")
        elif ans in ("empty", "word", "comma"):
            if limit < 1.5:
                ctx.check(status != 0 and out["FoM"] is None, "garbage-accepted", **info)
            else:
                ctx.check(status != 0 and out["FoM"] is None and dt <= limit + 1.0, "garbage-accepted", **info)
            ctx.count("garbage")
        elif limit < 1.5 and status != 0:
            ctx.check(out["FoM"] is None, "error-with-value", **info)
        else:
            same = status == 0 and isinstance(out["FoM"], float) and (out["FoM"] == want or (want != want and out["FoM"] != out["FoM"]))
            ctx.check(same, "wrong-answer", want=want, **info)
            ctx.check(dt <= delay + 1.5, "answer-noticed-late", delay=delay, **info)
            ctx.count("answers")
        ctx.cover("%s/%s/%s/p%dq%d" % (case["ext"], case["folders"], ans, len(pulses), len(pars)))
    if ctx.sample is None:
        ctx.sample = {k: case[k] for k in ("ext", "folders", "max_time", "answers")}


def whole_run(case, ctx, obj, rs, limit):
    from vf import rec
    cfg = case["cfg"]
    cfg["fom"] = {k: v for k, v in cfg["fom"].items() if k not in ("ret", "status_zero", "std")}
    ref = rec.run(cfg)
    if not ctx.check(ref.error is None, "reference-error", error=ref.error):
        return
    tr = rec.Trace(cfg)
    fn = rec.Fom(cfg["fom"])
    npl = len(cfg["opt"]["pulses"])

    def through(pulses, timegrids, parameters):
        def answer(text):
            p, t, q, _ = parse(text, case["ext"], npl, None)
            if case["die"] is not None and len(tr.evals) > case["die"]:
                return {"never": None, "word": "crashed\n", "empty": ""}[case["how"]]
            return "%r\n" % fn(p, t, q)["FoM"]
        rs.request(0.0, answer)
        return obj.get_FoM(pulses=pulses, timegrids=timegrids, parameters=parameters)

    rec.run(cfg, trace=tr, fom=rec.make_fom(tr, through))
    if not ctx.check(tr.error is None, "run-error", error=tr.error):
        return
    n = len(tr.evals)
    want_n = len(ref.evals) if case["die"] is None else min(len(ref.evals), case["die"] + 1)
    ctx.check(n == want_n, "evaluations", got=n, want=want_n, die=case["die"], how=case["how"])
    for a, b in zip(tr.evals, ref.evals):
        if not ctx.check(rec.same_controls(a, b, 0.0), "different-controls", n=a["n"]):
            return
        if case["die"] is None or a["n"] < case["die"]:
            ctx.check(a["fom"] == b["fom"], "different-value", n=a["n"], got=a["fom"], want=b["fom"])
        else:
            ctx.check(a["fom"] is None and a["status"] != 0, "value-without-answer", n=a["n"], got=a["fom"])
    ctx.count("run_evaluations", n)
    ctx.count("runs")
    if case["die"] is not None and case["die"] < len(ref.evals):
        ctx.count("run_cut")
    best = tr.best_value()
    if best is not None:
        got = (tr.final() or {}).get("Figure of merit")
        ctx.check(got is not None and abs(got - best) <= 1e-9 * max(1.0, abs(best)), "result", got=got, want=best)
    ctx.cover("run/%s/%s/%s" % (case["folders"], case["how"] if case["die"] is not None else "-", cfg["opt"]["algorithm_settings"]["algorithm_name"]))

"""Runner shared by all checks: case pool, verdicts, evidence, replay, known findings."""
import hashlib
import importlib
import json
import multiprocessing as mp
import os
import random
import shutil
import signal
import sys
import tempfile
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VF_REPO", "/repo")
NPROC = int(os.environ.get("VF_NPROC", "0")) or min(8, os.cpu_count() or 1)
QUICK_BUDGET = 60.0
THOROUGH_BUDGET = 600.0
CASE_LIMIT = 60          # wall watchdog per case: firing is inconclusive, never a violation


class Runaway(BaseException):
    """Raised by the harness when a logical step budget of a run is exhausted."""


class Watchdog(BaseException):
    """Wall clock watchdog, inconclusive."""


class Ctx:
    """What a case reports."""

    def __init__(self, case, tier="quick"):
        self.case = case
        self.tier = tier
        self.viols = []
        self.known = []
        self.keys = set()
        self.counts = {}
        self.sample = None
        self.inconclusive = None

    def viol(self, tag, **data):
        if len(self.viols) < 20:
            self.viols.append({"tag": tag, "data": jsonable(data)})

    def check(self, ok, tag, **data):
        if not ok:
            self.viol(tag, **data)
        return bool(ok)

    def known_finding(self, key, what):
        self.known.append([key, what])

    def count(self, name, n=1):
        self.counts[name] = self.counts.get(name, 0) + int(n)

    def cover(self, key):
        """A distinct non-trivial situation the monitor actually judged."""
        self.keys.add(str(key))


def jsonable(o, depth=0):
    if depth > 6:
        return repr(o)[:200]
    if isinstance(o, dict):
        return {str(k): jsonable(v, depth + 1) for k, v in list(o.items())[:60]}
    if isinstance(o, (list, tuple, set)):
        return [jsonable(v, depth + 1) for v in list(o)[:60]]
    if isinstance(o, (str, int, bool)) or o is None:
        return o if not isinstance(o, str) else o[:600]
    if isinstance(o, float):
        return o if o == o and abs(o) != float("inf") else repr(o)
    if hasattr(o, "tolist"):
        return jsonable(o.tolist(), depth + 1)
    return repr(o)[:300]


def setup_import():
    """Make `import quocslib` load the sources of REPO, compiled afresh."""
    src = os.path.join(REPO, "src")
    if src not in sys.path:
        sys.path.insert(0, src)
    sys.dont_write_bytecode = True
    sys.pycache_prefix = os.path.join(os.environ["VF_SCRATCH"], "nopyc")
    import quocslib
    here = os.path.realpath(os.path.dirname(quocslib.__file__))
    if not here.startswith(os.path.realpath(src) + os.sep):
        raise RuntimeError("quocslib imported from %s instead of %s" % (here, src))


def worker_init(check_id, tier, scratch, quiet):
    os.environ["VF_SCRATCH"] = scratch
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    mydir = tempfile.mkdtemp(prefix="w", dir=scratch)
    os.chdir(mydir)
    if quiet:
        null = os.open(os.devnull, os.O_WRONLY)
        os.dup2(null, 1)
        os.dup2(null, 2)
    global MOD, TIER
    TIER = tier
    MOD = importlib.import_module("checks." + check_id.lower())
    if hasattr(MOD, "before_import"):
        MOD.before_import()
    setup_import()
    if hasattr(MOD, "worker_init"):
        MOD.worker_init()


def _alarm(*_):
    raise Watchdog()


def run_case(case):
    """Run one case in this process; returns a plain dict."""
    t0 = time.perf_counter()
    ctx = Ctx(case, TIER)
    d = tempfile.mkdtemp(prefix="c", dir=os.getcwd())
    home = os.getcwd()
    os.chdir(d)
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(int(getattr(MOD, "CASE_LIMIT", CASE_LIMIT)))
    try:
        MOD.run(case, ctx)
    except Watchdog:
        ctx.inconclusive = "wall watchdog"
    except Runaway as e:
        signal.alarm(0)
        if hasattr(MOD, "on_runaway"):
            MOD.on_runaway(case, ctx, e)
        else:
            ctx.viol("runaway", what=str(e))
    except Exception as e:
        signal.alarm(0)
        # an unexpected exception out of the library is a violation, one of the harness is an error of the check
        if from_repo(e):
            ctx.viol("exception", trace=traceback.format_exc()[-3000:])
        else:
            raise RuntimeError("harness: " + traceback.format_exc()[-1500:]) from None
    finally:
        signal.alarm(0)
        os.chdir(home)
        shutil.rmtree(d, ignore_errors=True)
    return {"case": case, "viols": ctx.viols, "known": ctx.known, "keys": sorted(ctx.keys), "counts": ctx.counts,
            "sample": ctx.sample, "inconclusive": ctx.inconclusive, "dt": time.perf_counter() - t0}


def from_repo(e):
    src = os.path.realpath(os.path.join(REPO, "src")) + os.sep
    while e is not None:
        tb = e.__traceback__
        while tb is not None:
            if os.path.realpath(tb.tb_frame.f_code.co_filename).startswith(src):
                return True
            tb = tb.tb_next
        e = e.__cause__ or e.__context__
    return False


def load_known():
    """known_findings.txt: lines 'known: property=<id> key=<key> <what>' or 'fixed: property=<id> <commit> <what>'."""
    out = {}
    path = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line.startswith("known:"):
                parts = line.split(None, 3)
                pid = parts[1].split("=", 1)[1]
                key = parts[2].split("=", 1)[1]
                out[(pid, key)] = parts[3] if len(parts) > 3 else key
    return out


def main(argv):
    cid = argv[0].upper()
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    if "--tier" in argv:
        tier = argv[argv.index("--tier") + 1]
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    mod = importlib.import_module("checks." + cid.lower())
    scratch = tempfile.mkdtemp(prefix="vf_%s_" % cid)
    rc = 2
    try:
        if "--replay" in argv:
            rc = replay(cid, argv[argv.index("--replay") + 1], tier, scratch)
        else:
            rc = run_check(cid, mod, tier, seed, scratch)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    sys.stdout.flush()
    os._exit(rc)


def replay(cid, path, tier, scratch):
    data = json.load(open(path))
    worker_init(cid, data.get("tier", tier), scratch, quiet=False)
    res = run_case(data["case"])
    print(json.dumps({k: res[k] for k in ("viols", "known", "counts", "inconclusive")}, indent=1)[:8000])
    if res["viols"]:
        print("VIOLATION property=%s replay=%s" % (cid, path))
        return 1
    return 0


def run_check(cid, mod, tier, seed, scratch):
    t0 = time.time()
    budget = (5 * getattr(mod, "QUICK_BUDGET", QUICK_BUDGET) if tier == "quick"
              else getattr(mod, "THOROUGH_BUDGET", THOROUGH_BUDGET))
    rnd = random.Random("%s-%s" % (cid, seed))
    cases = list(mod.cases(tier, rnd))
    nproc = min(NPROC, getattr(mod, "NPROC", NPROC), max(1, len(cases)))
    mpc = mp.get_context("fork")
    agg = {"n": 0, "keys": set(), "counts": {}, "viols": [], "known": {}, "incon": 0, "samples": [], "skipped": 0}
    errors = []
    pool = mpc.Pool(nproc, worker_init, (cid, tier, scratch, "VF_VERBOSE" not in os.environ))
    stop_at = t0 + budget
    hard_at = t0 + budget + 150
    try:
        it = iter(cases)
        pending = []
        exhausted = False
        while True:
            while not exhausted and len(pending) < 3 * nproc and time.time() < stop_at and len(agg["viols"]) < 12:
                c = next(it, None)
                if c is None:
                    exhausted = True
                    break
                pending.append(pool.apply_async(run_case, (c,)))
            if not pending:
                break
            progressed = False
            for r in list(pending):
                if r.ready():
                    pending.remove(r)
                    progressed = True
                    try:
                        merge(agg, r.get())
                    except Exception as e:      # harness error
                        errors.append(repr(e))
            if time.time() > hard_at:
                errors.append("hard wall limit, %d cases pending" % len(pending))
                break
            if not progressed:
                time.sleep(0.003)
        agg["skipped"] = sum(1 for _ in it)
    finally:
        pool.terminate()
    known_list = load_known()
    # classify: listed known findings are quiet, everything else is a violation
    for key, what in sorted(agg["known"].items()):
        if (cid, key) in known_list:
            print("KNOWN-FINDING: property=%s %s" % (cid, known_list[(cid, key)]))
        else:
            agg["viols"].append({"case": what["case"], "tag": "unlisted-finding:" + key, "data": what["what"]})
    wall = time.time() - t0
    ev = {"property": cid, "tier": tier, "seed": seed, "level": mod.LEVEL,
          "coverage": {"evaluations": agg["n"], "distinct_nontrivial": len(agg["keys"]), "rule": mod.RULE,
                       "samples": agg["samples"][:3], "events": dict(sorted(agg["counts"].items())),
                       "situations": sorted(agg["keys"])[:60], "inconclusive_cases": agg["incon"],
                       "not_run_for_time": agg["skipped"]},
          "assumptions": list(getattr(mod, "ASSUMPTIONS", [])), "wall_s": round(wall, 2),
          "violations": len(agg["viols"])}
    if hasattr(mod, "final"):
        mod.final(agg, ev)
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    tmp = os.path.join(VERIF, "evidence", cid + ".json.tmp")
    with open(tmp, "w") as f:
        json.dump(jsonable_full(ev), f, indent=1)
    os.replace(tmp, os.path.join(VERIF, "evidence", cid + ".json"))
    print("%s tier=%s seed=%d cases=%d distinct=%d inconclusive=%d skipped=%d wall=%.1fs" % (
        cid, tier, seed, agg["n"], len(agg["keys"]), agg["incon"], agg["skipped"], wall))
    print("events: " + json.dumps(dict(sorted(agg["counts"].items()))))
    if agg["viols"]:
        seen = set()
        for v in agg["viols"]:
            if v["tag"] in seen or len(seen) >= 6:
                continue
            seen.add(v["tag"])
            rd = os.path.join(VERIF, "replays", cid)
            os.makedirs(rd, exist_ok=True)
            h = hashlib.sha1(json.dumps(v["case"], sort_keys=True, default=str).encode()).hexdigest()[:12]
            path = os.path.join(rd, "%s_%s.json" % ("".join(ch if ch.isalnum() else "_" for ch in v["tag"])[:40], h))
            with open(path, "w") as f:
                json.dump({"property": cid, "tier": tier, "seed": seed, "case": v["case"], "tag": v["tag"],
                           "data": v["data"]}, f, indent=1, default=str)
            print("  %s: %s" % (v["tag"], json.dumps(v["data"], default=str)[:700]))
            print("VIOLATION property=%s replay=%s" % (cid, path))
        return 1
    if errors:
        print("ERROR in the check: " + "; ".join(x[-700:] for x in errors[:2]))
        return 2
    for name, need in getattr(mod, "REQUIRED", {}).items():
        if agg["counts"].get(name, 0) < need:
            print("INCONCLUSIVE: monitor event %r seen %d times, needs %d" % (name, agg["counts"].get(name, 0), need))
            return 3
    if agg["incon"] > max(2, 0.2 * agg["n"]):
        print("INCONCLUSIVE: %d of %d cases hit the watchdog" % (agg["incon"], agg["n"]))
        return 3
    return 0


def jsonable_full(o):
    if isinstance(o, dict):
        return {str(k): jsonable_full(v) for k, v in o.items()}
    if isinstance(o, (list, tuple)):
        return [jsonable_full(v) for v in o]
    return jsonable(o)


def merge(agg, r):
    agg["n"] += 1
    agg["keys"].update(r["keys"])
    for k, v in r["counts"].items():
        agg["counts"][k] = agg["counts"].get(k, 0) + v
    for v in r["viols"]:
        agg["viols"].append({"case": r["case"], "tag": v["tag"], "data": v["data"]})
    for key, what in r["known"]:
        agg["known"].setdefault(key, {"case": r["case"], "what": what})
    if r["inconclusive"]:
        agg["incon"] += 1
        agg.setdefault("incon_cases", []).append(r["case"])
    if r["sample"] is not None and len(agg["samples"]) < 3:
        agg["samples"].append(r["sample"])

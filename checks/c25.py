"""C25: every run owns one new results folder, writes nowhere else, and leaves there what was asked for."""
import copy
import io
import json
import math
import os
import random
import re
import sys

LEVEL = "exploration"
RULE = ("series of optimizations in one working directory (same and different job names, same second, with and without "
        "microseconds, pre-existing folders, log file and console switches, both dump formats, numpy values in the settings) "
        "on a virtual clock; every file operation of the process is recorded by an audit hook and must fall into the new "
        "folder, older folders must stay byte-identical, a name clash must be refused, the stored settings must equal the "
        "given ones and the log must list every evaluation; plus random round trips of the json helpers; distinct by "
        "algorithm and switches")
ASSUMPTIONS = ["CMA-ES prints a line of its own to the console", "log lines end with the figure of merit"]
QUICK_BUDGET = 20
THOROUGH_BUDGET = 240
REQUIRED = {"runs": 200, "file_operations": 1000, "clashes": 20, "folders_compared": 300, "log_lines": 1000, "settings": 200,
            "json_round_trips": 200, "same_names": 8, "numpy_settings": 100, "own_dumps": 40}
OPS = None


def before_import():
    from vf import clock
    clock.install()


def worker_init():
    def hook(event, args):
        if OPS is None:
            return
        try:
            if event == "open":
                p, mode, flags = args
                if isinstance(p, int):
                    return
                w = (isinstance(mode, str) and any(c in mode for c in "wax+")) or (
                    mode is None and flags & (os.O_WRONLY | os.O_RDWR | os.O_CREAT))
                if w:
                    OPS.append(("write", os.path.abspath(os.fsdecode(p))))
            elif event in ("os.remove", "os.rmdir", "os.mkdir", "os.truncate", "os.chmod", "shutil.rmtree"):
                if not isinstance(args[0], int):
                    OPS.append((event, os.path.abspath(os.fsdecode(args[0]))))
            elif event in ("os.rename", "os.link", "os.symlink", "shutil.move", "shutil.copyfile"):
                OPS.append((event, os.path.abspath(os.fsdecode(args[0]))))
                OPS.append((event, os.path.abspath(os.fsdecode(args[1]))))
        except Exception as e:
            OPS.append(("hook-error", repr(e)))
    sys.addaudithook(hook)


def cases(tier, rnd):
    from vf import gen
    n = 1120 if tier == "quick" else 5200
    for i in range(n):
        r = random.Random(rnd.random())
        if i % 5 == 4:
            yield {"kind": "json", "seed": r.randrange(10**9)}
            continue
        runs = []
        for k in range(r.randint(2, 4)):
            cfg = gen.config(r, max_eval=r.randint(5, 14), si=r.choice([1, 2]))
            o = cfg["opt"]
            o["optimization_client_name"] = r.choice(["run", "run", "a b", "Name_%d" % k, None,
                                                       "scan_0.25", "v1.2.json", "a-b+c", "run.", "x" * 60, "_run_", "Ünit µ"])
            o["use_microsecond_name"] = r.choice([True, False, None])
            o["create_logfile"] = r.choice([True, True, False, None])
            o["console_info"] = r.choice([True, False, None])
            if r.random() < 0.4:      # out of reach
                o["algorithm_settings"]["FoM_goal"] = (1 if o["algorithm_settings"].get("optimization_direction") == "maximization" else -1) * 12345.5
            for key in [q for q in o if o[q] is None]:
                o.pop(key)
            runs.append({"cfg": cfg, "advance": r.choice([0.0, 0.0, 0.0005, 0.01, 1.0, 3600.0]), "np": r.random() < 0.3,
                         "signals": r.random() < 0.3})
        yield {"kind": "runs", "runs": runs, "pre": r.random() < 0.5}


def snapshot(root):
    out = {}
    for d, _, files in os.walk(root):
        for f in files:
            p = os.path.join(d, f)
            with open(p, "rb") as fh:
                out[p] = (fh.read(), os.stat(p).st_mtime_ns)
    return out


def plain(o):
    import numpy as np
    if isinstance(o, dict):
        return {str(k): plain(v) for k, v in o.items()}
    if isinstance(o, (list, tuple)):
        return [plain(v) for v in o]
    if isinstance(o, np.ndarray):
        return plain(o.tolist())
    if isinstance(o, np.generic):
        return o.item()
    if isinstance(o, type):
        return None
    return o


def contains(big, small, path=""):
    """small is part of big: dictionaries may gain keys, everything else is equal."""
    if isinstance(small, dict):
        if not isinstance(big, dict):
            return path
        for k, v in small.items():
            if k not in big:
                return path + "/" + k
            bad = contains(big[k], v, path + "/" + k)
            if bad:
                return bad
        return None
    if isinstance(small, list):
        if not isinstance(big, list) or len(big) != len(small):
            return path or "/"
        for i, (a, b) in enumerate(zip(big, small)):
            bad = contains(a, b, path + "/%d" % i)
            if bad:
                return bad
        return None
    return None if big == small and isinstance(big, bool) == isinstance(small, bool) else (path or "/")


def run(case, ctx):
    if case["kind"] == "json":
        return json_case(case, ctx)
    global OPS
    from vf import clock, rec
    cwd = os.getcwd()
    if case["pre"]:
        os.makedirs("QuOCS_Results/old")
        with open("QuOCS_Results/old/keep.txt", "w") as f:
            f.write("keep")
    with open("bystander.txt", "w") as f:
        f.write("mine")
    for n, rn in enumerate(case["runs"]):
        clock.advance(rn["advance"])
        cfg = rn["cfg"]
        d = copy.deepcopy(cfg["opt"])
        for name, text in cfg.get("files", {}).items():
            with open(name, "w") as f:
                f.write(text)
        for p in d["pulses"]:
            for key in ("initial_guess", "scaling_function"):
                fd = p.get(key)
                if isinstance(fd, dict):
                    if fd.pop("vf_abs", False):
                        fd["file_path"] = os.path.abspath(fd["file_path"])
                    if rn["np"] and fd["function_type"] == "list_function":
                        import numpy as np
                        fd["list_function"] = np.array(fd["list_function"])
        if rn["np"]:      # numbers which come out of numpy
            import numpy as np
            for p in d["pulses"]:
                p["bins_number"] = np.int64(p.get("bins_number", 101))
                p["amplitude_variation"] = np.float64(p.get("amplitude_variation", 0.1))
            for t in d["times"]:
                t["initial_value"] = np.float32(t["initial_value"])
            ctx.count("numpy_settings")
        given = plain(copy.deepcopy(d))
        before = snapshot(cwd)
        name = d.get("optimization_client_name", "run")
        stamp = clock.VDateTime.now().strftime("%Y%m%d_%H%M%S" + ("_%f" if d.get("use_microsecond_name") else ""))
        want = os.path.join(cwd, "QuOCS_Results", stamp + "_" + name)
        clash = os.path.isdir(want)
        out, OPS = io.StringIO(), []
        keep, sys.stdout = sys.stdout, out
        try:
            tr = rec.run(cfg, d=d, signals=rn["signals"], close=n == len(case["runs"]) - 1)
        finally:
            sys.stdout = keep
            ops, OPS = OPS, None
        after = snapshot(cwd)
        same = {p: v for p, v in after.items() if p in before}
        ctx.check(same == before, "foreign-file-changed", files=[p for p in before if same.get(p) != before[p]][:5], clash=clash)
        ctx.count("folders_compared", len(before))
        if clash:
            ctx.count("clashes")
            ctx.check(tr.error_type == "FileExistsError" and set(after) == set(before), "name-clash-accepted", error=tr.error, folder=want)
            continue
        if not ctx.check(tr.error is None, "run-error", error=tr.error):
            return
        if not ctx.check(os.path.realpath(tr.folder) == os.path.realpath(want), "folder-name", got=tr.folder, want=want):
            return
        outside = [o for o in ops if not (o[1] == want or o[1].startswith(want + os.sep)
                                          or o == ("os.mkdir", os.path.join(cwd, "QuOCS_Results"))) and o[1] != os.devnull]
        ctx.check(not outside, "wrote-outside", ops=outside[:5], folder=want)
        ctx.count("file_operations", len(ops))
        new = sorted(os.path.relpath(p, want) for p in after if p not in before)
        fmt = d.get("dump_format", "npz")
        expect = ["quocs_version.txt", stamp + "_optimization_dictionary.json", stamp + "_optimized_parameters.json"]
        if tr.best_value() is not None and abs(tr.best_value()) < 1e10:
            expect.append(stamp + "_best_controls." + fmt)
        if given.get("create_logfile", True):
            expect.append(stamp + "_logging.log")
        ctx.check(new == sorted(expect), "files-in-folder", got=new, want=sorted(expect))
        with open(os.path.join(want, stamp + "_optimization_dictionary.json")) as f:
            stored = json.load(f)
        bad = contains(stored, given)
        ctx.check(bad is None, "stored-settings", where=bad)
        bad = contains(plain(d), given)
        ctx.check(bad is None, "user-settings-changed", where=bad)
        ctx.count("settings")
        import quocslib
        with open(os.path.join(want, "quocs_version.txt")) as f:
            ctx.check(quocslib.__VERSION__ in f.read(), "version-file")
        text = out.getvalue()
        vals = [(e["n"] + 1, e["fom"]) for e in tr.valid()]
        for where, on, txt in (("file", given.get("create_logfile", True), tr.logtext()),
                               ("console", given.get("console_info", True), text)):
            lines = [(int(a), float(b)) for a, b in re.findall(r"evaluation number: (\d+).*?FoM: (\S+)\s*$", txt, re.M)]
            if on:
                ok = [a for a, _ in lines] == [a for a, _ in vals] and all(
                    abs(x[1] - y[1]) <= 1e-9 * max(1, abs(y[1])) for x, y in zip(lines, vals))
                ctx.check(ok, "log-" + where, got=lines[:10], want=vals[:10])
                ctx.count("log_lines", len(lines))
            else:
                ctx.check(not lines and "oc_logger" not in txt, "switched-off-log-" + where, got=txt[:300])
        ctx.count("runs")
        ctx.cover("%s/%s/log%s/con%s/us%s" % (cfg["opt"]["algorithm_settings"]["algorithm_name"], fmt, given.get("create_logfile"),
                                              given.get("console_info"), given.get("use_microsecond_name")))
    if ctx.sample is None:
        ctx.sample = {"runs": [[rn["cfg"]["opt"].get("optimization_client_name"), rn["advance"]] for rn in case["runs"]]}


def json_case(case, ctx):
    import numpy as np
    from quocslib.utils.BestDump import BestDump
    from quocslib.utils.inputoutput import readjson, writejsonfile
    r = np.random.default_rng(case["seed"])

    def value(depth=0):
        k = r.integers(9 if depth < 3 else 6)
        if k == 0:
            return float(r.normal() * 10.0 ** r.integers(-12, 12))
        if k == 1:
            return int(r.integers(-10**9, 10**9))
        if k == 2:
            return "".join(chr(int(c)) for c in r.choice([32, 34, 92, 10, 65, 228, 8364], 5))
        if k == 3:
            return bool(r.random() < 0.5)
        if k == 4:
            return None
        if k == 5 and r.random() < 0.4:
            return [np.int64(r.integers(-99, 99)), np.float32(r.normal()), np.bool_(r.random() < 0.5), np.uint8(r.integers(256)),
                    np.float64(r.normal())][int(r.integers(5))]
        if k == 5:
            return r.normal(size=tuple(int(v) for v in r.integers(0, 4, size=int(r.integers(1, 3)))))
        if k == 6:
            return [value(depth + 1) for _ in range(int(r.integers(0, 4)))]
        return {"k%d" % i: value(depth + 1) for i in range(int(r.integers(0, 4)))}

    for j in range(6):
        data = {"k%d" % i: value() for i in range(4)}
        rc = writejsonfile("d.json", data)
        ctx.check(rc == 0 and readjson("d.json") == plain(data), "json-round-trip", data=data)
        ctx.count("json_round_trips")
    rc = writejsonfile("d.json", {"f": plain, "l": [lambda t: t], "c": dict, "x": 1})
    ctx.check(rc == 0 and readjson("d.json") == {"f": None, "l": [None], "c": None, "x": 1}, "callable-not-null")
    ctx.check(writejsonfile("no/such/folder/d.json", {}) != 0 and not os.path.exists("no"), "unwritable-not-reported")
    ctx.check(writejsonfile("bad.json", {"x": object()}) != 0, "unserialisable-not-reported")
    for text in ("", "{", "[1,]", "nonsense", '{"a": 1} x'):
        with open("m.json", "w") as f:
            f.write(text)
        ctx.check(readjson("m.json") is None, "malformed-json", text=text)
    ctx.check(readjson("absent.json") is None, "absent-json")
    # other data of the user
    os.makedirs("other", exist_ok=True)
    du = BestDump("other", "stamp", r.choice(["npz", "json"]))
    arr = r.normal(size=[(7,), (3, 4), (1,)][int(r.integers(3))]) * 10.0 ** r.integers(-12, 9)
    du.other_dumps("own.txt", arr)
    back = np.loadtxt(os.path.join("other", "own.txt"))
    ctx.check(back.shape == np.squeeze(arr).shape and bool(np.array_equal(back, np.squeeze(arr))), "other-dump", got=back, want=arr)
    data = {"list": [1, 2.5, None], "arr": arr, "f32": np.float32(0.5), "n": np.int64(7), "long": np.longdouble(0.25), "s": "x"}
    du.dump_dict("own", data)
    with open(os.path.join("other", "stamp_own.json")) as f:
        back = json.load(f)
    ctx.check(back == {**data, "arr": arr.tolist(), "f32": 0.5, "n": 7, "long": 0.25}, "dict-dump", got=back, want=data)
    ctx.check(sorted(os.listdir("other")) == ["own.txt", "stamp_own.json"], "other-files", got=os.listdir("other"))
    ctx.count("own_dumps")
    # controls which share a name are all kept
    n, q = int(r.integers(1, 4)), int(r.integers(0, 4))
    dup = r.random() < 0.6
    names = ["A"] * n if dup else ["P%d" % i for i in range(n)]
    pnames = (["A"] * q if r.random() < 0.3 else ["q"] * q) if dup else ["Q%d" % i for i in range(q)]
    if dup and r.random() < 0.6:      # names which meet numbered names, and the names of the other entries
        pool = ["A", "A1", "A2", "A3", "A11", "FoM", "iteration_number", "sigma"]
        names = [pool[int(r.integers(5))] for _ in range(n)]
        pnames = [pool[int(r.integers(len(pool)))] for _ in range(q)]
    if not dup and r.random() < 0.3:      # names which mean something to whoever writes the file
        pool = ["file", "allow_pickle", "arr_0", "args", "self", "data", "a b", "x/y", "is_record", "pulses"]
        k = [str(v) for v in r.permutation(pool)]
        names, pnames, dup = k[:n], k[n:n + q], True
    pulses = [r.normal(size=int(r.integers(1, 9))) for _ in range(n)]
    times = [np.linspace(0, 1 + i, len(p)) for i, p in enumerate(pulses)]
    pars = [float(v) for v in r.normal(size=q)]
    fmt = str(r.choice(["npz", "json"]))
    os.makedirs("d")
    dump = BestDump("d", "stamp", fmt)
    dump.dump_controls(pulses=pulses, timegrids=times, parameters=pars, is_record=False, pulse_names=names, parameter_names=pnames)
    ctx.check(os.listdir("d") == [], "dumped-without-record")
    dump.dump_controls(pulses=pulses, timegrids=times, parameters=pars, is_record=True, pulse_names=names, parameter_names=pnames, FoM=0.25, iteration_number=7, sigma=0.5)
    from vf import rec
    got = rec.read_controls("d")
    flat = [np.asarray(v, dtype=float) for k, v in got.items() if not k.endswith("names")]
    for x in pulses + times + [np.array(v) for v in pars]:
        ctx.check(any(np.shape(x) == np.shape(v) and np.array_equal(x, v) for v in flat), "control-lost", names=names, pnames=pnames,
                  keys=sorted(got), fmt=fmt)
    for i, name in enumerate(names + pnames):       # a name which nobody else has is kept
        if (names + pnames).count(name) == 1 and not any(o != name and name.startswith(o) for o in names + pnames + ["FoM"]) \
                and name not in ("FoM", "iteration_number", "sigma") and (fmt == "json" or name not in ("file", "allow_pickle")):
            x = pulses[i] if i < n else np.array(pars[i - n])
            ctx.check(name in got and np.array_equal(np.asarray(got[name], dtype=float), x), "control-renamed", names=names, pnames=pnames, keys=sorted(got))
    ctx.check(float(got["FoM"]) == 0.25 and int(got["iteration_number"]) == 7, "extra-lost")
    if dup and n + q > 1:
        ctx.count("same_names")
    ctx.cover("json/%s/%d%d%s" % (fmt, n, q, dup))

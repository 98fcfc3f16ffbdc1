#!/usr/bin/env python3
"""run.py LIST [ID ...] [--checks C01,C02] [--tests] [--all]: apply planted changes in scratch copies, run the checks."""
import sys, os, shutil, subprocess, importlib.util, json, time
HERE = os.path.dirname(os.path.abspath(__file__)); VERIF = os.path.dirname(os.path.dirname(HERE))
def load(f):
    s = importlib.util.spec_from_file_location("l", f); mod = importlib.util.module_from_spec(s); s.loader.exec_module(mod); return mod.M
args = [a for a in sys.argv[1:] if not a.startswith("--")]; flags = [a for a in sys.argv[1:] if a.startswith("--")]
M = load(os.path.join(HERE, args[0])); ids = args[1:]
ov = [f.split("=")[1].split(",") for f in flags if f.startswith("--checks=")]
for x in M:
    if ids and x["id"] not in ids: continue
    d = "/tmp/mut/%s" % x["id"]
    shutil.rmtree(d, ignore_errors=True); os.makedirs(d); subprocess.check_call(["cp", "-a", "/repo/src", d + "/src"])
    ok = True
    for f, old, new in x["edits"]:
        p = d + "/src/quocslib/" + f; t = open(p).read()
        if t.count(old) != 1: print("%-22s BAD EDIT %s (%d matches)" % (x["id"], f, t.count(old))); ok = False; break
        open(p, "w").write(t.replace(old, new))
    if not ok: shutil.rmtree(d); continue
    res = []
    for c in (ov[0] if ov else x["props"]):
        t0 = time.time()
        r = subprocess.run(["bash", VERIF + "/check.sh", c], env={**os.environ, "VF_REPO": d, "VERIF_SEED": "1", "VERIF_TIER": "quick"}, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        v = [l for l in r.stdout.splitlines() if l.startswith("VIOLATION")]
        res.append("%s:%s(%.0fs)" % (c, {0: "missed", 1: "CAUGHT"}.get(r.returncode, "rc%d" % r.returncode), time.time() - t0))
        if r.returncode not in (0, 1): res.append(r.stdout[-600:])
    print("%-22s %s" % (x["id"], " ".join(res)), flush=True)
    shutil.rmtree(d)

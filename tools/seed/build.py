#!/usr/bin/env python3
"""build.py [ID ...]: write the planted bugs defined in seeds*.py into /verif/seeded and confirm each (demo, tests)."""
import os, sys, shutil, subprocess, json, importlib.util, glob, re
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.abspath(__file__)); OUT = os.path.join(os.path.dirname(os.path.dirname(HERE)), "seeded")
SEEDS = []
for f in sorted(glob.glob(HERE + "/seeds*.py")):
    s = importlib.util.spec_from_file_location(os.path.basename(f)[:-3], f); m = importlib.util.module_from_spec(s); s.loader.exec_module(m); SEEDS += m.SEEDS
want = [a for a in sys.argv[1:] if not a.startswith("-")]
notests = "--notests" in sys.argv
stable = set(json.load(open("/opt/vp/BASELINE.json")).get("stable", json.load(open("/opt/vp/BASELINE.json")).get("passing", [])) or [])
def one(s):
    d = os.path.join(OUT, s["id"]); w = "/tmp/seed/" + s["id"]
    shutil.rmtree(w, ignore_errors=True); shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
    subprocess.check_call(["git", "clone", "-q", "/repo", w])
    for f, old, new in s["edits"]:
        p = w + "/src/quocslib/" + f; t = open(p, newline="").read()
        if "\r\n" in t: old, new = old.replace("\n", "\r\n"), new.replace("\n", "\r\n")
        if t.count(old) != 1: return s["id"], "BAD EDIT %s %d" % (f, t.count(old))
        open(p, "w", newline="").write(t.replace(old, new))
    diff = subprocess.check_output(["git", "-C", w, "diff"])
    open(d + "/patch.diff", "wb").write(diff)
    open(d + "/demo.sh", "w").write('#!/bin/bash\n# run in the repository; %s\nD="$(cd "$(dirname "$0")" && pwd)"\nexport PYTHONDONTWRITEBYTECODE=1 JAX_PLATFORMS=cpu MPLBACKEND=Agg OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1\nexec timeout 250 /opt/venv/bin/python -B -W ignore "$D/demo.py"\n' % s["property"])
    os.chmod(d + "/demo.sh", 0o755)
    shutil.copy(HERE + "/lib.py", d + "/demo_lib.py")
    open(d + "/demo.py", "w").write("from demo_lib import *\n\n" + s["demo"].strip("\n") + '\n\nprint("ok")\n')
    json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(d + "/meta.json", "w"), indent=1)
    # original lines?
    msg = []
    base = "d00ef0d"
    bl = subprocess.run(["git", "-C", w, "diff", "-U0"], stdout=subprocess.PIPE, text=True).stdout
    cur = None
    for l in bl.splitlines():
        if l.startswith("--- a/"): cur = l[6:]
        mm = re.match(r"@@ -(\d+)(?:,(\d+))? ", l)
        if mm:
            a, n = int(mm.group(1)), int(mm.group(2) or 1)
            if n == 0: continue
            b = subprocess.check_output(["git", "-C", w, "blame", "-l", "-L%d,+%d" % (a, n), "HEAD", "--", cur], text=True)
            for x in b.splitlines():
                if subprocess.run(["git", "-C", w, "merge-base", "--is-ancestor", x.split()[0].lstrip("^"), base]).returncode: msg.append("OWN-LINE " + x[:100])
    r1 = subprocess.run(["bash", d + "/demo.sh"], cwd="/repo", stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    r2 = subprocess.run(["bash", d + "/demo.sh"], cwd=w, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r1.returncode: msg.append("CLEAN FAILS: " + r1.stdout[-900:])
    if not r2.returncode: msg.append("PATCHED PASSES")
    elif "FAILED:" not in r2.stdout: msg.append("patched: " + r2.stdout[-700:])
    if not notests and not msg:
        env = dict(os.environ, PYTHONPATH=w + "/src:/opt/vp/lib", PYTHONDONTWRITEBYTECODE="1", JAX_PLATFORMS="cpu", MPLBACKEND="Agg", OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1")
        x = w + "_j.xml"
        subprocess.run(["/opt/venv/bin/python", "-m", "pytest", "-q", "-p", "no:cacheprovider", "-p", "vp_isolate", "--timeout=300", "--continue-on-collection-errors", "-n", "4", "--dist", "loadfile", "-o", "junit_family=xunit2", "--junitxml=" + x], cwd=w, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        o = w + "_o.json"; subprocess.run(["/opt/venv/bin/python", "/opt/vp/results.py", o, "junit:" + x], stdout=subprocess.DEVNULL)
        try:
            j = json.load(open(o)); msg.append("tests: passed %s stable-failed %s" % (len(j.get("passed", [])), sorted(stable - set(j.get("passed", [])))))
        except Exception as e: msg.append("tests? %r" % e)
        for q in (x, o):
            if os.path.exists(q): os.remove(q)
    shutil.rmtree(w)
    return s["id"], "; ".join(msg) + " | " + (r2.stdout.strip().splitlines() or ["-"])[-1][:150]
with ThreadPoolExecutor(3 if not notests else 7) as ex:
    for i, r in ex.map(one, [s for s in SEEDS if not want or s["id"] in want]): print("%-26s %s" % (i, r), flush=True)

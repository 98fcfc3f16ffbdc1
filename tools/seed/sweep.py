#!/usr/bin/env python3
"""sweep.py [ID ...] [--all]: apply every planted bug in a scratch copy and run the check of its property (--all: every check)."""
import os, sys, shutil, subprocess, json
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
want = [a for a in sys.argv[1:] if not a.startswith("-")]
allc = ["C%02d" % i for i in range(1, 100) if os.path.exists("%s/checks/c%02d.py" % (V, i))]
for i in sorted(os.listdir(V + "/seeded")):
    if want and i not in want: continue
    prop = json.load(open("%s/seeded/%s/meta.json" % (V, i)))["property"]
    w = "/tmp/sweep/" + i
    shutil.rmtree(w, ignore_errors=True); os.makedirs(w); subprocess.check_call(["cp", "-a", "/repo/src", w + "/src"])
    subprocess.check_call(["git", "apply", "--unsafe-paths", "--directory=" + w, "%s/seeded/%s/patch.diff" % (V, i)], cwd="/")
    out = []
    for c in (allc if "--all" in sys.argv else [prop]):
        r = subprocess.run(["bash", V + "/check.sh", c], env=dict(os.environ, VF_REPO=w, VERIF_SEED="1", VERIF_TIER="quick"), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode == 1: out.append(c)
        elif r.returncode: out.append("%s:rc%d" % (c, r.returncode))
    print("%-24s %s %s %s" % (i, prop, "CAUGHT" if prop in out else "missed", " ".join(out)), flush=True)
    shutil.rmtree(w)

"""Rewrites the table of planted bugs of DESIGN.md from seeded/*/meta.json and caught.txt (output of sweep.py --all)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
caught = {}
for l in open(V + "/tools/seed/caught.txt"):
    w = l.split()
    if len(w) >= 3:
        caught[w[0]] = " ".join(w[3:])
rows = []
for i in sorted(os.listdir(V + "/seeded")):
    m = json.load(open("%s/seeded/%s/meta.json" % (V, i)))
    rows.append((m["property"], i, m["needs"], m["what_it_breaks"], caught.get(i, "?") or "none"))
rows.sort()
out = ["%d planted bugs, %d caught by the check of their own property.\n" % (len(rows), sum(r[0] in r[4].split() for r in rows)),
       "| property | bug | needs | breaks | caught by |", "|---|---|---|---|---|"]
out += ["| %s | %s | %s | %s | %s |" % r for r in rows]
s = open(V + "/DESIGN.md").read()
a, b = "<!-- planted -->", "<!-- end planted -->"
s = s[:s.index(a) + len(a)] + "\n\n" + "\n".join(out) + "\n\n" + s[s.index(b):]
open(V + "/DESIGN.md", "w").write(s)

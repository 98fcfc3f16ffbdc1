"""Rewrites the generated table of DESIGN.md between the markers."""
import ast, json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
man = {c["property"]: c for c in json.load(open(V + "/MANIFEST.json"))["checks"]}
out = []
for l in open(V + "/properties.jsonl"):
    p = json.loads(l)
    t = ast.parse(open(V + "/checks/%s.py" % p["id"].lower()).read())
    v = {n.targets[0].id: ast.literal_eval(n.value) for n in t.body if isinstance(n, ast.Assign) and n.targets[0].id in ("RULE", "ASSUMPTIONS", "REQUIRED")}
    m = man[p["id"]]
    out.append("### %s %s\n\nMethod: %s (%s).\n\nWorkload and oracle: %s.\n\nBounds: %s %s\n\nWhy the tests cannot: %s.\n\nMinimum observed events (quick): %s.\n" % (
        p["id"], p["title"], m["technique"], m["level"], v["RULE"], m["level_note"],
        ("Assumes: " + "; ".join(v["ASSUMPTIONS"]) + ".") if v.get("ASSUMPTIONS") else "", p["why_tests_cant"],
        ", ".join("%s %d" % x for x in v["REQUIRED"].items())))
s = open(V + "/DESIGN.md").read()
a, b = "<!-- generated -->", "<!-- end generated -->"
s = s[:s.index(a) + len(a)] + "\n\n" + "\n".join(out) + "\n" + s[s.index(b):]
open(V + "/DESIGN.md", "w").write(s)

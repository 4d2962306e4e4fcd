"""Rewrites the table of planted bugs in DESIGN.md from seeding/results.json."""
import json, os
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
r = json.load(open(H + "/seeding/results.json"))
out = ["| planted bug | property | what it breaks | needs | check | reported as |", "|---|---|---|---|---|---|"]
for k in sorted(os.listdir(H + "/seeded")):
    m = json.load(open(H + "/seeded/%s/meta.json" % k)); v = r.get(k, {})
    by = "; ".join(b.replace("counterexample: ", "") for b in v.get("by", []))[:110]
    e = lambda s: " ".join(str(s).split()).replace("|", "\\|")
    out.append("| %s | %s | %s | %s | %s | %s |" % (k, m["property"], e(m["what_it_breaks"]), e(m["needs"]), "caught" if v.get("check") == 1 else "missed", e(by)))
d = open(H + "/DESIGN.md").read()
a, b = "<!-- planted -->\n", "<!-- /planted -->\n"
i, j = d.index(a) + len(a), d.index(b)
open(H + "/DESIGN.md", "w").write(d[:i] + "\n".join(out) + "\n" + d[j:])

#!/usr/bin/env python3
"""Rewrites the planted-bug table of DESIGN.md from seeded/*/meta.json and
tools/seeded_results.json ({bug: {property: "caught"|"missed"}}; run by hand)."""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
res = json.load(open(V + "/tools/seeded_results.json"))
t = ["<!-- seeded -->", "## 5. Planted bugs", "",
     "Each is a patch in seeded/<id> with a demonstration; `Caught by` lists the checks",
     "that reported it in 20 s of search.", "",
     "| Bug | Property | Needs | Caught by |", "|---|---|---|---|"]
for d in sorted(os.listdir(V + "/seeded")):
    m = json.load(open(V + "/seeded/%s/meta.json" % d))
    r = res.get(d, {})
    t.append("| %s | %s | %s | %s |" % (d, m["property"], m["needs"], ", ".join(sorted(p for p in r if r[p] == "caught")) or "none"))
t.append("<!-- /seeded -->")
s = open(V + "/DESIGN.md").read()
s = re.sub(r"<!-- seeded -->.*<!-- /seeded -->", lambda _: "\n".join(t), s, flags=re.S)
open(V + "/DESIGN.md", "w").write(s)

#!/usr/bin/env python3
"""Development tool: rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json (which carry what the checks said)."""
import glob, json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ["| bug | property | caught by its check | what it breaks | needs |", "|---|---|---|---|---|"]
for f in sorted(glob.glob(V + "/seeded/*/meta.json"), key=lambda f: (json.load(open(f))["property"], f)):
    m = json.load(open(f))
    rows.append("| %s | %s | %s | %s | %s |" % (os.path.basename(os.path.dirname(f)), m["property"], m.get("caught", "yes"), m["what_it_breaks"], m["needs"]))
p = V + "/DESIGN.md"
s = open(p).read()
a, b = s.split("<!-- seeded -->")[0], s[s.index("## Not applicable"):]
open(p, "w").write(a + "<!-- seeded -->\n" + "\n".join(rows) + "\n\n" + b)

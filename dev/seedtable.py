#!/usr/bin/env python3
"""Rewrite the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import glob, json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ["| planted bug | property | needs | quick check |", "|---|---|---|---|"]
for d in sorted(glob.glob(V + "/seeded/*/meta.json"), key=lambda p: int(re.search(r"/s(\d+)", p).group(1))):
    m = json.load(open(d))
    rows.append("| %s | %s | %s | %s catches it |" % (os.path.basename(os.path.dirname(d)), m["property"], m["needs"].replace("|", "/"), m["property"]))
p = V + "/DESIGN.md"
t = open(p).read()
a, b = t.index("<!-- seeded table -->"), t.index("<!-- end -->")
t = t[:a] + "<!-- seeded table -->\n" + "\n".join(rows) + "\n" + t[b:]
open(p, "w").write(t)

#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md (section 7) from seeded/*/meta.json."""
import json, glob, os, re
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
rows = {}
for f in sorted(glob.glob(V + "/seeded/*/meta.json")):
    m = json.load(open(f))
    rows.setdefault(m["property"], []).append((os.path.basename(os.path.dirname(f)), m["what_it_breaks"], m["needs"]))
t = ["| property (its check catches them) | planted bugs: what they break (what it takes) |", "|---|---|"]
for p in sorted(rows):
    t.append("| %s | %s |" % (p, "; ".join("**%s** %s (%s)" % r for r in rows[p])))
s = open(V + "/DESIGN.md").read()
a = s.index("<!-- table -->")
open(V + "/DESIGN.md", "w").write(s[:a] + "<!-- table -->\n" + "\n".join(t) + "\n")

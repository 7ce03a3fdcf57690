#!/usr/bin/env python3
"""Runs every analysis once on the current tree and records which properties each has obligations of (checks/tags.json).
With names as arguments, only runs matching one of them are redone."""
import json, os, re, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "checks"))
import engine, runs
pat = sys.argv[1:]
todo = [r for r in runs.RUNS if not pat or any(re.search(p, r["name"]) for p in pat)]
b = engine.Build()
try:
    res = engine.run_all(b, todo, 1200)
finally:
    b.close()
names = {r["name"] for r in runs.RUNS}
tags = {k: v for k, v in runs.TAGS.items() if k in names}
for r in sorted(res, key=lambda r: -r["seconds"]):
    if "error" in r:
        print(r["name"], r["error"])
        continue
    tags[r["name"]] = sorted({o["property"] for o in r["obligations"]} | {m.split("|")[0] for m in r["reached"] if re.match(r"C\d\d\|", m)})
    bad = [(o["site"], o["msg"]) for o in r["obligations"] if o["violated"] or o["unknown"]]
    print("%-20s %6.1f s  %5d proven  bad %s %s %s" % (r["name"], r["seconds"], sum(o["proven"] for o in r["obligations"]), bad[:2], r["incomplete"][:1], r["unmodelled"][:2]), ",".join(tags[r["name"]]))
json.dump(tags, open(runs._f, "w"), indent=0, sort_keys=True)

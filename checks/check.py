#!/usr/bin/env python3
"""check.py PROPERTY: decide one property of /repo's current sources. Exit 0 holds, 1 violated, 2 no answer."""
import json, os, re, sys, time, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import engine, runs, rules

VERIF = engine.VERIF
CUTS = {"bounds", "string", "uninit", "uninit-pointer", "null", "lifetime", "double-free", "bad-free", "hang", "assert", "exit", "overlap", "const", "divide", "stack", "trap", "call"}


def known_findings(prop):
    """lines of known_findings.txt: `known: property=<id> <key> | text` suppress the finding with that key"""
    out = {}
    f = os.path.join(VERIF, "known_findings.txt")
    for l in open(f) if os.path.exists(f) else []:
        m = re.match(r"known: property=(\S+) (\S.*?) \| (.*)", l.strip())
        if m and m.group(1) == prop:
            out[m.group(2)] = m.group(3)
    return out


def main():
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    t0 = time.time()
    known = known_findings(prop)
    findings = []   # (key, text)
    unknown = []    # obligations not decided
    broken = []
    cov = {"rule": "", "runs": [], "obligations": 0, "proven": 0, "undecided": 0, "functions": [], "rules": []}
    build = engine.Build()
    try:
        todo = [r for r in runs.RUNS if prop in runs.serves(r) and (tier == "thorough" or r["tier"] == "quick")]
        if os.environ.get("M38_RUNS"):
            todo = [r for r in todo if re.search(os.environ["M38_RUNS"], r["name"])]
        res = engine.run_all(build, todo, 240 if tier == "quick" else 1200) if todo else []
        funcs = set()
        for r in res:
            spec = next(x for x in todo if x["name"] == r["name"])
            if "error" in r:
                broken.append("run %s: %s" % (r["name"], r["error"]))
                continue
            funcs.update(r["functions"])
            mine = [o for o in r["obligations"] if o["property"] == prop]
            n = {k: sum(o[k] for o in mine) for k in ("proven", "unknown", "violated")}
            cov["runs"].append({"run": r["name"], "entry": r["entry"], "contracts": sorted(spec["contracts"]), "parameters": spec["sets"], "seconds": r["seconds"],
                                "instructions": r["steps"], "joins": r["joins"], "loop_invariants": r["loops"], "obligation_sites": len(mine),
                                "sites_by_kind": {k: len({o["site"] for o in mine if o["kind"] == k}) for k in sorted({o["kind"] for o in mine})}, **n})
            cov["obligations"] += sum(n.values())
            cov["proven"] += n["proven"]
            cov["undecided"] += n["unknown"]
            viol = [o for o in mine if o["violated"]]
            for o in viol:
                findings.append(("%s: %s" % (o["site"], o["msg"]), "%s at %s: %s [run %s]" % (o["msg"], o["site"], o["detail"], r["name"])))
            # undefined behaviour or an abnormal end cuts a path short: what this property says about the rest is then not shown
            for o in r["obligations"]:
                if o["violated"] and o["property"] != prop and o["kind"] in CUTS:
                    findings.append(("%s: %s" % (o["site"], o["msg"]), "the property rests on this (%s): %s at %s: %s [run %s]" % (o["property"], o["msg"], o["site"], o["detail"], r["name"])))
            for o in mine:
                if o["unknown"] and not o["violated"]:
                    unknown.append((r["name"], o))
            anyviol = any(o["violated"] for o in r["obligations"])
            why = ["not modelled: " + x for x in r["unmodelled"]] + r["incomplete"]
            if why and not viol:
                broken.append("run %s: %s" % (r["name"], "; ".join(why)[:300]))
            for m in spec["must"]:
                p, what = m.split("|", 1)
                if m not in r["reached"] and not (p == "C29" and any(x.split("|", 1)[1] == what for x in r["reached"])):
                    if p == prop and not why:
                        findings.append(("%s: %s" % (r["name"], what), "no path of %s on which %s [run %s]" % (r["entry"], what, r["name"])))
                    elif not anyviol and not why:
                        cov.setdefault("notes", []).append("run %s does not reach: %s" % (r["name"], what))
                elif p == prop:
                    cov["obligations"] += 1
                    cov["proven"] += 1
            if not mine and not spec["must"] and not anyviol:
                broken.append("run %s produced no obligation of %s" % (r["name"], prop))
        for rule in rules.RULES.get(prop, []):
            got = rule(build)   # {"rule":, "instances":[...], "findings":[(key,text)]}
            if not got["instances"]:
                broken.append("rule %s found nothing to examine" % got["rule"])
            cov["rules"].append({"rule": got["rule"], "instances": len(got["instances"]), "examined": got["instances"][:40]})
            cov["obligations"] += len(got["instances"])
            cov["proven"] += max(0, len(got["instances"]) - len(got["findings"]))
            findings += got["findings"]
        cov["functions"] = sorted(f for f in funcs if not f.startswith(("e_", "c_")))
    finally:
        build.close()
    # a property is proven on the unchanged tree: an obligation that cannot be discharged any more is reported too
    alarms = list(findings)
    for name, o in unknown:
        alarms.append(("%s: %s" % (o["site"], o["msg"]), "cannot be shown: %s at %s: %s [run %s]" % (o["msg"], o["site"], o["udetail"], name)))
    for name, o in unknown[:20]:
        print("UNDECIDED %s at %s [run %s]" % (o["msg"], o["site"], name))
    seen, bad, shown = set(), [], set()
    for key, text in alarms:
        if key in known:
            if key not in shown:
                shown.add(key)
                print("KNOWN-FINDING: property=%s %s" % (prop, known[key]))
            continue
        if key in seen:
            continue
        seen.add(key)
        bad.append((key, text))
    cov["rule"] = "every construct the property speaks about becomes an obligation of the runs and rules listed here; a run interprets the sources abstractly for all inputs of its entry point"
    cov["explanation"] = "%d obligations in %d runs and %d rules over %d functions; %d shown, %d undecided, %d reported" % (
        cov["obligations"], len(cov["runs"]), len(cov["rules"]), len(cov["functions"]), cov["proven"], cov["undecided"], len(bad))
    cov["undecided_sites"] = ["%s: %s [%s]" % (o["site"], o["msg"], n) for n, o in unknown[:40]]
    ev = {"property": prop, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1")), "level": "other", "coverage": cov,
          "assumptions": rules.ASSUMPTIONS, "wall_s": round(time.time() - t0, 2), "violations": len(bad)}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(VERIF, "evidence", prop + ".json"), "w"), indent=1)
    if bad:
        rep = os.path.join(VERIF, "evidence", prop + ".violations.txt")
        with open(rep, "w") as f:
            for key, text in bad:
                f.write(text + "\n\n")
        for key, text in bad[:10]:
            print("  " + text[:600])
        print("VIOLATION property=%s replay=%s" % (prop, rep))
        return 1
    if broken:
        for b in broken:
            print("NO ANSWER: " + b)
        return 2
    print("property=%s holds: %s" % (prop, cov["explanation"]))
    return 0


if __name__ == "__main__":
    try:
        rc = main()
    except engine.Broken as x:
        print("NO ANSWER: %s" % x)
        rc = 2
    except Exception:
        traceback.print_exc()
        rc = 2
    sys.exit(rc)

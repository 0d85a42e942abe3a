#!/usr/bin/env python3
"""Regenerates MANIFEST.json from properties.jsonl and the harness sources."""
import json, re, glob, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
src = "\n".join(open(f).read() for f in glob.glob(root + "/harness/cmd/*/*.go"))
have = set(re.findall(r'eng\.Register\("(C\d+)"', src))
tech = json.load(open(root + "/tools/technique.json"))
checks, na = [], []
for l in open(root + "/properties.jsonl"):
    p = json.loads(l)
    i = p["id"]
    if i in have:
        t = tech.get(i, {})
        checks.append({
            "property": i,
            "quick_cmd": "./check.sh %s quick" % i,
            "thorough_cmd": "./check.sh %s thorough" % i,
            "technique": t.get("technique", "property-based testing (rapid) against an independent reference codec"),
            "level": "exploration",
            "level_note": t.get("note", "Generated-input search with a fixed seed; it shows the presence of violations, never their absence. Trusts the reference codecs in harness/ref."),
        })
    else:
        na.append({"property": i, "reason": t.get("na") if (t := tech.get(i, {})).get("na") else "no check has been built for it yet"})
m = {"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na,
     "notes": "All checks: harness/ (Go module, rapid v1.3.0) built against /repo's working tree by check.sh."}
json.dump(m, open(root + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks", len(na), "not applicable")

#!/usr/bin/env python3
"""Write MANIFEST.json from the bin table of ./check and the notes below."""

import json
import os
import re

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
src = open(os.path.join(V, "check")).read()
bins = eval(re.search(r"^BINS = (\{.*?^\})", src, re.S | re.M).group(1))
claimed = [p for ids in bins.values() for p in ids]
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]

TECH = {}
NOTE = {}
exec(open(os.path.join(V, "tools", "technique.py")).read())

checks, na = [], []
for p in props:
    i = p["id"]
    if i in claimed:
        checks.append({
            "property": i,
            "quick_cmd": "./check %s" % i,
            "thorough_cmd": "./check %s" % i,
            "evidence_file": "evidence/%s.json" % i,
            "technique": TECH[i],
            "level": "exploration",
            "level_note": NOTE.get(i, DEFAULT_NOTE),
        })
    else:
        na.append({"property": i, "reason": NA.get(i, "Not built yet.")})
m = {
    "version": 1,
    "setup_cmd": "./check build",
    "checks": checks,
    "not_applicable": na,
    "notes": "Own property-based engine in harness/ (recorded choice sequences, shrinking, replay files). "
             "Thorough tier runs the same command with VERIF_TIER=thorough and more cases.",
}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(V, "MANIFEST.json"), "a").write("\n")
print(len(checks), "claimed", len(na), "not")

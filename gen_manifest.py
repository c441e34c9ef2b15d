#!/usr/bin/env python3
"""Writes MANIFEST.json: every property of properties.jsonl with a harness under harness/props is claimed."""
import json, os
V = os.path.dirname(os.path.abspath(__file__))
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
TECH = ("property-based testing: generated inputs (exhaustive for the smallest sizes, then structured random families) "
        "run through the real code under AddressSanitizer against an explicit oracle; failures shrunk to a replay file")
TECHS = {"C26": "property-based testing of concurrency: generated inputs and generated thread schedules, the real OpenMP code run on a deterministic "
         "fiber runtime that switches threads between instrumented memory accesses, against serial results and a conflicting-access monitor; failures shrunk to a replay file"}
NOTES = {}
if os.path.exists(V + "/level_notes.json"):
    NOTES = json.load(open(V + "/level_notes.json"))
checks, na = [], []
for p in props:
    i = p["id"]
    if os.path.exists("%s/harness/props/%s.cpp" % (V, i)):
        checks.append({"property": i, "quick_cmd": "python3 run_check.py %s quick" % i,
                       "thorough_cmd": "python3 run_check.py %s thorough" % i,
                       "technique": TECHS.get(i, TECH), "level": "exploration",
                       "level_note": NOTES.get(i, "Finite search: holds on every case generated; sizes are bounded (see DESIGN.md).")})
    else:
        na.append({"property": i, "reason": "no check yet: the harness for this property is still being written"})
m = {"version": 1, "setup_cmd": "python3 run_check.py --setup", "checks": checks, "not_applicable": na}
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
open(V + "/MANIFEST.json", "a").write("\n")

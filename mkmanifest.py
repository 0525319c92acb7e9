#!/usr/bin/env python3
"""Writes MANIFEST.json from checks.py and properties.jsonl."""
import json, os
import checks
V = os.path.dirname(os.path.abspath(__file__))
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
m = {"version": 1, "setup_cmd": "python3 run.py --setup", "checks": [], "not_applicable": [],
     "notes": "No hooks: the repository's objects are compiled unmodified and their references to libc, pthread, socket and pcre2 "
              "functions are renamed with objcopy to the model checker's stand-ins (mc/)."}
for p in props:
    i = p["id"]
    if i in checks.PLAN:
        m["checks"].append({
            "property": i, "quick_cmd": "VERIF_TIER=quick python3 run.py " + i,
            "thorough_cmd": "VERIF_TIER=thorough python3 run.py " + i,
            "technique": checks.TECH.get(i, checks.TECH_DEFAULT), "level": checks.LEVEL.get(i, "model_checking"),
            "level_note": checks.NOTE.get(i, checks.NOTE_DEFAULT), "evidence_file": "evidence/%s.json" % i})
    else:
        m["not_applicable"].append({"property": i, "reason": checks.NA.get(i, "check not built yet")})
with open(V + "/MANIFEST.json", "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")

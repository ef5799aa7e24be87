#!/usr/bin/env python3
"""Generates MANIFEST.json from lib/checks.py and properties.jsonl."""
import json, os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "lib"))
import checks
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
m = {"version": 1, "setup_cmd": "./check.py --setup",
     "hooks": {"guard": "VERIF_HOOKS", "enable": "no hooks are needed: the checks compile /repo's sources "
               "as they are and intercept only compiler instrumentation and libc/libstdc++ calls",
               "source_commits": []},
     "checks": [], "not_applicable": [], "notes": checks.NOTES}
for p in props:
    i = p["id"]
    if i in checks.CHECKS:
        kinds = sorted(set(checks.HARNESSES[r[0]][0] for r in checks.CHECKS[i]))
        m["checks"].append({
            "property": i, "quick_cmd": "./check.py %s quick" % i,
            "thorough_cmd": "./check.py %s thorough" % i,
            "evidence_file": "evidence/%s.json" % i,
            "technique": checks.TECHNIQUE.get(i, " + ".join(checks.KIND_TECHNIQUE[k] for k in kinds)),
            "level": "exploration",
            "level_note": checks.LEVEL_NOTE.get(i, " ".join(checks.KIND_NOTE[k] for k in kinds))})
    else:
        m["not_applicable"].append({"property": i, "reason": checks.NOT_APPLICABLE.get(i,
            "the check is not built yet")})
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(m["checks"]), "claimed", len(m["not_applicable"]), "not")

#!/usr/bin/env python3
"""Writes MANIFEST.json: one check per property that has a module in checks/."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTES = {}
exec(open(os.path.join(V, "tools", "level_notes.py")).read())
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if os.path.exists(os.path.join(V, "checks", i.lower() + ".py")):
        t, n = NOTES.get(i, (None, None))
        checks.append({"property": i, "quick_cmd": "python3 check.py " + i, "thorough_cmd": "VERIF_TIER=thorough python3 check.py " + i,
                       "evidence_file": "evidence/%s.json" % i,
                       "technique": t or "TLA+ specification explored by TLC; its behaviours replayed into the real code and recorded traces validated by TLC",
                       "level": "model_checking", "level_note": n or DEFAULT})
    else:
        na.append({"property": i, "reason": NA.get(i, "no check built yet")})
json.dump({"version": 1, "setup_cmd": "bash tools/setup.sh", "checks": checks, "not_applicable": na,
           "notes": "Checks build drivers from /repo's working tree into /verif/build (git-ignored). No hooks in /repo are needed."},
          open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", len(na), "not claimed")

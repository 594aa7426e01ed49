#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from properties.jsonl and the constants of checks/*.py."""
import importlib, json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [V + "/lib", V + "/checks"]
sys.dont_write_bytecode = True
NA = {}  # property: reason
checks, na = [], []
for l in open(V + "/properties.jsonl"):
    id = json.loads(l)["id"]
    if id not in NA and os.path.exists("%s/checks/%s.py" % (V, id.lower())):
        m = importlib.import_module(id.lower())
        checks.append({"property": id, "quick_cmd": "python3 check.py %s quick" % id, "thorough_cmd": "python3 check.py %s thorough" % id,
                       "evidence_file": "evidence/%s.json" % id, "technique": m.TECHNIQUE, "level": m.LEVEL, "level_note": m.NOTE})
    else:
        na.append({"property": id, "reason": NA.get(id, "no check has been built for it yet")})
man = {"version": 1, "setup_cmd": "python3 tools/setup.py", "checks": checks, "not_applicable": na,
       "hooks": {"guard": "none", "enable": "nothing to enable: harnesses are added with go build -overlay, /repo carries no hooks"},
       "notes": "Everything is rebuilt from /repo's working tree by each check; see DESIGN.md. Genuine defects found: known-findings.txt."}
with open(V + "/MANIFEST.json", "w") as f:
    json.dump(man, f, indent=1); f.write("\n")
print(len(checks), "claimed", [x["property"] for x in na], "not")

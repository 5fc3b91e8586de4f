#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the harness modules that exist."""
import json, os, re
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NA = {}   # property -> reason, for the ones not claimed
checks, na = [], []
for line in open(os.path.join(H, "properties.jsonl")):
    pid = json.loads(line)["id"]
    src = os.path.join(H, "mc", pid.lower() + ".py")
    if not os.path.exists(src):
        na.append({"property": pid, "reason": NA.get(pid, "check not built yet")})
        continue
    text = open(src).read()
    tech = re.search(r'^TECHNIQUE = "(.*)"$', text, re.M)
    note = re.search(r'^LEVEL_NOTE = "(.*)"$', text, re.M)
    checks.append({"property": pid, "quick_cmd": "bash run.sh %s quick" % pid,
                   "thorough_cmd": "bash run.sh %s thorough" % pid,
                   "evidence_file": "evidence/%s.json" % pid,
                   "technique": tech.group(1), "level": "model_checking",
                   "level_note": note.group(1)})
m = {"version": 1, "setup_cmd": "bash build.sh", "checks": checks, "not_applicable": na,
     "notes": "Bounded exhaustive exploration of the real code; see DESIGN.md."}
json.dump(m, open(os.path.join(H, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "claimed;", [n["property"] for n in na])

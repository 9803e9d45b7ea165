"""Writes /verif/MANIFEST.json from the drivers that exist."""
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
exec(open(os.path.join(V, "harness", "notes.py")).read()) if os.path.exists(os.path.join(V, "harness", "notes.py")) else None
LEVEL = {}
props = [json.loads(x) for x in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if os.path.exists(os.path.join(V, "harness", "drivers", i.lower() + ".py")) and i in NOTE:
        checks.append({"property": i, "quick_cmd": f"bin/check {i} quick", "thorough_cmd": f"bin/check {i} thorough",
                       "evidence_file": f"evidence/{i}.json",
                       "technique": "TLA+ specification checked with TLC; conformance of the real code by trace validation and replay",
                       "level": "model_checking", "level_note": NOTE[i]})
    else:
        na.append({"property": i, "reason": NA.get(i, "check not built yet") if "NA" in globals() else "check not built yet"})
m = {"version": 1, "setup_cmd": "bin/setup", "checks": checks, "not_applicable": na}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", [x["property"] for x in na])

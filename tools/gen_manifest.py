#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json: a check for every property which has scenarios."""
import json, os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(f"{V}/properties.jsonl")]
listed = subprocess.run(["bash", f"{V}/run.sh", "list"], capture_output=True, text=True, check=True).stdout
done = {l.split()[0] for l in listed.splitlines() if l.strip()}
NOTE = {}
exec(open(f"{V}/tools/level_notes.py").read())
checks, na = [], []
for p in props:
    i = p["id"]
    if i in done:
        checks.append({
            "property": i,
            "quick_cmd": f"bash run.sh {i} quick",
            "thorough_cmd": f"bash run.sh {i} thorough",
            "technique": TECH.get(i, TECH["*"]),
            "level": "model_checking",
            "level_note": NOTE[i] + " " + COMMON,
        })
    else:
        na.append({"property": i, "reason": "no check built yet"})
m = {"version": 1, "setup_cmd": "bash run.sh build", "checks": checks, "not_applicable": na,
     "notes": "No hooks: the harness in mc/ only uses the public API of /repo's crate. Every check is an exhaustive enumeration of a bounded space; evidence/<id>.json lists per scenario the bounds, executions, transitions and distinct states."}
json.dump(m, open(f"{V}/MANIFEST.json", "w"), indent=1)
open(f"{V}/MANIFEST.json", "a").write("\n")
import importlib.util
if importlib.util.find_spec("jsonschema"):
    import jsonschema
    jsonschema.validate(m, json.load(open("/root/.vp/MANIFEST.schema.json")))
print(len(checks), "checks", len(na), "not claimed")

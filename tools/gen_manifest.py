#!/usr/bin/env python3
"""Write MANIFEST.json from properties.jsonl and the checks that exist."""
import json, os, sys
import jsonschema  # python3-vt
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, "tools"))
try:
    from level_notes import NOTES, NA
except ImportError:
    NOTES, NA = {}, {}
props = [json.loads(l) for l in open(f"{ROOT}/properties.jsonl")]
DEFAULT = ("Bounded symbolic execution of the current source with z3 deciding every branch "
           "and every assertion over all values of the symbolic inputs; bounds are in the "
           "check's BOUNDS and in the evidence file.")
TECH = ("solver-based: symbolic execution of the real Python code on z3-backed values, "
        "all paths within the bounds, counterexamples replayed concretely")
checks, na = [], []
for p in props:
    i = p["id"]
    if os.path.exists(f"{ROOT}/checks/{i.lower()}.py"):
        checks.append({"property": i, "quick_cmd": f"./run.py {i} --tier quick",
                       "thorough_cmd": f"./run.py {i} --tier thorough",
                       "technique": TECH + NOTES.get(i, {}).get("tech", ""),
                       "level": NOTES.get(i, {}).get("level", "model_checking"),
                       "level_note": NOTES.get(i, {}).get("note", DEFAULT)})
    else:
        na.append({"property": i, "reason": NA.get(i, "check under construction")})
m = {"version": 1, "setup_cmd": "true", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo; 'fix:' commits are listed in known_findings.txt."}
jsonschema.validate(m, json.load(open("/root/.vp/MANIFEST.schema.json")))
json.dump(m, open(f"{ROOT}/MANIFEST.json", "w"), indent=1)
print(len(checks), "claimed", len(na), "not applicable")

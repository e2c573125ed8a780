"""Regenerate MANIFEST.json from the table below and properties.jsonl."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(f"{V}/properties.jsonl") if l.strip()]
NOTES = json.load(open(f"{V}/tools/levels.json"))
checks, na = [], []
for p in props:
    i = p["id"]
    if i not in NOTES:
        na.append({"property": i, "reason": "contracts not written yet"})
        continue
    n = NOTES[i]
    if "not_applicable" in n:
        na.append({"property": i, "reason": n["not_applicable"]})
        continue
    cmd = f"/opt/venv/bin/python -m vp.run {i} --tier "
    checks.append({"property": i, "quick_cmd": cmd + "quick", "thorough_cmd": cmd + "thorough",
                   "evidence_file": f"evidence/{i}.json", "technique": n["technique"], "level": n["level"],
                   "level_note": n["note"]})
json.dump({"version": 1, "setup_cmd": "true", "checks": checks, "not_applicable": na},
          open(f"{V}/MANIFEST.json", "w"), indent=1)

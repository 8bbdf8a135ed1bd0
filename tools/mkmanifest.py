"""Writes MANIFEST.json from the specs present in contracts/ (python3 tools/mkmanifest.py)."""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
NOTES = json.load(open(os.path.join(V, "tools", "notes.json")))
checks, na = [], []
for p in props:
    i = p["id"]
    if os.path.exists(os.path.join(V, "contracts", i + ".py")) and i not in NOTES["not_applicable"]:
        checks.append({"property": i, "quick_cmd": "./check.sh " + i, "thorough_cmd": "VERIF_TIER=thorough ./check.sh " + i, "evidence_file": "evidence/%s.json" % i,
                       "technique": NOTES["technique"].get(i, NOTES["technique"]["*"]), "level": NOTES["level"].get(i, "proof"), "level_note": NOTES["level_note"].get(i, NOTES["level_note"]["*"])})
    else:
        na.append({"property": i, "reason": NOTES["not_applicable"].get(i, "no check built yet")})
m = {"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na, "notes": NOTES["notes"]}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not applicable")

"""Writes properties.jsonl and MANIFEST.json from the entries in meta/props.py (run by hand after an edit)."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import props
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in props.PROPS:
        f.write(json.dumps({k: p[k] for k in ("id", "title", "statement", "quantifier", "why_tests_cant", "anchors")}) + "\n")
        assert len(p["title"]) <= 80, p["title"]
checks = []
for p in props.PROPS:
    if "na" in p:
        continue
    n = p["id"].lower()
    checks.append({
        "property": p["id"],
        "quick_cmd": f"python3 checks/{n}.py --tier quick",
        "thorough_cmd": f"python3 checks/{n}.py --tier thorough",
        "evidence_file": f"evidence/{p['id']}.json",
        "technique": p["technique"], "level": p["level"], "level_note": p["level_note"]})
m = {"version": 1, "setup_cmd": props.SETUP, "checks": checks,
     "not_applicable": [{"property": p["id"], "reason": p["na"]} for p in props.PROPS if "na" in p],
     "notes": props.NOTES}
if props.HOOKS:
    m["hooks"] = props.HOOKS
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")

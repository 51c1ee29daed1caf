"""Writes MANIFEST.json (run by hand after changing what is claimed)."""
import json
CLAIMED = json.load(open("claims.json"))
props = [json.loads(l) for l in open("properties.jsonl")]
checks, na = [], []
for p in props:
    c = CLAIMED.get(p["id"])
    if c is None:
        continue
    if "reason" in c:
        na.append({"property": p["id"], "reason": c["reason"]})
        continue
    checks.append({
        "property": p["id"],
        "quick_cmd": f"python3-vt check.py {p['id']} --tier quick",
        "thorough_cmd": f"python3-vt check.py {p['id']} --tier thorough",
        "technique": c["technique"], "level": c["level"], "level_note": c["level_note"],
    })
for p in props:
    if p["id"] not in CLAIMED:
        na.append({"property": p["id"], "reason": "check not built yet"})
json.dump({"version": 1, "setup_cmd": "true", "checks": checks, "not_applicable": na,
           "notes": "No hooks: the contracts are sidecars in /verif/contracts; /repo only carries fix: commits. See DESIGN.md."},
          open("MANIFEST.json", "w"), indent=1)

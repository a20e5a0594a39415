"""Regenerates MANIFEST.json from properties.jsonl and the checks present."""
import importlib, json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [os.path.join(V, "mc"), os.path.join(V, "checks"), "/repo"]
NOTES = json.load(open(os.path.join(V, "tools", "levels.json")))
checks, na = [], []
for line in open(os.path.join(V, "properties.jsonl")):
    p = json.loads(line)
    pid = p["id"]
    if os.path.exists(os.path.join(V, "checks", pid.lower() + ".py")) and pid in NOTES:
        n = NOTES[pid]
        checks.append({"property": pid, "quick_cmd": f"./check {pid}", "thorough_cmd": f"./check {pid} --tier thorough",
                       "technique": n["technique"], "level": n["level"], "level_note": n["note"]})
    else:
        na.append({"property": pid, "reason": "check not built yet"})
m = {"version": 1, "setup_cmd": "sh tools/setup.sh",
     "checks": checks, "not_applicable": na,
     "notes": "No hooks: the checks drive the unmodified code of /repo through its public entry points."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "claimed", len(na), "not claimed")

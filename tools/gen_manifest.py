"""Writes MANIFEST.json from properties.jsonl and the checks that exist."""
import json, os
R = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
ids = [json.loads(l)["id"] for l in open(os.path.join(R, "properties.jsonl"))]
NOTES = json.load(open(os.path.join(R, "tools", "level_notes.json")))
NA = NOTES.get("not_applicable", {})
checks, na = [], []
for i in ids:
    if os.path.exists(os.path.join(R, "checks", i.lower() + ".py")) and i not in NA:
        n = NOTES[i]
        checks.append({"property": i, "quick_cmd": "./run.sh %s quick" % i, "thorough_cmd": "./run.sh %s thorough" % i,
                       "technique": n["technique"], "level": n.get("level", "model_checking"), "level_note": n["note"]})
    else:
        na.append({"property": i, "reason": NA.get(i, "check not built yet")})
m = {"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na}
json.dump(m, open(os.path.join(R, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "claimed")

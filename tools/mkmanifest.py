import json, os, sys
root = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
props = [json.loads(l) for l in open(os.path.join(root, "properties.jsonl"))]
NOTES = json.load(open(os.path.join(root, "tools", "notes.json")))
NA = NOTES.get("_na", {})
checks, na = [], []
for p in props:
    i = p["id"]
    if os.path.exists(os.path.join(root, "checks", i.lower() + ".py")) and i in NOTES:
        n = NOTES[i]
        checks.append({"property": i, "quick_cmd": "python3 checks/%s.py" % i.lower(),
                       "thorough_cmd": "VERIF_TIER=thorough python3 checks/%s.py" % i.lower(),
                       "evidence_file": "evidence/%s.json" % i, "technique": n["technique"],
                       "level": n.get("level", "model_checking"), "level_note": n["note"]})
    else:
        na.append({"property": i, "reason": NA.get(i, "check under construction")})
m = {"version": 1, "setup_cmd": "python3 -c \"import sys; sys.path.insert(0,'lib'); import vlib\"", "checks": checks,
     "not_applicable": na}
if NOTES.get("_hooks"):
    m["hooks"] = NOTES["_hooks"]
json.dump(m, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", len(na), "n/a")

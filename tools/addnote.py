"""addnote.py ID TECHNIQUE NOTE: records a check's description and regenerates the manifest."""
import json, os, subprocess, sys
p = os.path.join(os.path.dirname(os.path.abspath(__file__)), "notes.json")
n = json.load(open(p))
n[sys.argv[1]] = {"technique": sys.argv[2], "note": sys.argv[3]}
json.dump(n, open(p, "w"), indent=1, sort_keys=True)
subprocess.check_call([sys.executable, os.path.join(os.path.dirname(p), "mkmanifest.py")])

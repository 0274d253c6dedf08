#!/usr/bin/env python3
"""tools/note.py ID "technique" "note" [level] - sets one entry of notes.json and rewrites MANIFEST.json"""
import json, os, sys, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
p = os.path.join(V, "tools", "notes.json")
n = json.load(open(p)); n[sys.argv[1]] = {"technique": sys.argv[2], "note": sys.argv[3]}
if len(sys.argv) > 4: n[sys.argv[1]]["level"] = sys.argv[4]
json.dump(n, open(p, "w"), indent=1)
subprocess.check_call([sys.executable, os.path.join(V, "tools", "mkmanifest.py")])

#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the checks that exist."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
notes = json.load(open(os.path.join(V, "tools", "notes.json")))
checks, na = [], []
for line in open(os.path.join(V, "properties.jsonl")):
    p = json.loads(line)["id"]
    if os.path.exists(os.path.join(V, "checks", p + ".py")):
        n = notes.get(p, {"technique": "TLA+ specification", "note": "in progress"})
        checks.append({"property": p,
                       "quick_cmd": "/usr/bin/python3 bin/check.py %s --tier quick" % p,
                       "thorough_cmd": "/usr/bin/python3 bin/check.py %s --tier thorough" % p,
                       "evidence_file": "evidence/%s.json" % p,
                       "technique": n["technique"], "level": n.get("level", "model_checking"), "level_note": n["note"]})
    else:
        na.append({"property": p, "reason": notes.get(p, {}).get("reason", "no check built yet")})
m = {"version": 1, "setup_cmd": "/usr/bin/python3 bin/setup.py",
     "hooks": {"guard": "VERIF_HOOKS", "enable": "no hooks were needed: every observation uses public interfaces, callbacks or replaced third-party headers", "source_commits": []},
     "checks": checks, "not_applicable": na,
     "notes": "All checks: bin/check.py <ID>. See DESIGN.md."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "claimed", len(na), "not claimed")

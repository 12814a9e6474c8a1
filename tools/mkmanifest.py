#!/usr/bin/env python3
"""Writes MANIFEST.json: every property with a check script is claimed, every other one is listed with its reason."""
import json, os
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
props = [json.loads(x) for x in open(V + "/properties.jsonl")]
NA = {}
NOTE = {}
exec(open(V + "/tools/claims.py").read())
checks, na = [], []
for p in props:
    i = p["id"]
    f = "checks/%s.py" % i.lower()
    if os.path.exists(os.path.join(V, f)) and i in NOTE:
        checks.append({"property": i, "quick_cmd": "python3 /verif/%s" % f, "thorough_cmd": "python3 /verif/%s --thorough" % f,
                       "technique": TECH, "level": "model_checking", "level_note": NOTE[i]})
    else:
        na.append({"property": i, "reason": NA.get(i, "no check has been built for it yet")})
m = {"version": 1, "setup_cmd": "true",
     "hooks": {"guard": "ECL_VERIF_HOOKS", "enable": "none needed: no instrumentation was added to /repo; harnesses use the public API", "source_commits": []},
     "checks": checks, "not_applicable": na}
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "claimed;", len(na), "not")

#!/usr/bin/env python3
"""Show the last records of a saved rejected trace: python3 tools/rej.py C04 [n] -- fields that changed in the last step."""
import json, sys
import os
p = os.environ.get("VERIF_WORK", "/verif/work") + "/replay/%s_trace.ndjson" % sys.argv[1]
n = int(sys.argv[2]) if len(sys.argv) > 2 else 4
L = [json.loads(x) for x in open(p)]
print(len(L), "records; first:", {k: v for k, v in L[0].items() if k in ("fusion_mode", "vdist_sensor_type", "mag_fusion_type", "range_aid")})
prev = None
for r in L[-n:]:
    print("--- t", r.get("t"), r.get("e"))
    for k, v in r.items():
        if prev is None or prev.get(k) != v:
            if isinstance(v, dict) and prev and isinstance(prev.get(k), dict):
                v = {a: (prev[k].get(a), b) for a, b in v.items() if prev[k].get(a) != b}
            if k in ("cs", "fs", "we", "ie", "nf") and prev:
                v = {"+": sorted(set(v) - set(prev.get(k, []))), "-": sorted(set(prev.get(k, [])) - set(v))}
            print("   ", k, v)
    prev = r

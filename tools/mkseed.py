#!/usr/bin/env python3
"""Development aid: creates /verif/seeded/<id>/ from a description and verifies it in a scratch copy.
usage: mkseed.py FILE.py   where FILE defines ID, PROP, NEEDS, BREAKS, EDITS=[(file, old, new)], SOURCES=[..], DEMO (C++ text), optional HEADERS={name: text or path}"""
import json, os, shutil, subprocess, sys, tempfile
V = "/verif"
ns = {"HEADERS": {}, "EDITS": [], "SOURCES": []}
exec(open(sys.argv[1]).read(), ns)
d = os.path.join(V, "seeded", ns["ID"])
os.makedirs(d + "/shim/matrix", exist_ok=True)
shutil.copy(V + "/shim/matrix/math.hpp", d + "/shim/matrix/math.hpp")
for n, t in ns["HEADERS"].items():
    if os.path.exists(t): shutil.copy(t, d + "/" + n)
    else: open(d + "/" + n, "w").write(t)
open(d + "/demo.cpp", "w").write(ns["DEMO"].lstrip())
srcs = " ".join(ns["SOURCES"])
open(d + "/demo.sh", "w").write("""#!/bin/bash
# run with cwd = the repository; exit 0: the property holds, nonzero: broken
D="$(cd "$(dirname "$0")" && pwd)"
T="$(mktemp -d)"
trap 'rm -rf "$T"' EXIT
F="-std=c++14 -O1 -w -DECL_STANDALONE -I$D/shim -I. -IEKF -I$D"
i=0
for s in %s "$D/demo.cpp"; do
  i=$((i+1)); g++ $F -c "$s" -o "$T/$i.o" & 
done
wait
g++ "$T"/*.o -o "$T/demo" || exit 5
"$T/demo"
""" % srcs)
os.chmod(d + "/demo.sh", 0o755)
json.dump({"property": ns["PROP"], "needs": ns["NEEDS"], "what_it_breaks": ns["BREAKS"]}, open(d + "/meta.json", "w"), indent=1)
t = tempfile.mkdtemp(prefix="seed")
subprocess.run(["git", "clone", "-q", "/repo", t + "/r"], check=True)
for f, o, n in ns["EDITS"]:
    p = t + "/r/" + f
    s = open(p).read()
    assert s.count(o) >= 1, (f, o)
    if s.count(o) > 1: print("!! several matches for", o)
    open(p, "w").write(s.replace(o, n, 1))
diff = subprocess.run(["git", "diff"], cwd=t + "/r", capture_output=True, text=True).stdout
open(d + "/patch.diff", "w").write(diff)
r1 = subprocess.run(["bash", d + "/demo.sh"], cwd=t + "/r", capture_output=True, text=True)
subprocess.run(["git", "checkout", "-q", "--", "."], cwd=t + "/r")
r0 = subprocess.run(["bash", d + "/demo.sh"], cwd=t + "/r", capture_output=True, text=True)
print(ns["ID"], "clean rc", r0.returncode, "patched rc", r1.returncode, (r1.stdout + r1.stderr)[-200:].strip(), "" if r0.returncode == 0 else (r0.stdout + r0.stderr)[-500:])
shutil.rmtree(t)

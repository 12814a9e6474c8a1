#!/usr/bin/env python3
"""Development aid: mutate a scratch copy of /repo and run checks on it.
usage: mt.py CHECKS FILE OLD NEW   (CHECKS comma separated, e.g. c01,c02)"""
import os, subprocess, sys, tempfile, shutil
checks, f, old, new = sys.argv[1:5]
d = tempfile.mkdtemp(prefix="mut")
shutil.copytree("/repo", d + "/r", ignore=shutil.ignore_patterns("_build", ".git", "matlab", "docs"))
p = d + "/r/" + f
s = open(p).read()
n = s.count(old)
if n != 1:
    print("!! pattern count", n, repr(old)); 
    if n == 0: sys.exit(3)
open(p, "w").write(s.replace(old, new, 1))
for c in checks.split(","):
    e = dict(os.environ, ECL_REPO=d + "/r", VERIF_WORK=d + "/w")
    r = subprocess.run([sys.executable, "/verif/checks/%s.py" % c], capture_output=True, text=True, env=e)
    print(c, {0: "MISSED", 1: "caught", 2: "ERROR"}.get(r.returncode, r.returncode), "|", repr(old[:50]), "->", repr(new[:50]), "|", (r.stdout.splitlines() or [""])[0][:160])
    if r.returncode not in (0, 1): print(r.stdout[-400:], r.stderr[-300:])
shutil.rmtree(d)

#!/usr/bin/env python3
"""Development aid: run a list of mutations. usage: mtl.py LISTFILE  (python list of (checks, file, old, new))"""
import subprocess, sys, concurrent.futures as cf
ns = {}
exec(open(sys.argv[1]).read(), ns)
L = ns["L"]
j = int(sys.argv[2]) if len(sys.argv) > 2 else 3
def one(m):
    return subprocess.run([sys.executable, "/verif/tools/mt.py", *m], capture_output=True, text=True).stdout
with cf.ThreadPoolExecutor(j) as ex:
    for o in ex.map(one, L): print(o, end="", flush=True)

#!/usr/bin/env python3
"""Named mutants against the checks they should trip: runmut.py MUTANTS.py SCRATCH [name...]  (run from a copy of /verif)"""
import os, shutil, subprocess, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ns = {}; exec(open(sys.argv[1]).read(), ns); scratch = sys.argv[2]; only = sys.argv[3:]
tree = os.path.join(scratch, "mt")
for name, props, f, pairs in ns["M"]:
    if only and name not in only: continue
    shutil.rmtree(tree, ignore_errors=True); os.makedirs(tree)
    subprocess.check_call("git -C /repo archive HEAD src | tar x -C " + tree, shell=True)
    p = os.path.join(tree, f); s = open(p).read(); bad = [o for o, _ in pairs if o not in s]
    if bad: print(name, "DOES NOT APPLY", bad[0][:60], flush=True); continue
    for o, n in pairs: s = s.replace(o, n, 1)
    open(p, "w").write(s)
    res = []
    for c in props:
        r = subprocess.run([sys.executable, os.path.join(HERE, "run.py"), c], env=dict(os.environ, VERIF_REPO=tree, VERIF_SEED="1"), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        why = [l for l in r.stdout.splitlines() if "VIOLATION" in l or "error" in l]
        res.append("%s=%d" % (c, r.returncode)); 
        if r.returncode: res.append(why[0][:170] if why else r.stdout[-200:])
    print(name, "  ".join(res), flush=True)
shutil.rmtree(tree, ignore_errors=True)

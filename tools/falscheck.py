#!/usr/bin/env python3
"""falscheck.py [ids]: does the bounded search alone find an input for each planted bug?"""
import sys, os, subprocess, json, time
sys.path.insert(0, "/verif/vf")
S = "/verif/seeded"; only = sys.argv[1:]
def sh(c): return subprocess.run(c, shell=True, capture_output=True, text=True)
for i in sorted(os.listdir(S)):
    m = json.load(open("%s/%s/meta.json" % (S, i)))
    if only and i not in only and m["property"] not in only: continue
    w = "/tmp/w/fc_" + i; sh("rm -rf %s; mkdir -p %s && git -C /repo archive HEAD | tar x -C %s" % (w, w, w))
    try:
        sh("cd %s && patch -p1 < %s/%s/patch.diff" % (w, S, i)); t = time.time()
        r = sh("cd /verif && VF_REPO=%s VERIF_SEED=%s python3-vt -c \"import sys; sys.path.insert(0,'vf'); import run; h,e,n=run.falsify('%s',%s); print('FOUND' if h else 'none %%d %%s' %% (n,e)); print((h or '')[:300])\"" % (w, os.environ.get("VERIF_SEED", "1"), m["property"], os.environ.get("SECS", "30")))
        print("%-32s %s %5.1fs %s" % (i, m["property"], time.time() - t, " ".join(r.stdout.split())[:60] or r.stderr[-300:]), flush=True)
    finally: sh("rm -rf " + w)

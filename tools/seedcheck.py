#!/usr/bin/env python3
"""seedcheck.py [ids|props]: runs the check of its property against every planted bug (on scratch copies of /repo's HEAD)"""
import sys, os, subprocess, json, time
S = "/verif/seeded"; only = sys.argv[1:]
def sh(c): return subprocess.run(c, shell=True, capture_output=True, text=True)
for i in sorted(os.listdir(S)):
    m = json.load(open("%s/%s/meta.json" % (S, i)))
    if only and i not in only and m["property"] not in only: continue
    w = "/tmp/w/sc_" + i; sh("rm -rf %s; mkdir -p %s && git -C /repo archive HEAD | tar x -C %s" % (w, w, w))
    try:
        a = sh("cd %s && patch -p1 < %s/%s/patch.diff" % (w, S, i)); t = time.time()
        if a.returncode: print(i, "DOES NOT APPLY"); continue
        r = sh("cd /verif && VF_REPO=%s ./check %s" % (w, m["property"]))
        v = [l for l in r.stdout.splitlines() if l.startswith("VIOLATION")]
        fo = [l for l in r.stdout.splitlines() if l.startswith(("FAILED", "NOT PROVED"))]
        print("%-32s %s rc %d %5.1fs %s | %s" % (i, m["property"], r.returncode, time.time() - t, ("CAUGHT" + (" (no input)" if "no-failing" in v[0] else "")) if v else "MISSED", fo[0][:150] if fo else ""), flush=True)
    finally: sh("rm -rf " + w)

#!/usr/bin/env python3
"""mutcheck.py DIR [ids]: the verdict of the checks on the mutants of DIR for which the bounded search alone found nothing"""
import sys, os, subprocess, shutil, re, time
out = sys.argv[1]; only = sys.argv[2:]
def sh(c): return subprocess.run(c, shell=True, capture_output=True, text=True)
for l in open(out + "/list"):
    m = re.match(r"(m\d+) (\S+) \[([^\]]*)\] found=(\S+)  (.*)", l.strip())
    if not m: continue
    id, where, props, found, text = m.groups()
    if only and id not in only or not only and found != "-": continue
    if not only and "assert(" in text: continue
    d = "/tmp/w/mc_%s_%s" % (os.path.basename(out), id); shutil.rmtree(d, ignore_errors=True); os.makedirs(d); sh("git -C /repo archive HEAD | tar x -C %s; cd %s && patch -sp1 < %s/%s.diff" % (d, d, out, id))
    for p in props.split():
        t = time.time(); r = sh("cd /verif && VF_REPO=%s VF_OUT=%s timeout 890 ./check %s" % (d, d, p)); ls = r.stdout.splitlines(); v = [x for x in ls if x.startswith("VIOLATION")]
        st = "ALARM" + (" (no input)" if "no-failing" in v[0] else "") if v else "rc %d" % r.returncode if r.returncode else "proved" if ls and ls[-1].startswith("OK") else "not proved"
        print("%-6s %-22s %s %-18s %4.0fs %s | %s" % (id, where, p, st, time.time() - t, text[:80], " ".join(x for x in ls if x.startswith(("FAILED", "NOT PR")))[:160] if st != "proved" else ""), flush=True)
    shutil.rmtree(d, ignore_errors=True)

#!/usr/bin/env python3
"""refactors.py [ids|props]: behaviour preserving edits; every check has to stay quiet on them (run on scratch copies)"""
import sys, os, re, subprocess, time, concurrent.futures as cf
def sh(c, **k): return subprocess.run(c, shell=True, capture_output=True, text=True, **k)
R = []
def r(id, props, *subs): R.append((id, props.split(), subs))
for l in ("refactor_list.py", "refactor_list2.py"): exec(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), l)).read())
def whole(t, name):
    """the text of the definition of a function"""
    m = re.search(r"^[a-z][^\n;]*\b%s\([^;{]*\)\n\{.*?^\}\n" % name, t, re.M | re.S)
    return m.group(0) if m else "\0"
def one(x):
    id, props, subs = x; d = "/tmp/w/rf_" + id; out = []
    sh("mkdir -p %s && git -C /repo archive HEAD | tar x -C %s" % (d, d))
    for f, old, new in subs:
        p = "%s/tommyds/%s" % (d, f); t = open(p).read()
        if old.startswith("@"): old = whole(t, old[1:])
        if old not in t: return "%s: TEXT NOT FOUND %r" % (id, old[:80])
        open(p, "w").write(t.replace(old, new))
    b = sh("cd %s && gcc -O1 -w -c tommyds/tommy.c -I. -o t.o && gcc -O1 -w -I. check.c t.o -o chk -lm" % d)
    if b.returncode: return id + ": DOES NOT BUILD " + b.stderr[:500]
    if os.environ.get("RUNTESTS"):
        c = sh("cd %s && timeout 300 ./chk" % d)
        if not c.stdout.strip().endswith("OK"): return id + ": TESTS FAIL"
    for p in [] if os.environ.get("BUILDONLY") else props:
        t = time.time(); q = sh("cd /verif && VF_REPO=%s VF_OUT=%s/out timeout 900 ./check %s" % (d, d, p))
        ls = [l for l in q.stdout.splitlines() if l.startswith(("VIOLATION", "NOT PROVED", "FAILED", "OK", "HELD"))]
        st = "ALARM" if q.returncode == 1 else "proved" if q.returncode == 0 and any(l.startswith("OK") for l in ls) else "quiet, not proved" if q.returncode == 0 else "NO ANSWER rc %d" % q.returncode
        out.append("%-30s %s %-18s %5.0fs %s" % (id, p, st, time.time() - t, "" if st == "proved" else " | ".join(l[:230] for l in ls[:3])))
    sh("rm -rf " + d)
    return "\n".join(out)
only = sys.argv[1:]
for x in R[int(os.environ.get("FROM", 0)):]:
    if not only or x[0] in only or any(p in only for p in x[1]): print(one(x), flush=True)

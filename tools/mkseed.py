#!/usr/bin/env python3
"""mkseed.py SPEC.py [ids]: (re)creates /verif/seeded/<id> from a list of seeds and validates each one on a scratch copy of /repo's HEAD.
A seed: dict(id, property, subs=[(file,old,new),...], needs, breaks, demo=C source)"""
import sys, os, subprocess, json, runpy, shutil, concurrent.futures as cf
S = "/verif/seeded"
def sh(c, **k): return subprocess.run(c, shell=True, capture_output=True, text=True, **k)
DEMO_SH = '''#!/bin/bash
# exit 0: the property holds in the demonstrated case
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d) || exit 2
trap 'rm -rf "$t"' EXIT
gcc -g -O1 -w -fsanitize=address -I"$PWD/tommyds" "$d/demo.c" -o "$t/demo" || exit 2
ASAN_OPTIONS=detect_leaks=0 timeout 100 "$t/demo"
'''
BUILD = "gcc -O2 -w -c tommyds/tommy.c -I. -o t.o && gcc -O2 -w -I. check.c t.o -o chk -lm"
def one(s):
    w = "/tmp/w/ms_" + s["id"]; sh("rm -rf %s; mkdir -p %s && git -C /repo archive HEAD | tar x -C %s && cd %s && git init -q && git add -A && git -c user.name=x -c user.email=x@x commit -qm x" % (w, w, w, w))
    try:
        for f, old, new in s["subs"]:
            p = os.path.join(w, "tommyds", f); t = open(p).read()
            if t.count(old) < 1 or (t.count(old) > 1 and not s.get("first")): return "%-28s old text occurs %d times in %s" % (s["id"], t.count(old), f)
            open(p, "w").write(t.replace(old, new, 1))
        d = os.path.join(S, s["id"]); os.makedirs(d, exist_ok=True)
        open(d + "/patch.diff", "w").write(sh("git -C %s diff" % w).stdout)
        open(d + "/demo.c", "w").write(s["demo"]); open(d + "/demo.sh", "w").write(DEMO_SH); os.chmod(d + "/demo.sh", 0o755)
        json.dump(dict(property=s["property"], needs=s["needs"], what_it_breaks=s["breaks"]), open(d + "/meta.json", "w"), indent=1)
        b = sh("cd %s && %s" % (w, BUILD))
        try: r = sh("cd %s && timeout 300 ./chk" % w); tests = r.stdout.strip().endswith("OK")
        except Exception: tests = False
        demo = sh("cd %s && bash %s/demo.sh" % (w, d))
        sh("git -C %s checkout -- ." % w)
        good = sh("cd %s && bash %s/demo.sh" % (w, d))
        ok = b.returncode == 0 and tests and demo.returncode not in (0, 2) and good.returncode == 0
        o = "%-28s %s build %d tests %s demo with bug %d, without %d" % (s["id"], "GOOD" if ok else "REJECTED", b.returncode, "pass" if tests else "FAIL", demo.returncode, good.returncode)
        if not ok: o += "\n" + b.stderr[-300:] + (demo.stdout + demo.stderr + good.stdout + good.stderr)[-400:]; shutil.rmtree(d)
        return o
    finally: sh("rm -rf " + w)
seeds = runpy.run_path(sys.argv[1])["SEEDS"]; only = sys.argv[2:]
with cf.ThreadPoolExecutor(3) as ex:
    for o in ex.map(one, [s for s in seeds if not only or s["id"] in only]): print(o, flush=True)

#!/usr/bin/env python3
"""mutate.py OUTDIR [seed n]: one-line mutants of the library that compile, differ in object code and pass the existing tests.
Writes OUTDIR/<id>.diff and OUTDIR/list (id, file, props found failing by the bounded search alone)"""
import sys, os, re, subprocess, random, concurrent.futures as cf, shutil, difflib
out = sys.argv[1]; rnd = random.Random(int(sys.argv[2]) if len(sys.argv) > 2 else 1); limit = int(sys.argv[3]) if len(sys.argv) > 3 else 400
def sh(c, **k): return subprocess.run(c, shell=True, capture_output=True, text=True, **k)
os.makedirs(out, exist_ok=True)
FILES = {"tommylist.h": "C01 C18 C20", "tommychain.h": "C02", "tommylist.c": "C02", "tommyhashtbl.c": "C03 C18 C19 C20", "tommyhashtbl.h": "C03 C20", "tommyhashdyn.c": "C04 C06 C18 C19 C20", "tommyhashdyn.h": "C04 C20",
 "tommyhashlin.c": "C05 C06 C18 C19 C20", "tommyhashlin.h": "C05 C20", "tommytree.c": "C07 C08 C18 C20", "tommytrie.c": "C09 C10 C20", "tommytrieinp.c": "C11 C20", "tommyarray.c": "C12 C19 C20", "tommyarrayof.c": "C12 C19 C20",
 "tommyarray.h": "C12 C20", "tommyarrayof.h": "C12 C20", "tommyarrayblk.c": "C13 C19 C20", "tommyarrayblkof.c": "C13 C19 C20", "tommyarrayblk.h": "C13 C20", "tommyarrayblkof.h": "C13 C20", "tommyalloc.c": "C14 C19", "tommyhash.c": "C15 C16", "tommyhash.h": "C17", "tommytypes.h": "C17"}
SUB = [(r"(?<![<>=!\-+&|])<(?![<=])", ["<="]), (r"<=", ["<"]), (r"(?<![\->])>(?![>=])", [">="]), (r">=", [">"]), (r"==", ["!=", "<=", ">="]), (r"!=", ["=="]), (r"&&", ["||"]), (r"\|\|", ["&&"]),
 (r"(?<![+\w])\+(?![+=])", ["-"]), (r" \+ ", [" - ", " | "]), (r" - ", [" + "]), (r"\+\+", ["--"]), (r"(?<!-)--(?!-)", ["++"]), (r"->next\b", ["->prev"]), (r"->prev\b", ["->next"]), (r"\b0\b", ["1"]), (r"\b1\b", ["0", "2"]), (r"\b2\b", ["1", "4"]),
 (r"\b8\b", ["4", "16"]), (r"\bhead\b", ["node"]), (r"\bnode\b", ["head", "node->next"]), (r"\bdata\b", ["arg"]), (r" \* ", [" + "]), (r" / ", [" * "]), (r"<<", [">>"]), (r">>", ["<<"]), (r" & ", [" | "]), (r"\|=", ["^=", "&="]), (r"\+=", ["-=", "="]), (r"-=", ["+=", "="]),
 (r"bucket_max", ["bucket_mask", "bucket_bit", "count"]), (r"low_max", ["bucket_max"]), (r"low_mask", ["bucket_mask"]), (r"bucket_mask", ["low_mask", "bucket_max"]), (r"split\[0\]", ["split[1]"]), (r"split\[1\]", ["split[0]"]), (r"->split", ["->low_max"]),
 (r"\bshift\b", ["shift + 1"]), (r"\bi\b", ["j", "i + 1"]), (r"\bj\b", ["i"]), (r"\blet_ptr\b", ["&node"]), (r"first", ["second"]), (r"second", ["first"]), (r"\.head", [".tail"]), (r"\.tail", [".head"]), (r"->head", ["->tail"]), (r"->tail", ["->head"]), (r"\(([^()]*)\)", ["(!(\\1))"]), (r"break;", [";", "continue;"]), (r"continue;", ["break;"]), (r"return 0;", ["return (void*)1;"]), (r"key_len", ["(key_len + 1)"])]
SRC = "/tmp/w/mut_src"; shutil.rmtree(SRC, ignore_errors=True); os.makedirs(SRC); sh("git -C /repo archive HEAD | tar x -C " + SRC)
def code(d):
    r = sh("cd %s && for f in -O1; do gcc $f -w -fno-inline-functions -S -o - -I. tommyds/tommy.c; done" % d); r2 = sh("cd %s && gcc -O1 -w -S -o - -I. check.c" % d)
    return None if r.returncode or r2.returncode else (r.stdout, r2.stdout)
base = code(SRC)
muts = []
for f, props in FILES.items():
    t = open("%s/tommyds/%s" % (SRC, f)).read().split("\n"); com = False
    for n, l in enumerate(t):
        s = l.strip()
        if s.startswith("/*"): com = True
        if com:
            if "*/" in s: com = False
            continue
        if not s or s.startswith(("//", "#", "*")) or not l.startswith("\t"): continue
        c = set()
        for pat, reps in SUB:
            for m in re.finditer(pat, l):
                for rp in reps: c.add(l[:m.start()] + m.expand(rp) + l[m.end():])
        if s.endswith(";") and not s.startswith(("return", "break", "case", "tommy_size_t", "tommy_uint", "void")): c.add("\t;")
        if s.startswith("if (") and s.endswith(")") or s.startswith("if (") and s.endswith("{"): c.add(re.sub(r"if \(.*\)", "if (1)", l)); c.add(re.sub(r"if \(.*\)", "if (0)", l))
        for x in c:
            if x != l: muts.append((f, n, x, props))
rnd.shuffle(muts); muts = muts[:limit]; print(len(muts), "mutants", flush=True)
def one(a):
    k, (f, n, x, props) = a; d = "/tmp/w/mut_%s_%d" % (os.path.basename(out), k); shutil.copytree(SRC, d)
    try:
        p = "%s/tommyds/%s" % (d, f); t = open(p).read().split("\n"); old = "\n".join(t); t[n] = x; open(p, "w").write("\n".join(t))
        c = code(d)
        if c is None or c == base: return None
        r = sh("cd %s && gcc -O2 -w -I. check.c tommyds/tommy.c -o chk -lm && gcc -g -O1 -w -fsanitize=address -I. check.c tommyds/tommy.c -o chka -lm" % d)
        if r.returncode: return None
        try: r = sh("cd %s && timeout -k 1 100 ./chk > o 2>&1 && tail -1 o" % d)
        except Exception: return None
        if r.returncode or r.stdout.strip() != "OK": return None
        diff = "".join(difflib.unified_diff(old.splitlines(1), "\n".join(t).splitlines(1), "a/tommyds/" + f, "b/tommyds/" + f))
        id = "m%d" % k; open("%s/%s.diff" % (out, id), "w").write(diff); res = []
        for p in props.split():
            r = sh("cd /verif && VF_REPO=%s VERIF_SEED=1 python3-vt -c \"import sys; sys.path.insert(0,'vf'); import run; h,e,n=run.falsify('%s',%s); print('FOUND' if h else 'none')\"" % (d, p, os.environ.get("SECS", "5")))
            if "FOUND" in r.stdout: res.append(p)
        return "%s %s:%d [%s] found=%s  %s" % (id, f, n + 1, props, ",".join(res) or "-", x.strip())
    finally: shutil.rmtree(d, ignore_errors=True)
with cf.ThreadPoolExecutor(int(os.environ.get("JOBS", "4"))) as ex, open(out + "/list", "w") as L:
    for r in ex.map(one, enumerate(muts)):
        if r: print(r, flush=True); L.write(r + "\n"); L.flush()

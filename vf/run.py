"""check PROPERTY: verify the contracts the property consists of against /repo's current source."""
import sys, os, time, threading, json, subprocess, multiprocessing, multiprocessing.connection, traceback, importlib, shutil, hashlib
HERE = os.path.dirname(os.path.abspath(__file__)); ROOT = os.path.dirname(HERE)
sys.path.insert(0, HERE)
sys.setrecursionlimit(20000)
REPO = os.environ.get("VF_REPO", "/repo")
TIER = os.environ.get("VERIF_TIER", "quick"); SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
OUT = os.path.join(ROOT, "out"); FALS = os.path.join(ROOT, "fals", "fals.c")
from registry import SPECS, ASSUME, BASE_ASSUME

def load_tasks(prop):
    out = []
    for m in SPECS[prop]:
        mod = importlib.import_module(m)
        out += [t for t in mod.TASKS if prop in t.props]
    return out

UNIT = None
def work(a, on_fail=None):
    prop, i = a
    import core, lib
    t = load_tasks(prop)[i]
    core.STATS.__init__()
    t0 = time.time()
    d = dict(name=t.name, fn=t.fn, role=t.role(prop), status="ok", detail="", time=0.0)
    try:
        if t.needs_missing(UNIT): d.update(status="unsupported", detail="function %s not found in the source%s" % (t.fn, ": " + UNIT.errs[t.fn] if t.fn in UNIT.errs else "")); return d
        eng = t.engine(UNIT); eng.on_fail = on_fail; d["backend"] = "z3 %s" % core.z3.get_version_string()
        r = t.run(eng)
        d.update(loops={"%s@%s" % k if isinstance(k, tuple) else str(k): v for k, v in r.loops.items()}, paths=r.paths, labels=dict(eng.labels), inlined=sorted(eng.inlined), contracts=sorted(eng.used_contracts), notes=list(eng.notes))
        if r.unsupported: d.update(status="unsupported", detail=r.unsupported)
        elif not r.ok:
            f = r.fail
            d.update(status="unknown" if f.kind == "unknown" or eng.abstracted and f.kind == "refuted" else "failed", detail=f.detail, label=f.label, kind=f.kind, trace=getattr(f, "trace", []), heap=getattr(f, "heap", []), model=str(f.model)[:3000] if f.model is not None else "", cex=getattr(f, "cex", None))
            # the proportion of buckets to elements is what C06 states; elsewhere it is only used to prove the rest
            if prop != "C06" and any(x in (f.label or "") for x in ("invariant of the sizes", "buckets in proportion", "resize step: sizes")): d["role"] = "dependency"
    except lib.Fail as f: d.update(status="failed", label=f.label, detail=f.detail, kind=f.kind)
    except Exception as e:
        d.update(status="unsupported", detail="engine: %r\n%s" % (e, traceback.format_exc()[-1500:]))
    if core.PROF is not None:
        print("PROFILE", t.name)
        for k, (n, x) in sorted(core.PROF.items(), key=lambda z: -z[1][1])[:14]: print("  %7.2fs %5d %s" % (x, n, k), flush=True)
    d["time"] = time.time() - t0; d["obl"] = core.STATS.obl; d["dis"] = core.STATS.discharged; d["queries"] = core.STATS.queries; d["solver"] = core.STATS.time; d["triv"] = core.STATS.triv
    return d

def child(c, a):
    c.send(work(a, lambda f: c.send(("first", f.label, f.detail)))); c.close()
class Search(threading.Thread):
    """the bounded search on the real code, started as soon as a first obligation fails"""
    def __init__(s, prop, secs): threading.Thread.__init__(s, daemon=True); s.prop = prop; s.secs = secs; s.hit = None; s.err = ""; s.n = 0; s.stop = False
    def run(s): s.hit, s.err, s.n = falsify(s.prop, s.secs, (), 6, s)
def run_all(idx, tasks, prop, search):
    """every task in a process of its own, 8 at a time; a task or a whole check that takes too long is stopped and its contracts count as not proved.
    When a first obligation fails, the bounded search for a failing input starts; if it finds one the rest is not waited for"""
    first = ["trie_remove", "shrink_step", "resize", "trie_insert", "grow_step", "strhash", "tree_balance"]  # the longest ones start first
    idx = sorted(idx, key=lambda a: min([i for i, w in enumerate(first) if w in tasks[a[1]].name] or [len(first)]))
    ctx = multiprocessing.get_context("fork"); k = 1 if TIER == "quick" else 12; end = time.time() + 560 * k; wait = list(idx); live = []; prov = {}; s = None
    def late(a, t0, why="stopped after %d s"):
        d = dict(name=tasks[a[1]].name, fn=tasks[a[1]].fn, role=tasks[a[1]].role(prop), status="unknown", detail=why % (time.time() - t0) if "%d" in why else why, time=time.time() - t0)
        if a in prov and "failing input" in why: d.update(status="failed", label=prov[a][0], detail=prov[a][1], kind="with the first choice of loop invariants")
        return d
    while wait or live:
        while wait and len(live) < 8:
            a = wait.pop(0); r, c = ctx.Pipe(False); p = ctx.Process(target=child, args=(c, a)); p.start(); c.close(); live.append((a, p, r, time.time()))
        multiprocessing.connection.wait([x[2] for x in live], 1)
        for x in list(live):
            a, p, r, t0 = x; d = None
            while r.poll():
                try: d = r.recv()
                except EOFError: d = dict(late(a, t0), detail="the verifier process ended (memory?)")
                if isinstance(d, tuple):
                    if "-v" in sys.argv: print("   other invariants are tried for %s: %s" % (tasks[a[1]].name, d[1]), flush=True)
                    prov[a] = d[1:]; d = None; continue
                break
            if not d and (time.time() - t0 > 420 * k or time.time() > end): p.kill(); d = late(a, t0)
            if d: p.join(); r.close(); live.remove(x); yield d
            if (a in prov or d and d["status"] != "ok") and search and s is None: s = search(); s.start()
        if s is not None and s.hit:
            for a, p, r, t0 in live: p.kill(); p.join(); yield late(a, t0, "not waited for, a failing input was found")
            for a in wait: yield late(a, time.time(), "not started, a failing input was found")
            return
        if time.time() > end:
            for a in wait: yield late(a, time.time())
            wait = []

def build_fals(prop, tmp):
    exe = os.path.join(tmp, "fals")
    san = ["-O2"] if prop == "C17" else ["-O1", "-fsanitize=address,undefined", "-fno-sanitize-recover=all", "-fno-sanitize=pointer-overflow,alignment"]
    for inc in (["-I", os.path.join(REPO, "tommyds")],):
        r = subprocess.run(["gcc", "-g", "-w"] + san + inc + [FALS, "-o", exe], capture_output=True, text=True)
        if r.returncode == 0: return exe, ""
    return None, r.stderr[-2000:]

def falsify(prop, secs, cex=(), procs=8, owner=None):
    """bounded search for a failing input on the real code; returns (text or None, statistics)"""
    tmp = os.path.join(OUT, "fals-%s-%d-%d" % (prop, os.getpid(), threading.get_ident())); os.makedirs(tmp, exist_ok=True)
    try:
        exe, err = build_fals(prop, tmp)
        if not exe: return None, "the search harness does not compile: " + err, 0
        env = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:exitcode=1:allocator_may_return_null=1:max_allocation_size_mb=8192")
        for c in cex:
            try: r = subprocess.run([exe, prop, str(SEED), "1"] + [str(x) for x in c], capture_output=True, text=True, timeout=60, env=env)
            except subprocess.TimeoutExpired: continue
            if r.returncode == 1 and "FAIL" in r.stdout: return cmdline(prop, SEED, c) + r.stdout + r.stderr[-2500:], "", 0
        ps = []
        for k in range(procs):
            f = open(os.path.join(tmp, "o%d" % k), "w+")
            ps.append((k, f, subprocess.Popen([exe, prop, str(SEED * 8 + k - 7), str(secs)], stdout=f, stderr=subprocess.STDOUT, env=env)))
        end = time.time() + secs + (230 if prop == "C17" else 60); hit = None; n = 0
        while ps and time.time() < end and not hit and not (owner and owner.stop):
            time.sleep(0.1)
            for p in list(ps):
                k, f, q = p
                rc = q.poll()
                if rc is None: continue
                ps.remove(p); f.seek(0); o = f.read()
                if rc != 0 and ("FAIL" in o or "runtime error" in o or "Sanitizer" in o or rc < 0): hit = cmdline(prop, SEED * 8 + k - 7, o) + o[:9000]; break
                if "OK" in o: n += int(o.split("OK")[1].split()[1])
        for k, f, q in ps: q.kill()
        for k, f, q in ps: q.wait()
        return hit, "", n
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
def cmdline(prop, seed, o):
    case = ""
    if isinstance(o, str):
        import re
        m = re.search(r"case=(\d+)", o); case = m.group(1) if m else ""
    else: case = " ".join(str(x) for x in o)
    san = "-O2" if prop == "C17" else "-O1 -fsanitize=address,undefined -fno-sanitize-recover=all -fno-sanitize=pointer-overflow,alignment"
    return "failing input on the real code; to replay:\n  gcc -g -w %s -I/repo/tommyds /verif/fals/fals.c -o /tmp/fals && ASAN_OPTIONS=detect_leaks=0 /tmp/fals %s %d 1 %s\n" % (san, prop, seed, case)

def known():
    p = os.path.join(ROOT, "known-findings.txt")
    return [l.strip() for l in open(p)] if os.path.exists(p) else []

def main():
    global UNIT
    prop = sys.argv[1]; t0 = time.time()
    os.makedirs(OUT, exist_ok=True); os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    quiet = "-v" not in sys.argv; only = [a for a in sys.argv[2:] if not a.startswith("-")]
    import cfront
    res = []; loaderr = None; bg = []
    try:
        UNIT = cfront.load()
    except Exception as e: loaderr = "front end: %r" % e
    tasks = load_tasks(prop)
    if UNIT is not None:
        idx = [(prop, i) for i, t in enumerate(tasks) if not only or t.name in only]
        if True:
            bg = []
            def search(): bg.append(Search(prop, 60 if TIER == "quick" else 240)); return bg[0]
            for d in run_all(idx, tasks, prop, None if "-F" in sys.argv else search):
                res.append(d)
                if not quiet:
                    print("%-34s %-11s %6.2fs obl %d/%d q %d paths %s %s" % (d["name"], d["status"], d["time"], d.get("dis", 0), d.get("obl", 0), d.get("queries", 0), d.get("paths"), d.get("loops", "") if "-l" in sys.argv else ""), flush=True)
                    if d["status"] != "ok":
                        print("     ", d.get("label"), d.get("kind"), d["detail"])
                        if "-t" in sys.argv: print("\n".join("        " + x for x in d.get("trace", [])[-40:] + ["-- heap"] + d.get("heap", [])))
    bad = [d for d in res if d["status"] == "failed"]
    uns = [d for d in res if d["status"] in ("unsupported", "unknown")]
    prim = [d for d in bad if d["role"] == "primary"]
    hit = None; ferr = ""; ncases = 0; nproc = 8; fsecs = 0; rc = 0
    lines = []
    if bad or uns or loaderr or "-f" in sys.argv or TIER == "thorough":
        fsecs = 60 if TIER == "quick" else 240
        cex = [d["cex"] for d in bad if d.get("cex")]
        if bg:
            bg[0].join(); hit, ferr, ncases = bg[0].hit, bg[0].err, bg[0].n; nproc = 6
            if not hit and cex: hit, _, n = falsify(prop, 2, cex); ncases += n
        elif "-F" not in sys.argv: hit, ferr, ncases = falsify(prop, fsecs, cex)
        if hit or prim:
            rp = os.path.join(OUT, "replay-%s.txt" % prop)
            with open(rp, "w") as f:
                for d in bad + uns:
                    f.write("obligation: %s\nstatus: %s (%s)\ndetail: %s\n" % (d.get("label", d["name"]), d["status"], d.get("kind", ""), d["detail"]))
                    if d.get("trace"): f.write("path: \n  " + "\n  ".join(d["trace"][-60:]) + "\nheap:\n  " + "\n  ".join(d["heap"]) + "\n")
                    if d.get("model"): f.write("solver model: %s\n" % d["model"])
                    f.write("\n")
                f.write(hit or ("bounded search for a failing input on the real code: none found in %d cases, %d processes x %d s %s\n" % (ncases, nproc, fsecs, ferr)))
            for d in bad: print("FAILED OBLIGATION %s: %s" % (d.get("label", d["name"]), str(d["detail"])[:200].replace("\n", " ")))
            for d in uns:
                if not bad: print("NOT PROVED %s: %s" % (d.get("label", d["name"]), str(d["detail"])[:200].replace("\n", " ")))
            print("VIOLATION property=%s replay=%s%s" % (prop, rp, "" if hit else " no-failing-input-found"))
            rc = 1
        elif uns or loaderr or bad:
            for d in uns + bad: print("NOT PROVED %s: %s; bounded search on the real code stands in (%d cases, no failure)" % (d["name"], str(d["detail"])[:150].replace("\n", " "), ncases))
            if loaderr: print("NOT PROVED %s" % loaderr)
    if bg: bg[0].stop = True; bg[0].join()
    ok = [d for d in res if d["status"] == "ok"]
    level = "proof" if not (uns or loaderr or bad) and UNIT is not None else "other"
    labels = {}
    for d in res:
        for k, v in d.get("labels", {}).items(): labels[k] = labels.get(k, 0) + v
    under = sorted(set(d["fn"] for d in ok)); inl = sorted(set(x for d in ok for x in d.get("inlined", ())) - set(under)); assumed = sorted(set(x for d in ok for x in d.get("contracts", ())))
    ev = dict(property=prop, tier=TIER if TIER in ("quick", "thorough") else "quick", seed=SEED, level=level, wall_s=round(time.time() - t0, 2), violations=1 if rc else 0,
        coverage=dict(obligations=sum(d.get("obl", 0) for d in res), discharged=sum(d.get("dis", 0) for d in res), named_obligations=len(labels),
            checker_cmd="./check %s" % prop, back_end="z3 (Python API, via /verif/vf)", solver_time_s=round(sum(d.get("solver", 0) for d in res), 2), solver_queries=sum(d.get("queries", 0) for d in res),
            trivially_true=sum(d.get("triv", 0) for d in res),
            trusted_base=["/verif/vf (symbolic execution of the preprocessed source, separation-logic chunks, loop invariant templates)", "z3 " + __import__("z3").get_version_string(), "gcc -E and pycparser (preprocessing and parsing)"],
            functions_under_contract=under, functions_verified_inline=inl, contracts_used_at_calls=assumed,
            contracts=[dict(name=d["name"], function=d["fn"], role=d["role"], status=d["status"], obligations=d.get("obl", 0), discharged=d.get("dis", 0), paths=d.get("paths", 0), loops=d.get("loops", {}), seconds=round(d["time"], 2), detail="" if d["status"] == "ok" else str(d["detail"])[:400]) for d in sorted(res, key=lambda d: d["name"])],
            not_proved=[d["name"] for d in res if d["status"] != "ok"],
            bounded_stand_in=dict(cases=ncases, seconds=fsecs, processes=nproc, bound="random and exhaustive small operation sequences on the real code; see /verif/fals/fals.c") if (uns or loaderr or bad) else None,
            samples_of_obligations=sorted(labels)[:12]),
        assumptions=BASE_ASSUME + ASSUME.get(prop, []))
    if level != "proof": ev["coverage"]["explanation"] = "%d contracts proved, %d not: %s. For those the real code was run on %d bounded cases (random and small exhaustive operation sequences); that part is bounded and not a proof." % (len(ok), len(uns) + len(bad), ", ".join(d["name"] for d in uns + bad), ncases)
    with open(os.path.join(ROOT, "evidence", prop + ".json"), "w") as f: json.dump(ev, f, indent=1)
    for l in known():
        if l.startswith("property=%s " % prop): print("KNOWN-FINDING: " + l)
    if not rc and not (uns or loaderr or bad): print("OK %s: %d contracts, %d obligations discharged, %.1f s" % (prop, len(ok), ev["coverage"]["discharged"], time.time() - t0))
    elif not rc: print("HELD %s: %d contracts proved, %d not proved and covered by the bounded search only" % (prop, len(ok), len(uns) + len(bad)))
    return rc
if __name__ == "__main__":
    sys.exit(main())

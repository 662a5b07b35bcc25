"""Folding of list segments, words, loop invariant templates, contract driver."""
import z3, time, os
from core import *

# --------------------------------------------------------------------------- fold
def fold_seg(st, start, prev0, stop, lay, what="list", circular=False, keep=False):
    """walks the heap from start until stop; consumes the nodes; returns (word, first_prev, last).
    prev0: required prev of the first node, or None (then it is returned)."""
    cur = start; prev = prev0; word = []; firstprev = None; last = None; trail = []
    def link(p, prev, last):
        # segments passed just before may be empty: then the one in front of them counts
        for atom, before, l0 in reversed(trail):
            if before is not None and st.holds(p == prev) or not st.decide(st.empty(atom)): break
            prev = before; last = l0
        if prev is not None: st.prove(p == prev, what + ": backward link")
        return prev, last
    for _ in range(60):
        if cur.eq(stop): break
        hit = None
        for c in st.heap:
            if isinstance(c, Obj) and c.kind == "node" and c.base.eq(cur): hit = c; break
            # a segment that starts here is taken whether it is empty or not
            if isinstance(c, Seg) and c.f.eq(cur) and (prev is None or c.pf.eq(prev) or st.holds(c.pf == prev)): hit = c; break
        if (hit is None or isinstance(hit, Obj)) and st.decide(cur == stop): break
        if hit is None:
            for c in st.heap:
                if isinstance(c, Seg) and c.f.eq(cur) and not st.decide(st.empty(c.atom)): hit = c; break
        if hit is None:
            for c in st.heap:
                if isinstance(c, Obj) and c.kind == "node" and st.decide(c.base == cur): hit = c; break
                if isinstance(c, Seg):
                    if st.decide(st.empty(c.atom)): continue
                    if st.decide(c.f == cur): hit = c; break
        if hit is None:
            st.fail("%s: chain reaches %s" % (what, "a node that is not a member"), "address %s" % simp(cur))
        if isinstance(hit, Obj):
            p = st.objload(hit, lay.prev, 8)
            if prev is not None and not st.holds(p == prev): prev, last = link(p, prev, last)
            if prev is None: firstprev = p
            else: st.prove(p == prev, what + ": backward link")
            trail = []
            word.append(Elem(hit.base, st.objload(hit, lay.data, 8), st.objload(hit, lay.index, 8)))
            cur = st.objload(hit, lay.next, 8); prev = hit.base; last = hit.base
        else:
            if prev is not None and not st.holds(hit.pf == prev): prev, last = link(hit.pf, prev, last)
            if prev is None: firstprev = hit.pf
            else: st.prove(hit.pf == prev, what + ": backward link")
            trail.append((hit.atom, prev, last))
            word.append(hit.atom); cur = hit.nl; prev = hit.l; last = hit.l
        if not keep: st.remove(hit)
        else: raise Exception("keep")
    else:
        st.fail(what + ": chain too long to fold")
    return word, firstprev, last

def fold_list(st, head, lay, what="list"):
    """well formed tommy list from head: returns its word"""
    w, fp, last = fold_seg(st, head, None, BV(0), lay, what)
    if w and not st.holds(fp == last):
        if not any(isinstance(x, Elem) for x in w) and st.decide(AND(*[st.empty(x) for x in w])): return []
        st.prove(fp == last, what + ": head->prev is the tail")
    return w

def drop_empty_segs(st):
    for c in list(st.heap):
        if isinstance(c, Seg) and st.holds(st.empty(c.atom)): st.remove(c)

def nodes_left(st):
    r = []
    for c in list(st.heap):
        if isinstance(c, Seg):
            if not st.decide(st.empty(c.atom)): r.append(c)
        elif isinstance(c, Obj) and c.kind == "node": r.append(c)
    return r

# --------------------------------------------------------------------------- words
def norm(st, w):
    out = []
    for it in st.expand(w):
        if not isinstance(it, Elem) and st.decide(st.empty(it)): continue
        out.append(it)
    return out

def prove_word(st, got, want, label):
    a = st.contract(got); b = st.contract(want)
    if len(a) == len(b) and all(same_item(x, y) for x, y in zip(a, b)):
        STATS.obl += 1; STATS.discharged += 1; st.eng.count(st.eng.label(st, label)); return
    a = norm(st, got); b = norm(st, want)
    if len(a) != len(b):
        st.fail(label, "sequence %s instead of %s" % (a, b))
    for x, y in zip(a, b):
        if isinstance(x, Elem) and isinstance(y, Elem):
            st.prove(AND(x.addr == y.addr, x.data == y.data, x.idx == y.idx), label, "%s vs %s" % (a, b))
        elif isinstance(x, Elem) or isinstance(y, Elem) or x != y:
            st.fail(label, "sequence %s instead of %s" % (a, b))
    STATS.obl += 1; STATS.discharged += 1; st.eng.count(st.eng.label(st, label))

def skolem_elem(st, nm="e"):
    # fixed names: only ever used in a throwaway copy of the state
    return Elem(z3.BitVec(nm + "@addr", 64), z3.BitVec(nm + "@data", 64), z3.BitVec(nm + "@idx", 64))

def prove_all(st, word, pred, label):
    for it in norm(st, word):
        if isinstance(it, Elem): st.prove(pred(it), label)
        else:
            e = skolem_elem(st); t = st.copy()
            for f in st.atoms[it].facts: t.assume(f(e))
            t.prove(pred(e), label)

def holds_all(st, it, pred):
    """pred known for all elements of atom it"""
    e = skolem_elem(st)
    return st.eng.solver.check(st.pc + [f(e) for f in st.atoms[it].facts], [NOT(pred(e))]) == z3.unsat

def rewrite_filt(st, word):
    """contract expansions and replace atoms known only up to filtering by their definition, until nothing changes"""
    w = list(word)
    for _ in range(12):
        w = st.contract(w)
        if not any(not isinstance(it, Elem) and st.atoms[it].filt is not None for it in w): return w
        n = []
        for it in w:
            if not isinstance(it, Elem) and st.atoms[it].filt is not None: n.extend(st.atoms[it].filt)
            else: n.append(it)
        w = n
    return w
def filt(st, word, psi, tag="f"):
    """filter by psi; result items: Elem, ('a', atom) all satisfy, ('f', atom) undetermined"""
    out = []
    def items(w):
        for it in w:
            if isinstance(it, Elem):
                if st.decide(psi(it)): out.append(it)
                continue
            a = st.atoms[it]
            if a.filt is not None: items(rewrite_filt(st, a.filt)); continue
            if a.exp is not None: items(a.exp); continue
            if st.decide(st.empty(it)): continue
            if holds_all(st, it, lambda e: NOT(psi(e))): continue
            out.append(("a" if holds_all(st, it, psi) else "f", it))
    items(rewrite_filt(st, word))
    return out
def use_filt_equations(st, psi):
    """definitions of atoms up to filtering are equations: use those whose atom is fully known"""
    for nm, a in list(st.atoms.items()):
        if a.filt is None: continue
        if a.exp is None and not st.known_empty(nm):
            if not st.holds(st.empty(nm)): continue
            lhs = []
        else: lhs = list(a.exp or ())
        def items(w):
            out = []
            for it in st.expand(w):
                if isinstance(it, Elem):
                    if st.decide(psi(it)): out.append((it, False))
                elif not st.holds(st.empty(it)) and not (st.atoms[it].filt == []): out.append((it, True))
            return out
        L = items(lhs); R = items(rewrite_filt(st, list(a.filt)))
        def bounds(w):
            lo = sum(1 for x, m in w if not m)
            return lo, (None if len(w) > lo else lo)
        (l0, l1), (r0, r1) = bounds(L), bounds(R)
        if (l1 is not None and r0 > l1) or (r1 is not None and l0 > r1): st.assume(FALSE); raise EndPath()
        if l1 is not None and r1 is not None:
            for (x, _), (y, _) in zip(L, R): st.assume(AND(x.addr == y.addr, x.data == y.data))
        elif l1 == 0 or r1 == 0:
            for x, m in L + R:
                if m and st.atoms[x].filt is None: ai = st.atoms[x].copy(); ai.filt = []; st.atoms[x] = ai
        elif len(R) == 1 and R[0][1] and st.atoms[R[0][0]].filt is None and st.atoms[R[0][0]].exp is None and all(x != R[0][0] for x, m in L if m):
            # turn the definition around
            ai = st.atoms[R[0][0]].copy(); ai.filt = [x for x, m in L]; st.atoms[R[0][0]] = ai
            ai = st.atoms[nm].copy(); ai.filt = None; st.atoms[nm] = ai

def prove_filt(st, got, want, psi, label):
    got = rewrite_filt(st, got); want = rewrite_filt(st, want)
    while got and want and same_item(got[0], want[0]): got = got[1:]; want = want[1:]
    while got and want and same_item(got[-1], want[-1]): got = got[:-1]; want = want[:-1]
    if not got and not want:
        STATS.obl += 1; STATS.discharged += 1; st.eng.count(st.eng.label(st, label)); return
    for attempt in (0, 1):
        a = filt(st, got, psi); b = filt(st, want, psi)
        ok = len(a) == len(b)
        if ok:
            for x, y in zip(a, b):
                if isinstance(x, Elem) and isinstance(y, Elem):
                    c = AND(x.addr == y.addr, x.data == y.data)
                    if attempt == 0 and not st.holds(c): ok = False; break
                    st.prove(c, label)
                elif isinstance(x, Elem) or isinstance(y, Elem) or x[1] != y[1]: ok = False; break
        if ok: break
        if attempt == 0: use_filt_equations(st, psi); use_filt_equations(st, psi)
    if not ok: st.fail(label, "sequence %s instead of %s" % (a, b))
    STATS.obl += 1; STATS.discharged += 1; st.eng.count(st.eng.label(st, label))

# --------------------------------------------------------------------------- producing
def mk_list(st, name, lay, facts=(), head=None, atom=None, nonempty=None, filt=None, length=None):
    """an arbitrary well formed list; returns (head, atom)"""
    h = st.fresh(name + "_head") if head is None else head
    t = st.fresh(name + "_tail")
    a = st.atom(name, facts, filt=filt, length=length, nonempty=nonempty) if atom is None else atom
    st.add(Seg(a, h, t, t, BV(0), lay))
    return h, a
def mk_node(st, name, lay, data=None, idx=None):
    """an isolated node with arbitrary link fields"""
    b = st.fresh(name)
    o = st.mknode(b, st.fresh("junk"), st.fresh("junk"), lay, data=data, idx=idx)
    st.add(o)
    return b, o
def mk_struct(st, name, u, tag, vals=None, kind="obj"):
    t = u.structs[tag]
    b = st.fresh(name)
    o = Obj(b, t.size, {}, kind, tag)
    for n, (off, ft) in t.fields.items():
        if isinstance(ft, (TArr, TStruct)): continue
        o.fields[off] = (ft.size, (vals or {}).get(n, st.fresh(name + "_" + n, 8 * ft.size)))
    st.add(o)
    return b, o, t
def fld(st, o, t, n):
    off, ft = t.fields[n]
    for c in st.heap:
        if isinstance(c, Obj) and c.base.eq(o.base): return st.objload(c, off, ft.size)
    raise Fail(st.eng.label(st, "container struct"), "the container structure is gone")
def getobj(st, base):
    for c in st.heap:
        if isinstance(c, Obj) and c.base.eq(base): return c
    return None

# --------------------------------------------------------------------------- driver
class Result:
    def __init__(s, fn): s.fn = fn; s.ok = False; s.fail = None; s.time = 0; s.obl = 0; s.queries = 0; s.loops = {}; s.paths = 0; s.unsupported = None; s.exits = 0

def find_params(f): return [p for p, _ in f.params]

def run_function(eng, fn, setup, post, label=None, deadline=90):
    """setup(eng, st) -> (args, ctx) builds the precondition; post(st, ret, ctx) proves the postcondition"""
    r = Result(label or fn)
    t0 = time.time(); c0 = time.process_time(); q0 = STATS.queries; o0 = STATS.discharged; b0 = STATS.obl
    eng.curfn = label or fn
    f = eng.u.funcs.get(fn)
    if f is None:
        r.unsupported = "function %s not found" % fn + ((": " + eng.u.errs[fn]) if fn in eng.u.errs else "")
        return r
    eng.loopplan = {}; eng.widen = {}; eng.houdini = {}; eng.loopmode = {}; eng.firstfail = []; eng.loopopts = {}; eng.plans = 0
    tried = 0
    firstfail = None
    try:
        for attempt in range(200):
            eng.loops_done = {}; eng.exits = 0; eng.paths = 0
            # only the obligations of the accepted choice of invariants are counted
            STATS.obl = b0; STATS.discharged = o0; eng.labels.clear()
            eng.deadline = c0 + deadline * (6 if os.environ.get("VERIF_TIER") == "thorough" else 1)
            try:
                st0 = State(eng)
                pend = [st0]
                # the precondition itself may need case splits
                while pend:
                    s0 = pend.pop()
                    w = s0.copy()
                    try:
                        args, ctx = setup(eng, w)
                    except NeedSplit as ns:
                        b = s0.copy(); b.assume(NOT(ns.cond)); s0.assume(ns.cond); pend += [s0, b]; continue
                    except EndPath: continue
                    fr = Frame(f)
                    w.frames.append(fr)
                    eng.bind(w, fr, args)
                    if w.infeasible(): raise Fail(eng.curfn + ": precondition is contradictory", "", None, "vacuous")
                    w.ghost["ctx"] = ctx
                    eng.explore(w, lambda s: post(s, s.ghost.get("ret"), s.ghost["ctx"]))
                if eng.exits == 0: raise Fail(eng.curfn + ": no path returns (contract would hold vacuously)", "", None, "vacuous")
                r.ok = True
                break
            except Restart: continue
            except (Fail, Unsupported) as e:
                if isinstance(e, Unsupported):
                    if not eng.unroll_plan: raise
                    e = Fail(eng.curfn + ": " + str(e), "", None, "unknown")
                if firstfail is None:
                    firstfail = e
                    if eng.on_fail: eng.on_fail(e)
                if e.kind == "vacuous": raise
                # another invariant template for some loop?
                if "time limit" in str(e): firstfail.kind = "unknown"   # the right invariants may not have been reached
                nxt = next_plan(eng)
                if eng.unroll_plan and e.kind != "refuted": firstfail.kind = "unknown"
                if nxt is None: raise firstfail
                eng.loopplan = nxt; eng.widen = {}; eng.houdini = {}
    except Unsupported as e:
        r.unsupported = str(e)
    except Fail as e:
        r.fail = e
    except z3.Z3Exception as e:
        import traceback; r.unsupported = "z3: %s %s" % (e, traceback.format_exc()[-2600:])
    except (KeyError, AttributeError, RecursionError) as e:
        import traceback
        r.unsupported = "engine: %r %s" % (e, traceback.format_exc()[-700:])
    r.time = time.time() - t0; r.queries = STATS.queries - q0; r.obl = STATS.discharged - o0
    r.loops = dict(eng.loops_done); r.paths = eng.paths; r.exits = eng.exits
    return r

def next_plan(eng):
    """another choice of loop invariants (odometer over the loops with alternatives)"""
    ks = sorted(k for k in eng.loopopts if eng.loopopts[k] > 1)
    plan = dict(eng.loopplan); eng.plans = getattr(eng, "plans", 0) + 1
    if eng.plans > 24: return None
    for k in reversed(ks):
        if plan.get(k, 0) + 1 < eng.loopopts[k]: plan[k] = plan.get(k, 0) + 1; return plan
        plan[k] = 0
    return None

# --------------------------------------------------------------------------- loops
def common_facts(st, word):
    """the facts of the first atom of the word that hold for all of it"""
    cand = []
    for it in word:
        if not isinstance(it, Elem): cand = list(st.atoms[it].facts); break
    return tuple(f for f in cand if all(st.holds(f(it)) if isinstance(it, Elem) else (f in st.atoms[it].facts or holds_all(st, it, f)) for it in word))

class Contract:
    """a contract used in place of the body at calls"""
    def __init__(s, fn): s.fn = fn
    def apply(s, eng, st, args): return s.fn(eng, st, args)

class LoopBase:
    """common part of all templates: locals modified by the loop are havocked, the rest of the heap is a frame that
    must be unchanged at the back edge; fields of the frame found changed are widened (havocked) and the loop restarted"""
    def havoc_locals(s, st, fr, lp, keep=()):
        for v in sorted(lp["mod"]):
            if v in keep: continue
            t = fr.func.locals.get(v)
            if v in fr.func.memlocals:
                b = fr.env.get(v)
                if b is not None and not isinstance(t, (TArr, TStruct)):
                    o = getobj(st, b)
                    if o is not None: o.fields = {0: (t.size, st.fresh(v.replace("#", "_"), 8 * t.size))}
                continue
            if t is None: fr.env[v] = None; continue
            if fr.env.get(v) is None: continue
            fr.env[v] = Val(st.fresh(v.replace("#", "_"), 8 * t.size), t)
    def frame_start(s, eng, st, exclude):
        """remember the frame; havoc fields known to change"""
        key = (s.key, s.depth)
        w = eng.widen.setdefault(key, set())
        for c in st.heap:
            if isinstance(c, Obj) and not any(c is x for x in exclude):
                for (b, off, size) in w:
                    if str(c.base) == b: c.fields[off] = (size, st.fresh("w", 8 * size))
        s.frame = [(c.copy(), c) for c in st.heap if not any(c is x for x in exclude)]
    def frame_check(s, eng, st, consumed_ok=()):
        """every frame chunk must be present unchanged"""
        key = (s.key, s.depth)
        w = eng.widen[key]
        left = list(st.heap)
        for c0, _ in s.frame:
            hit = None
            for c in left:
                if type(c) is type(c0):
                    if isinstance(c, Obj) and c.base.eq(c0.base): hit = c; break
                    if isinstance(c, Seg) and c.atom == c0.atom: hit = c; break
                    if isinstance(c, Block) and c.base.eq(c0.base): hit = c; break
                    if hasattr(c, "same") and c.same(st, c0): hit = c; break
            if hit is None:
                st.fail("loop invariant: memory outside the loop's own data is preserved", "lost %r" % c0)
            left.remove(hit)
            if isinstance(c0, Obj):
                for off, (sz, v) in c0.fields.items():
                    f = hit.fields.get(off)
                    if f is None or f[0] != sz:
                        st.fail("loop invariant: memory outside the loop's own data is preserved", "field %d of %s" % (off, c0.base))
                    if f[1] is None and v is None: continue
                    if (str(c0.base), off, sz) in w: continue
                    if f[1] is not None and v is not None and (f[1].eq(v) or st.holds(f[1] == v)): continue
                    w.add((str(c0.base), off, sz)); raise Restart("widen")
                for off, (sz, v) in hit.fields.items():
                    if off not in c0.fields and (str(c0.base), off, sz) not in w and hit.kind != "stack":
                        w.add((str(c0.base), off, sz)); raise Restart("widen")
        return left
    # Houdini: candidate facts over the state at the loop head; those that hold at entry and are preserved are kept
    def houdini_enter(s, eng, st, cands_entry):
        """cands_entry: [(name, Bool at entry)] ; returns the names to assume"""
        key = (s.key, s.depth, "h")
        prev = eng.houdini.get(key)
        keep = [n for n, c in cands_entry if (prev is None or n in prev) and c is not None and st.holds(c)]
        eng.houdini[key] = set(keep)
        s.hkey = key
        return keep
    def houdini_check(s, eng, st, cands):
        keep = eng.houdini[s.hkey]
        drop = [n for n, c in cands if n in keep and not (c is not None and st.holds(c))]
        if drop: keep.difference_update(drop); raise Restart("houdini " + drop[0])
        for n in list(keep):
            STATS.obl += 1; STATS.discharged += 1; eng.count("%s:%s loop invariant %s" % (eng.curfn, s.key, n))

def locv(fr, v):
    x = fr.env.get(v)
    return x.v if isinstance(x, Val) else None

def int_locals(fr, lp):
    for v in sorted(lp["mod"]):
        t = fr.func.locals.get(v)
        if v in fr.func.memlocals or not isinstance(t, TInt): continue
        if fr.env.get(v) is None: continue
        yield v, t
def ptr_locals(fr, lp):
    for v in sorted(lp["mod"]):
        t = fr.func.locals.get(v)
        if v in fr.func.memlocals or not isinstance(t, TPtr): continue
        if fr.env.get(v) is None: continue
        yield v, t

class WalkLoop(LoopBase):
    """a cursor walks the nodes of a segment; the visited nodes stay in place (or, for a consuming callback, are gone)"""
    @classmethod
    def matches(cls, eng, st, fr, lp):
        for v, t in ptr_locals(fr, lp):
            x = locv(fr, v)
            hit = False
            for c in st.heap:
                if isinstance(c, Seg) and (c.f.eq(x) or st.holds(c.f == x)):
                    # the cursor must be used to advance: it is assigned in the loop
                    i = cls(); i.cur = v; i.seg = c; i.node = None; i.depth = len(st.frames); i.lp = lp
                    yield i; hit = True; break
            if hit: continue
            for c in st.heap:
                # the front node of a non empty list may already be unfolded
                if isinstance(c, Obj) and c.kind == "node" and c.base.eq(x) and getattr(c, "lay", None) is not None:
                    i = cls(); i.cur = v; i.seg = None; i.node = c.base; i.depth = len(st.frames); i.lp = lp
                    yield i; break
    def refold(s, st):
        c = getobj(st, s.node); lay = c.lay
        # maximal chain from the node to the end; becomes one atom
        prev = st.objload(c, lay.prev, 8)
        word, fp, last = fold_seg(st, c.base, prev, BV(0), lay)
        facts = common_facts(st, word)
        a = st.atom("W", facts); st.setexp_virtual(a, word)
        g = st.add(Seg(a, c.base, prev, last, BV(0), lay)); st.assume(NOT(st.empty(a)))
        s.seg = g
    consume = False
    def cands(s, eng, st, fr, length, last):
        out = []
        for v, t in int_locals(fr, s.lp):
            x = locv(fr, v)
            v0 = s.entry.get(v)
            if x is None or v0 is None: continue
            L = length if t.size == 8 else z3.Extract(8 * t.size - 1, 0, length)
            out.append(("%s counts the visited nodes" % v, x == v0 + L))
        for v, t in ptr_locals(fr, s.lp):
            x = locv(fr, v)
            if x is None: continue
            if v != s.cur: out.append(("%s is the last visited node" % v, x == last))
            out.append(("%s not null" % v, x != 0))
        return out
    def enter(s, eng, st):
        fr = st.frames[-1]
        if s.seg is None: s.refold(st)
        g = s.seg
        for c in st.heap:
            if isinstance(c, Seg) and c.atom == g.atom: g = c
        s.entry = {v: locv(fr, v) for v, t in int_locals(fr, s.lp)}
        s.g = g.copy()
        s.consume = bool(eng.consume)
        keep = s.houdini_enter(eng, st, s.cands(eng, st, fr, BV(0), g.pf))
        s.havoc_locals(st, fr, s.lp)
        facts = st.atoms[g.atom].facts
        s1 = st.atom("V", facts + tuple(eng.walk_preds)); s2 = st.atom("R", facts)
        st.assume(st.atoms[g.atom].len == st.atoms[s1].len + st.atoms[s2].len)
        st.hook_split(g.atom, [s1, s2])
        st.setexp(g.atom, (s1, s2))
        cur = st.fresh("cur"); l1 = st.fresh("last")
        st.remove(g)
        fr.env[s.cur] = Val(cur, fr.func.locals[s.cur])
        pf2 = l1
        if s.consume:
            pf2 = st.fresh("stale")
            if "R" in st.ghost: s.rtail = s.rest_after(st, g.atom); st.ghost["R"] = [s2] + s.rtail
        else: a = st.add(Seg(s1, g.f, g.pf, l1, cur, g.lay))
        b = st.add(Seg(s2, cur, pf2, g.l, g.nl, g.lay))
        s.s1 = s1; s.s2 = s2; s.l1 = l1
        now = dict(s.cands(eng, st, fr, st.atoms[s1].len, l1))
        for n in keep: st.assume(now[n])
        s.frame_start(eng, st, [c for c in st.heap if isinstance(c, Seg) and c.atom in (s1, s2)])
        s.nprev = len(st.ghost.get("visited", ()))
    def rest_after(s, st, atom):
        R = st.expand(st.ghost["R"]); e = st.expand([atom])
        if len(R) >= len(e) and all(same_item(x, y) for x, y in zip(R, e)): return R[len(e):]
        st.fail("iteration order", "the walk does not start at the first element still to visit")
    def check(s, eng, st):
        fr = st.frames[-1]; g = s.g
        cur = locv(fr, s.cur)
        if not s.consume:
            w1, fp, last = fold_seg(st, g.f, g.pf, cur, g.lay, "loop invariant: nodes already visited")
            if not w1: last = g.pf
            w2, fp2, l2 = fold_seg(st, cur, last, g.nl, g.lay, "loop invariant: nodes still to visit")
            st.prove((l2 if w2 else last) == g.l, "loop invariant: end of the walk")
            prove_word(st, w1 + w2, [s.s1, s.s2], "loop invariant: walked nodes are unchanged")
            # progress: at least one more node visited
            n1 = st.length(w1)
            st.prove(UGT(n1, st.atoms[s.s1].len), "loop makes progress (termination)")
            for p in eng.walk_preds: prove_all(st, w1, p, "loop invariant: property of the visited nodes")
        else:
            w2, fp2, l2 = fold_seg(st, cur, None, g.nl, g.lay, "loop invariant: nodes still to visit")
            r2 = norm(st, [s.s2]); w2n = norm(st, w2)
            if len(w2n) >= len(r2): st.fail("loop makes progress (termination)", "no node visited")
            prove_word(st, w2n, r2[len(r2) - len(w2n):], "loop invariant: nodes still to visit")
            if "R" in st.ghost: prove_word(st, st.ghost["R"], w2 + s.rtail, "iteration visits every element in order")
            last = None; n1 = simp(st.atoms[s.s1].len + st.atoms[s.s2].len - st.length(w2))
        s.frame_check(eng, st)
        left = nodes_left(st)
        fr0 = [c for c, _ in s.frame]
        for c in left:
            if not any((isinstance(x, Obj) and isinstance(c, Obj) and x.base.eq(c.base)) or (isinstance(x, Seg) and isinstance(c, Seg) and x.atom == c.atom) for x in fr0):
                st.fail("loop invariant: a visited node was not handed over", repr(c))
        s.houdini_check(eng, st, s.cands(eng, st, fr, n1, last if last is not None else BV(0)))

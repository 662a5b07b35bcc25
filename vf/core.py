"""Symbolic execution engine with separation-logic chunks.  Every step is a deterministic function of the
state; when a step needs to know a condition that the path condition does not settle it raises NeedSplit and is
re-executed under both answers."""
import time, sys, os
import z3
from pycparser import c_ast
from cfront import *
import arith

z3.set_param('rewriter.bv_le2extract', False)
class NeedSplit(Exception):
    def __init__(s, cond): s.cond = cond
class Fail(Exception):
    """an obligation that could not be discharged"""
    def __init__(s, label, detail="", model=None, kind="refuted"):
        Exception.__init__(s, label); s.label = label; s.detail = detail; s.model = model; s.kind = kind
class EndPath(Exception): pass
class Restart(Exception):
    def __init__(s, why): s.why = why

W64 = 64
def BV(n, w=64): return z3.BitVecVal(n, w)
def simp(x): return z3.simplify(x)
def num(x):
    x = z3.simplify(x) if not z3.is_bv_value(x) else x
    return x.as_long() if z3.is_bv_value(x) else None
def snum(x):
    x = z3.simplify(x) if not z3.is_bv_value(x) else x
    return x.as_signed_long() if z3.is_bv_value(x) else None
AND = z3.And; OR = z3.Or; NOT = z3.Not; IMP = z3.Implies; ITE = z3.If
ULT = z3.ULT; ULE = z3.ULE; UGE = z3.UGE; UGT = z3.UGT
TRUE = z3.BoolVal(True); FALSE = z3.BoolVal(False)
def disjoint(a, sa, b, sb): return AND(UGE(a - b, sb), UGE(b - a, sa))

class Stats:
    def __init__(s): s.queries = 0; s.time = 0.0; s.unknown = 0; s.obl = 0; s.discharged = 0; s.labels = {}; s.triv = 0; s.lin = 0; s.sliced = 0
STATS = Stats()

SLOW = float(os.environ.get('VF_SLOW', '0'))
PROF = {} if os.environ.get('VF_PROF') else None
def prof(t, d):
    if PROF is None: return
    f = sys._getframe(d); k = []
    while f and len(k) < 4:
        if f.f_code.co_name not in ("holds", "decide", "prove", "infeasible", "check"): k.append("%s:%d" % (f.f_code.co_name, f.f_lineno))
        f = f.f_back
    k = " < ".join(k); a = PROF.setdefault(k, [0, 0.0]); a[0] += 1; a[1] += time.time() - t
class Solver:
    """one incremental z3 solver, kept in step with the path condition of the current state"""
    def __init__(s, timeout=20000):
        s.s = z3.Solver(); s.s.set("timeout", 700); s.stack = []; s.timeout = timeout; s.cache = {}; s.slices = {}; s.keep = []
    def sync(s, pc):
        k = 0; n = min(len(pc), len(s.stack))
        while k < n and pc[k] is s.stack[k]: k += 1
        while len(s.stack) > k:
            # pop down to the common prefix
            d = len(s.stack) - k
            s.s.pop(d); del s.stack[k:]
        for c in pc[k:]:
            s.s.push(); s.s.add(c); s.stack.append(c)
    def cheap(s, pc, c):
        """is c proved from linear equalities or from the part of the path condition connected to it?"""
        t = time.time()
        try:
            if arith.lin_holds(pc, c): STATS.lin += 1; return True
            if len(pc) < 40: return False
            n = NOT(c); k = (n.get_id(), "slice")
            for rounds in (1, 2):
                sl = arith.slice_pc(pc, c, rounds)
                if len(sl) > 0.6 * len(pc): return False
                key = (n.get_id(), frozenset(x.get_id() for x in sl))
                r = s.slices.get(key)
                if r is None:
                    s2 = z3.Solver(); s2.set("timeout", 400)
                    for x in sl: s2.add(x)
                    s2.add(n); r = s2.check(); s.slices[key] = r; s.keep.append((n, sl))
                if r == z3.unsat: STATS.sliced += 1; return True
            return False
        finally:
            STATS.time += time.time() - t; prof(t, 1)
    def check(s, pc, extra, want_model=False):
        # what was refuted under a subset of the present path condition is refuted
        k = tuple(sorted(e.get_id() for e in extra)); ids = None
        ent = s.cache.get(k)
        if ent:
            ids = frozenset(c.get_id() for c in pc)
            for fs, r, _ in ent:
                if r == z3.unsat and fs <= ids: return (r, None) if want_model else r
                if r == z3.sat and not want_model and fs == ids: return r
        r = s.check1(pc, extra, want_model)
        rr = r[0] if want_model else r
        if rr != z3.unknown: s.cache.setdefault(k, []).append((ids or frozenset(c.get_id() for c in pc), rr, (list(pc), extra)))
        return r
    def check1(s, pc, extra, want_model=False):
        s.sync(pc)
        STATS.queries += 1
        t = time.time()
        s.s.push()
        for e in extra: s.s.add(e)
        r = s.s.check()
        m = None
        if r == z3.unknown:
            # retry from scratch
            s2 = z3.Solver(); s2.set("timeout", s.timeout)
            for c in pc: s2.add(c)
            for e in extra: s2.add(e)
            r = s2.check()
            if want_model and r == z3.sat: m = s2.model()
        elif want_model and r == z3.sat: m = s.s.model()
        s.s.pop()
        STATS.time += time.time() - t
        prof(t, 1)
        if SLOW and time.time() - t > SLOW:
            s3 = z3.Solver()
            for c in pc: s3.add(c)
            for e in extra: s3.add(e)
            fn = "/tmp/slow_%d_%d.smt2" % (os.getpid(), STATS.queries)
            open(fn, "w").write(s3.to_smt2()); print("slow query %.1fs %s -> %s" % (time.time() - t, r, fn), flush=True)
        if r == z3.unknown: STATS.unknown += 1
        return (r, m) if want_model else r

# ------------------------------------------------------------------------------------------ chunks
class Chunk:
    def copy(s):
        c = s.__class__.__new__(s.__class__); c.__dict__.update(s.__dict__); return c
    def candidates(s, st, addr, size): return []
    def sepfacts(s, st, other): return []

class Obj(Chunk):
    """memory with concrete layout: size bytes at base, fields off -> (size, value); skip: range described by another chunk"""
    skip = None; skipall = False
    def __init__(s, base, size, fields=None, kind="obj", tag=None, array=False):
        s.base = base; s.size = size; s.fields = fields or {}; s.kind = kind; s.tag = tag; s.array = array
    def copy(s):
        c = Chunk.copy(s); c.fields = dict(s.fields); return c
    def rootterm(s): return s.base if s.array else None
    def candidates(s, st, addr, size):
        b, c = splitc(addr)
        out = []
        if not s.array:
            if s.skip and s.skip[0] <= c < s.skip[1] and (s.skipall or b.eq(s.base)): return out
            if 0 <= c <= s.size - size: out.append((b == s.base, ("obj", s, c)))
            else:
                b2, c2 = splitc(s.base)
                d = c - c2
                if 0 <= d <= s.size - size: out.append((b == b2, ("obj", s, d)))
        else:
            for off in range(0, s.size - size + 1, size):
                out.append((addr == s.base + off, ("obj", s, off)))
        return out
    def __repr__(s): return "Obj(%s,%s %s)" % (s.base, s.tag, {k: str(v[1]) for k, v in s.fields.items()})

def splitc(a):
    """a = base + const"""
    a = simp(a)
    if z3.is_bv_value(a): return BV(0), a.as_signed_long()
    if z3.is_app_of(a, z3.Z3_OP_BADD):
        ch = a.children()
        k = 0; rest = []
        for c in ch:
            if z3.is_bv_value(c): k += c.as_signed_long()
            else: rest.append(c)
        if k:
            b = rest[0]
            for r in rest[1:]: b = b + r
            return b, k
    return a, 0

def isroot(b): return z3.is_const(b) and not z3.is_bv_value(b)
class Layout:
    """node layout taken from the struct definition in the source"""
    def __init__(s, u, tag, idx="index", extra=()):
        t = u.structs[tag]
        g = lambda n: t.fields[n][0]
        s.size = t.size; s.tag = tag
        s.next = g("next"); s.prev = g("prev"); s.data = g("data"); s.index = g(idx)
        s.idxname = idx; s.extra = extra; s.struct = t

class Elem:
    __slots__ = ("addr", "data", "idx")
    def __init__(s, addr, data, idx): s.addr = addr; s.data = data; s.idx = idx
    def __repr__(s): return "<%s>" % s.addr

class Seg(Chunk):
    """doubly linked segment: atom word, first node f (its prev is pf), last node l (its next is nl)"""
    def __init__(s, atom, f, pf, l, nl, lay):
        s.atom = atom; s.f = f; s.pf = pf; s.l = l; s.nl = nl; s.lay = lay
    def candidates(s, st, addr, size):
        b, c = splitc(addr)
        if not (0 <= c <= s.lay.size - size): return []
        ne = NOT(st.empty(s.atom))
        return [(AND(ne, b == s.f), ("front", s)), (AND(ne, b == s.l), ("back", s))]
    def __repr__(s): return "Seg(%s f=%s pf=%s l=%s nl=%s)" % (s.atom, s.f, s.pf, s.l, s.nl)

class Block(Chunk):
    """token: the right to free [base, base+size)"""
    def __init__(s, base, size, tag="malloc"): s.base = base; s.size = size; s.tag = tag
    def __repr__(s): return "Block(%s,%s)" % (s.base, s.size)

class AtomInfo:
    def __init__(s, name, facts=(), length=None, filt=None):
        s.name = name; s.facts = tuple(facts); s.len = length; s.filt = filt; s.exp = None; s.attr = {}
    def copy(s):
        c = AtomInfo.__new__(AtomInfo); c.__dict__.update(s.__dict__); c.attr = dict(s.attr); return c

# ------------------------------------------------------------------------------------------ state
class Frame:
    def __init__(s, func):
        s.func = func; s.ip = 0; s.env = {}; s.ret = None; s.loops = {}; s.visits = {}
    def copy(s):
        f = Frame(s.func); f.ip = s.ip; f.env = dict(s.env); f.ret = s.ret; f.loops = dict(s.loops); f.visits = dict(s.visits); return f

class State:
    def __init__(s, eng):
        s.eng = eng; s.u = eng.u; s.frames = []; s.heap = []; s.pc = []; s.known = {}; s.atoms = {}; s.ghost = {}
        s.n = 0; s.trace = []; s.fptr = {}; s.writes = []; s.roots = frozenset()
    def copy(s):
        c = State.__new__(State)
        c.eng = s.eng; c.u = s.u; c.frames = [f.copy() for f in s.frames]; c.heap = [x.copy() for x in s.heap]
        c.pc = list(s.pc); c.known = dict(s.known); c.atoms = dict(s.atoms)
        c.ghost = dict(s.ghost); c.n = s.n; c.trace = list(s.trace); c.roots = s.roots; c.fptr = s.fptr; c.writes = list(s.writes)
        return c
    # ---- naming
    def fresh(s, name, w=64):
        s.n += 1
        return z3.BitVec("%s!%d" % (name, s.n), w)
    def freshname(s, name):
        s.n += 1
        return "%s!%d" % (name, s.n)
    # ---- logic
    def assume(s, c):
        c = simp(c)
        if z3.is_true(c): return
        k = s.known.get(c.get_id())
        if k is not None and k[0]: return
        s.pc.append(c); s.known[c.get_id()] = (True, c)
        if z3.is_and(c):
            for x in c.children(): s.known[x.get_id()] = (True, x)
        if z3.is_not(c): s.known[c.arg(0).get_id()] = (False, c.arg(0))
    def holds(s, c):
        """provable from the path condition?"""
        c = simp(c)
        if z3.is_true(c): return True
        if z3.is_false(c): return s.infeasible()
        k = s.known.get(c.get_id())
        if k is not None: return k[0]
        r = s.eng.solver.check(s.pc, [NOT(c)])
        if r == z3.unsat:
            s.known[c.get_id()] = (True, c); return True
        return False
    def infeasible(s):
        k = s.known.get("false")
        if k == len(s.pc): return False
        r = s.eng.solver.check(s.pc, [])
        if r == z3.unsat: return True
        s.known["false"] = len(s.pc)
        return False
    def decide(s, c):
        c = simp(c)
        if z3.is_true(c): return True
        if z3.is_false(c): return False
        k = s.known.get(c.get_id())
        if k is not None: return k[0]
        sv = s.eng.solver
        if sv.check(s.pc, [NOT(c)]) == z3.unsat:
            s.known[c.get_id()] = (True, c); return True
        if sv.check(s.pc, [c]) == z3.unsat:
            s.known[c.get_id()] = (False, c); return False
        raise NeedSplit(c)
    def prove(s, c, label, detail=""):
        """an obligation"""
        e = s.eng
        full = e.label(s, label)
        STATS.obl += 1
        c = simp(c)
        if z3.is_true(c):
            STATS.triv += 1; STATS.discharged += 1; e.count(full); return
        k = s.known.get(c.get_id())
        if k is not None and k[0]:
            STATS.discharged += 1; e.count(full); return
        if e.solver.cheap(s.pc, c): r = z3.unsat
        else: r, m = e.solver.check(s.pc, [NOT(c)], True)
        if r == z3.unsat:
            STATS.discharged += 1; e.count(full)
            s.known[c.get_id()] = (True, c); return
        raise Fail(full, (detail + " goal: " + str(c)[:600]), m, "refuted" if r == z3.sat else "unknown")
    def lemma(s, c, label="lemma"):
        """proved, then used as a fact"""
        s.prove(c, label)
        c = simp(c); s.known.pop(c.get_id(), None); s.assume(c)
    def fail(s, label, detail=""):
        """reaching this point is a failed obligation unless the path is infeasible"""
        STATS.obl += 1
        full = s.eng.label(s, label)
        r, m = s.eng.solver.check(s.pc, [], True)
        if r == z3.unsat:
            STATS.discharged += 1; s.eng.count(full)
            raise EndPath()
        raise Fail(full, detail, m, "refuted" if r == z3.sat else "unknown")
    # ---- atoms
    def atom(s, name, facts=(), filt=None, length=None, nonempty=None):
        nm = s.freshname(name)
        a = AtomInfo(nm, facts, None, filt)
        a.len = z3.BitVec("len_" + nm, 64) if length is None else length
        s.atoms[nm] = a
        s.assume(ULT(a.len, BV(1 << 58)))
        if nonempty is True: s.assume(a.len != 0)
        return nm
    def empty(s, name): return s.atoms[name].len == 0
    def length(s, word):
        t = BV(0)
        for it in word: t = t + (BV(1) if isinstance(it, Elem) else s.atoms[it].len)
        return simp(t)
    def addfacts(s, name, facts):
        a = s.atoms[name].copy(); a.facts = a.facts + tuple(facts); s.atoms[name] = a
    def setexp(s, name, items):
        a = s.atoms[name].copy(); a.exp = tuple(items); s.atoms[name] = a
    def setexp_virtual(s, name, items):
        """a new atom that stands for a known word"""
        s.setexp(name, items)
        s.assume(s.atoms[name].len == s.length(items))
    def expand(s, word):
        out = []
        for it in word:
            if isinstance(it, Elem): out.append(it)
            elif s.atoms[it].exp is not None: out.extend(s.expand(s.atoms[it].exp))
            elif s.known_empty(it): continue
            else: out.append(it)
        return out
    def known_empty(s, it):
        k = s.known.get(simp(s.empty(it)).get_id())
        if k is not None: return k[0]
        c = simp(s.empty(it))
        return z3.is_true(c)
    def contract(s, word):
        """replace expansions by the atoms they came from (oldest possible)"""
        w = list(s.expand(word))
        changed = True
        cand = [(nm, s.atoms[nm]) for nm in s.atoms if s.atoms[nm].exp is not None]
        while changed:
            changed = False
            for nm, a in cand:
                flat = self_flat(s, a.exp, w)
                if not any(same_item(x, y) for x in flat for y in w): continue
                e = [x for x in flat if isinstance(x, Elem) or x in w or not s.holds(s.empty(x))]
                if not e: continue
                n = len(e)
                for i in range(len(w) - n + 1):
                    if all(same_item(x, y) for x, y in zip(w[i:i + n], e)):
                        w[i:i + n] = [nm]; changed = True; break
                if changed: break
        return w
    # ---- heap
    def add(s, chunk):
        r = chunk.rootterm() if hasattr(chunk, "rootterm") else None
        if r is not None: s.root(r)
        for o in s.heap: s.sep(o, chunk)
        s.heap.append(chunk)
        if isinstance(chunk, Obj):
            s.assume(chunk.base != 0); s.assume(ULT(chunk.base, BV(1 << 62)))
        elif isinstance(chunk, Seg):
            e = s.empty(chunk.atom)
            s.assume(IMP(e, AND(chunk.f == chunk.nl, chunk.l == chunk.pf)))
            s.assume(IMP(NOT(e), AND(chunk.f != 0, chunk.l != 0, ULT(chunk.f, BV(1 << 62)), ULT(chunk.l, BV(1 << 62)))))
            if getattr(chunk.lay, "aligned", False): s.assume(IMP(NOT(e), AND(chunk.f & 7 == 0, chunk.l & 7 == 0)))
        return chunk
    def sep(s, a, b):
        for f in sepfacts(s, a, b): s.assume(f)
    def remove(s, chunk):
        for i, c in enumerate(s.heap):
            if c is chunk: del s.heap[i]; return
        raise Exception("chunk not in heap")
    def objs(s): return [c for c in s.heap if isinstance(c, Obj)]
    def segs(s): return [c for c in s.heap if isinstance(c, Seg)]

    def prov(s, addr):
        """the arrays an address is computed from"""
        if not s.roots: return frozenset()
        return leafids(addr) & s.roots
    def root(s, t):
        """t is the base of an array: addresses computed from it stay inside it"""
        s.roots = s.roots | {t.decl().name()}
    def resolve(s, addr, size, what):
        for g in s.heap:
            if hasattr(g, "canon"):
                a = g.canon(s, addr)
                if a is not None: addr = a; break
        pr = s.prov(addr)
        for depth in range(40):
            b, off = splitc(addr); again = 40
            while again:
                # the end of a list segment: either its own node or, if the segment is empty, what is next to it
                left = again - 1; again = 0
                for ch in s.heap:
                    if isinstance(ch, Seg) and (b.eq(ch.l) or b.eq(ch.f)) and s.decide(s.empty(ch.atom)):
                        b = ch.pf if b.eq(ch.l) else ch.nl; addr = simp(b + off); b, off = splitc(addr); again = left; break
            for o in s.heap:
                if isinstance(o, Obj):
                    d = simp(addr - o.base)
                    if z3.is_bv_value(d):
                        v = d.as_long()
                        if v + size <= o.size and not (o.skip and o.skip[0] <= v < o.skip[1]): return o, v
            cands = []
            for ch in s.heap:
                if isinstance(ch, Obj):
                    if s.prov(ch.base) != pr: continue
                elif isinstance(ch, Seg):
                    if pr: continue
                for cond, act in ch.candidates(s, addr, size):
                    cond = simp(cond)
                    if z3.is_false(cond): continue
                    if z3.is_true(cond): cands = [(cond, act)]; break
                    k = s.known.get(cond.get_id())
                    if k is not None:
                        if not k[0]: continue
                        cands = [(cond, act)]; break
                    cands.append((cond, act))
                else: continue
                break
            hit = None
            for cond, act in cands:
                if s.holds(cond): hit = act; break
            if hit is None:
                for cond, act in cands:
                    if s.decide(cond): hit = act; break
            if hit is None:
                s.fail("memory access (%s)" % what, "address %s is not in memory owned here" % str(simp(addr))[:200])
            STATS.obl += 1; STATS.discharged += 1; s.eng.count(s.eng.label(s, "memory access"))
            if hit[0] == "obj": return hit[1], hit[2]
            if hit[0] == "direct": return hit[1], hit[2]
            s.unfold(hit)
        raise Fail(s.eng.label(s, "memory access"), "unfolding does not end", None, "unknown")

    def unfold(s, act):
        if act[0] == "front": s.unfold_front(act[1])
        elif act[0] == "back": s.unfold_back(act[1])
        else: act[1].unfold(s, act)

    def mknode(s, base, nxt, prv, lay, atom=None, data=None, idx=None):
        o = Obj(base, lay.size, {}, "node", lay.tag)
        d = data if data is not None else s.fresh("data")
        i = idx if idx is not None else s.fresh("idx")
        o.fields[lay.next] = (8, nxt); o.fields[lay.prev] = (8, prv); o.fields[lay.data] = (8, d); o.fields[lay.index] = (8, i)
        o.lay = lay
        for nm, (off, sz) in lay.extra:
            o.fields[off] = (sz, s.fresh(nm, 8 * sz))
        return o
    def inst(s, atom, e):
        for f in s.atoms[atom].facts: s.assume(f(e))
    def unfold_front(s, g):
        s.remove(g)
        n1 = s.fresh("n")
        o = s.mknode(g.f, n1, g.pf, g.lay)
        e = Elem(g.f, o.fields[g.lay.data][1], o.fields[g.lay.index][1])
        s.inst(g.atom, e)
        a = s.atoms[g.atom]
        r = s.atom("S", a.facts); s.assume(a.len == s.atoms[r].len + 1)
        s.hook_split(g.atom, [e, r])
        s.setexp(g.atom, (e, r))
        s.add(o); s.add(Seg(r, n1, g.f, g.l, g.nl, g.lay))
        return o, r
    def unfold_back(s, g):
        s.remove(g)
        p1 = s.fresh("p")
        o = s.mknode(g.l, g.nl, p1, g.lay)
        e = Elem(g.l, o.fields[g.lay.data][1], o.fields[g.lay.index][1])
        s.inst(g.atom, e)
        a = s.atoms[g.atom]
        r = s.atom("S", a.facts); s.assume(a.len == s.atoms[r].len + 1)
        s.hook_split(g.atom, [r, e])
        s.setexp(g.atom, (r, e))
        s.add(o); s.add(Seg(r, g.f, g.pf, p1, g.l, g.lay))
        return o, r
    def hook_split(s, atom, items):
        for h in s.eng.split_hooks: h(s, atom, items)

    def load(s, addr, size, what="read"):
        o, off = s.resolve(addr, size, what)
        if not isinstance(o, Obj): return o.dload(s, off, size)
        return s.objload(o, off, size)
    def objload(s, o, off, size):
        f = o.fields.get(off)
        if f and f[0] == size:
            if f[1] is None:
                v = s.fresh("uninit", 8 * size); o.fields[off] = (size, v); return v
            return f[1]
        # covering field
        for fo, (fs, fv) in o.fields.items():
            if fo <= off and off + size <= fo + fs and fv is not None:
                lo = (off - fo) * 8
                return simp(z3.Extract(lo + 8 * size - 1, lo, fv))
        parts = []; p = off
        while p < off + size:
            f = o.fields.get(p)
            if f and p + f[0] <= off + size:
                v = f[1] if f[1] is not None else s.fresh("uninit", 8 * f[0])
                parts.append(v); p += f[0]
            else:
                ov = [x for x, (z, _) in o.fields.items() if x < p < x + z]
                if ov: raise Unsupported("overlapping access")
                nx = min([x for x in o.fields if x > p] + [off + size])
                nx = min(nx, off + size)
                v = s.fresh("mem", 8 * (nx - p)); o.fields[p] = (nx - p, v); parts.append(v); p = nx
        if len(parts) == 1: return parts[0]
        return simp(z3.Concat(*reversed(parts)))
    def store(s, addr, size, val, what="write"):
        o, off = s.resolve(addr, size, what)
        if not isinstance(o, Obj):
            o.dstore(s, off, size, val); s.writes.append(("array", None, off)); return o
        s.objstore(o, off, size, val)
        s.writes.append((o.kind, o.base, off))
        return o
    def objstore(s, o, off, size, val):
        if o.kind == "stack" and s.eng.name_assign and val.size() in s.eng.name_assign and val.num_args():
            k = s.fresh("v_mem", val.size()); s.assume(k == val); s.ghost["defs"] = s.ghost.get("defs", ()) + ((k, val),); val = k
        f = o.fields.get(off)
        if f and f[0] == size: o.fields[off] = (size, val); return
        for fo in list(o.fields):
            fs, fv = o.fields[fo]
            if fo < off + size and off < fo + fs:
                # split the old field
                del o.fields[fo]
                if fv is None: fv = s.fresh("uninit", 8 * fs)
                if fo < off: o.fields[fo] = (off - fo, simp(z3.Extract(8 * (off - fo) - 1, 0, fv)))
                if fo + fs > off + size:
                    lo = 8 * (off + size - fo)
                    o.fields[off + size] = (fo + fs - off - size, simp(z3.Extract(8 * fs - 1, lo, fv)))
        o.fields[off] = (size, val)

def self_flat(s, exp, w):
    return s.expand(exp)
def same_item(x, y):
    if isinstance(x, Elem) and isinstance(y, Elem):
        return x is y or (x.addr.eq(y.addr) and x.data.eq(y.data) and x.idx.eq(y.idx))
    return not isinstance(x, Elem) and not isinstance(y, Elem) and x == y

LEAVES = {}
def leafids(t):
    """ids of the uninterpreted constants, names of the uninterpreted functions in t"""
    r = LEAVES.get(t.get_id())
    if r is None:
        seen = set(); work = [t]; out = set()
        while work:
            x = work.pop()
            if x.get_id() in seen: continue
            seen.add(x.get_id())
            if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                out.add(x.decl().name())
            work.extend(x.children())
        r = (t, frozenset(out)); LEAVES[t.get_id()] = r
    return r[1]
def sepfacts(st, a, b):
    """disjointness facts between two chunks.  Memory with different provenance (different array it is computed from,
    or none) is never the target of the same access, see State.resolve; no facts are needed there"""
    if isinstance(b, Obj) and isinstance(a, Obj):
        if a.kind == "tcell" or b.kind == "tcell" or st.prov(a.base) != st.prov(b.base): return []
        return [a.base != b.base]
    if isinstance(a, Seg) and isinstance(b, Obj): a, b = b, a
    if isinstance(a, Obj) and isinstance(b, Seg):
        if st.prov(a.base): return []
        return [IMP(NOT(st.empty(b.atom)), AND(b.f != a.base, b.l != a.base))]
    if isinstance(a, Seg) and isinstance(b, Seg):
        return [IMP(AND(NOT(st.empty(a.atom)), NOT(st.empty(b.atom))), AND(a.f != b.f, a.l != b.l, a.f != b.l, a.l != b.f))]
    if hasattr(b, "sepfacts"):
        r = b.sepfacts(st, a)
        if r: return r
    if hasattr(a, "sepfacts"):
        return a.sepfacts(st, b)
    return []

# ------------------------------------------------------------------------------------------ values
class Val:
    __slots__ = ("v", "t")
    def __init__(s, v, t): s.v = v; s.t = t

def promote(v):
    t = v.t
    if isinstance(t, TInt) and t.size < 4:
        return Val(conv(v.v, t, I32), I32)
    return v
def conv(v, ft, tt):
    if isinstance(tt, TVoid): return v
    fs = v.size(); ts = 8 * tt.size if not isinstance(tt, (TFunc,)) else 64
    if fs == ts: return v
    if fs > ts: return simp(z3.Extract(ts - 1, 0, v))
    if isinstance(ft, TInt) and ft.signed: return simp(z3.SignExt(ts - fs, v))
    return simp(z3.ZeroExt(ts - fs, v))
def common(a, b):
    a = promote(a); b = promote(b)
    ta, tb = a.t, b.t
    if isinstance(ta, TPtr) or isinstance(tb, TPtr):
        t = ta if isinstance(ta, TPtr) else tb
        return Val(conv(a.v, ta, U64), U64), Val(conv(b.v, tb, U64), U64), U64
    if ta.size == tb.size: t = ta if not ta.signed else tb
    else: t = ta if ta.size > tb.size else tb
    return Val(conv(a.v, ta, t), t), Val(conv(b.v, tb, t), t), t

def leaves(t, off=0):
    if isinstance(t, TStruct):
        for n, (o, ft) in t.fields.items(): yield from leaves(ft, off + o)
    elif isinstance(t, TArr):
        for k in range(t.n): yield from leaves(t.el, off + k * t.el.size)
    else: yield off, t.size

UF = {}
def ufun(name, *sorts):
    k = (name,) + tuple(str(x) for x in sorts)
    if k not in UF: UF[k] = z3.Function(name, *sorts)
    return UF[k]
B64 = z3.BitVecSort(64); B32 = z3.BitVecSort(32); INT = z3.IntSort(); BOOLS = z3.BoolSort()

MULABS = z3.Function("product", z3.BitVecSort(64), z3.BitVecSort(64), z3.BitVecSort(64))
class Engine:
    def __init__(s, unit):
        s.u = unit; s.solver = Solver(); s.contracts = {}; s.split_hooks = []; s.curfn = None
        s.maxpaths = 20000; s.paths = 0; s.loopplan = {}; s.labels = {}; s.inline_only = set(); s.notes = []
        s.deadline = None; s.templates = []; s.widen = {}; s.houdini = {}; s.covered = set(); s.used_contracts = set(); s.inlined = set()
        s.exits = 0; s.frame_callbacks = []; s.consume = False; s.walk_preds = []; s.mulfacts = False; s.done = False; s.rehash = None; s.psi = None; s.loopmode = {}; s.firstfail = []
    def label(s, st, label):
        fr = st.frames[-1] if st.frames else None
        if fr is not None and fr.ip < len(fr.func.code):
            ins = fr.func.code[fr.ip]
            return "%s:%s:%d %s" % (s.curfn, fr.func.name, ins.line, label)
        return "%s: %s" % (s.curfn, label)
    def count(s, full): s.labels[full] = s.labels.get(full, 0) + 1

    # ---- locals
    def var_get(s, st, name):
        fr = st.frames[-1]
        if name in fr.func.memlocals:
            t = fr.func.locals[name]
            a = fr.env[name]
            if isinstance(t, TArr): return Val(a, TPtr(t.el))
            if isinstance(t, TStruct): return Val(a, t)
            return Val(st.load(a, t.size, name), t)
        v = fr.env.get(name)
        if v is None:
            st.fail("read of uninitialised variable %s" % name.split("#")[0])
        return v
    def var_set(s, st, name, val):
        fr = st.frames[-1]
        t = fr.func.locals.get(name)
        if t is None:   # temp
            fr.env[name] = val; return
        v = conv(val.v, val.t, t)
        if name in fr.func.memlocals:
            st.store(fr.env[name], t.size, v, name); return
        if s.name_assign and v.size() in s.name_assign and isinstance(t, TInt) and v.num_args():
            k = st.fresh("v_" + name.split("#")[0], v.size()); st.assume(k == v); st.ghost["defs"] = st.ghost.get("defs", ()) + ((k, v),); v = k
        fr.env[name] = Val(v, t)
    def declare(s, st, name):
        fr = st.frames[-1]
        t = fr.func.locals[name]
        if name in fr.func.memlocals:
            old = fr.env.get(name)
            if old is not None:
                for c in st.heap:
                    if isinstance(c, Obj) and c.base.eq(old):
                        c.fields = {}
                        return
            b = st.fresh("stk_" + name.split("#")[0])
            st.add(Obj(b, t.size, {}, "stack", name, array=isinstance(t, TArr)))
            fr.env[name] = b
        else: fr.env[name] = None

    # ---- expressions
    def truth(s, st, v): return simp(v.v != 0)
    def lval(s, st, n):
        """('var',name,t) or ('mem',addr,t)"""
        if isinstance(n, c_ast.ID):
            fr = st.frames[-1]
            if n.name in fr.func.locals:
                t = fr.func.locals[n.name]
                if n.name in fr.func.memlocals:
                    return ("mem", fr.env[n.name], t)
                return ("var", n.name, t)
            if n.name in s.u.globals: raise Unsupported("global " + n.name)
            raise Unsupported("unknown identifier " + n.name)
        if isinstance(n, c_ast.UnaryOp) and n.op == "*":
            p = s.ev(st, n.expr)
            if not isinstance(p.t, TPtr): raise Unsupported("deref of non pointer")
            return ("mem", p.v, p.t.to)
        if isinstance(n, c_ast.ArrayRef):
            a = s.ev(st, n.name); i = promote(s.ev(st, n.subscript))
            if not isinstance(a.t, TPtr) and isinstance(i.t, TPtr): a, i = i, a
            if not isinstance(a.t, TPtr): raise Unsupported("index of non pointer")
            return ("mem", simp(a.v + conv(i.v, i.t, I64) * BV(a.t.to.size)), a.t.to)
        if isinstance(n, c_ast.StructRef):
            if n.type == "->":
                p = s.ev(st, n.name); base = p.v; t = p.t.to
            else:
                l = s.lval(st, n.name)
                if l[0] != "mem": raise Unsupported("struct value")
                base = l[1]; t = l[2]
            if not isinstance(t, TStruct) or t.fields is None: raise Unsupported("field of non struct")
            off, ft = t.fields[n.field.name]
            return ("mem", simp(base + BV(off)), ft)
        if isinstance(n, c_ast.Cast):
            raise Unsupported("cast lvalue")
        raise Unsupported("lvalue %s" % type(n).__name__)
    def lread(s, st, l):
        if l[0] == "var": return s.var_get(st, l[1])
        t = l[2]
        if isinstance(t, TArr): return Val(l[1], TPtr(t.el))
        if isinstance(t, TStruct): return Val(l[1], t)
        if isinstance(t, TFunc): return Val(l[1], TPtr(t))
        return Val(st.load(l[1], t.size), t)
    def lwrite(s, st, l, v):
        if l[0] == "var": s.var_set(st, l[1], v); return
        t = l[2]
        if isinstance(t, TStruct):
            vals = [(o, sz, st.load(simp(v.v + BV(o)), sz, "struct copy")) for o, sz in leaves(t)]
            for o, sz, x in vals: st.store(simp(l[1] + BV(o)), sz, x, "struct copy")
            return
        st.store(l[1], t.size, conv(v.v, v.t, t))
    def ev(s, st, n):
        if isinstance(n, c_ast.Constant):
            if n.type == "char": return Val(BV(s.u.builder.const(n), 32), I32)
            if n.type == "string": raise Unsupported("string literal")
            x, t = parse_int(n.value)
            return Val(BV(x, 8 * t.size), t)
        if isinstance(n, c_ast.ID):
            fr = st.frames[-1]
            if n.name in fr.func.locals: return s.var_get(st, n.name)
            if n.name in s.u.enums: return Val(BV(s.u.enums[n.name], 32), I32)
            if n.name in s.u.protos: return Val(z3.BitVec("fn_" + n.name, 64), TPtr(s.u.protos[n.name]))
            if n.name in s.u.globals: return s.glob(st, n.name)
            raise Unsupported("identifier " + n.name)
        if isinstance(n, c_ast.Cast):
            t = s.u.builder.typ(n.to_type); v = s.ev(st, n.expr)
            if isinstance(t, TVoid): return Val(v.v, VOID)
            return Val(conv(v.v, v.t, t), t)
        if isinstance(n, (c_ast.ArrayRef, c_ast.StructRef)): return s.lread(st, s.lval(st, n))
        if isinstance(n, c_ast.UnaryOp):
            op = n.op
            if op == "*": return s.lread(st, s.lval(st, n))
            if op == "&":
                if isinstance(n.expr, c_ast.UnaryOp) and n.expr.op == "*": return s.ev(st, n.expr.expr)
                l = s.lval(st, n.expr)
                if l[0] != "mem": raise Unsupported("address of register variable")
                t = l[2]
                return Val(l[1], TPtr(t))
            if op == "sizeof":
                if isinstance(n.expr, c_ast.Typename): return Val(BV(s.u.builder.typ(n.expr).size), U64)
                return Val(BV(s.typeof(st, n.expr).size), U64)
            if op in ("++", "--", "p++", "p--"):
                l = s.lval(st, n.expr); v = s.lread(st, l)
                d = v.t.to.size if isinstance(v.t, TPtr) else 1
                nv = simp(v.v + d) if "+" in op else simp(v.v - d)
                s.lwrite(st, l, Val(nv, v.t))
                return v if op[0] == "p" else Val(nv, v.t)
            v = promote(s.ev(st, n.expr))
            if op == "-": return Val(simp(-v.v), v.t)
            if op == "+": return v
            if op == "~": return Val(simp(~v.v), v.t)
            if op == "!": return Val(ITE(v.v == 0, BV(1, 32), BV(0, 32)), I32)
            raise Unsupported("unary " + op)
        if isinstance(n, c_ast.Assignment):
            if n.op == "=":
                r = s.ev(st, n.rvalue); l = s.lval(st, n.lvalue)
                s.lwrite(st, l, r)
                return r if isinstance(r.t, TStruct) else Val(conv(r.v, r.t, l[2]), l[2])
            r = s.ev(st, n.rvalue)
            l = s.lval(st, n.lvalue); a = s.lread(st, l)
            v = s.binop(st, n.op[:-1], a, r)
            v = Val(conv(v.v, v.t, l[2]), l[2])
            s.lwrite(st, l, v)
            return v
        if isinstance(n, c_ast.BinaryOp):
            a = s.ev(st, n.left); b = s.ev(st, n.right)
            return s.binop(st, n.op, a, b)
        if isinstance(n, c_ast.TernaryOp):
            c = s.ev(st, n.cond); a = s.ev(st, n.iftrue); b = s.ev(st, n.iffalse)
            if isinstance(a.t, TPtr) or isinstance(b.t, TPtr):
                t = a.t if isinstance(a.t, TPtr) else b.t
                return Val(simp(ITE(c.v != 0, conv(a.v, a.t, U64), conv(b.v, b.t, U64))), t)
            x, y, t = common(a, b)
            return Val(simp(ITE(c.v != 0, x.v, y.v)), t)
        if isinstance(n, c_ast.FuncCall): return s.builtin(st, n)
        raise Unsupported("expression %s" % type(n).__name__)
    def typeof(s, st, n):
        if isinstance(n, c_ast.ID): return st.frames[-1].func.locals[n.name]
        if isinstance(n, c_ast.StructRef):
            t = s.typeof(st, n.name)
            if n.type == "->": t = t.to
            return t.fields[n.field.name][1]
        if isinstance(n, c_ast.ArrayRef):
            t = s.typeof(st, n.name)
            return t.el if isinstance(t, TArr) else t.to
        if isinstance(n, c_ast.UnaryOp) and n.op == "*":
            t = s.typeof(st, n.expr)
            return t.el if isinstance(t, TArr) else t.to
        if isinstance(n, c_ast.Cast): return s.u.builder.typ(n.to_type)
        raise Unsupported("sizeof expression")
    def glob(s, st, name):
        t, init = s.u.globals[name]
        if isinstance(t, TInt) and init is not None and s.u.builder.tryconst(init) is not None:
            return Val(BV(s.u.builder.const(init), 8 * t.size), t)
        raise Unsupported("global " + name)
    def builtin(s, st, n):
        nm = n.name.name
        if nm == "__builtin_unreachable": st.fail("unreachable"); 
        a = [s.ev(st, x) for x in n.args.exprs]
        if nm in ("__builtin_clz", "__builtin_clzll", "__builtin_clzl", "__builtin_ctz", "__builtin_ctzll", "__builtin_ctzl"):
            w = 32 if nm in ("__builtin_clz", "__builtin_ctz") else 64
            v = conv(a[0].v, a[0].t, U32 if w == 32 else U64)
            st.prove(v != 0, "%s argument not zero" % nm)
            k = num(v)
            if "clz" in nm:
                if k is not None: return Val(BV(w - k.bit_length(), 32), I32)
                return Val(s.ilog(st, v, w, True), I32)
            if k is not None: return Val(BV((k & -k).bit_length() - 1, 32), I32)
            return Val(s.ctz(st, v, w), I32)
        raise Unsupported(nm)
    def ilog(s, st, v, w, clz):
        """clz(v) = w-1-k where k is the unique index with v>>k == 1"""
        key = ("ilog", v.get_id(), w)
        g = st.ghost.get(key)
        if g is None:
            k = z3.BitVec("ilog_%d_%d" % (w, v.get_id()), w)
            st.assume(AND(ULT(k, BV(w, w)), z3.LShR(v, k) == 1))
            g = (k, v); st.ghost[key] = g
        k = g[0]
        k32 = simp(z3.Extract(31, 0, k)) if w == 64 else k
        # clz = (w-1) - k ; as k < w this equals k ^ (w-1)
        return k32 ^ BV(w - 1, 32)
    def ctz(s, st, v, w):
        key = ("ctz", v.get_id(), w)
        g = st.ghost.get(key)
        if g is None:
            k = z3.BitVec("ctz_%d_%d" % (w, v.get_id()), w)
            one = BV(1, w)
            st.assume(AND(ULT(k, BV(w, w)), z3.LShR(v, k) & one == one, (v & ((one << k) - one)) == 0))
            g = (k, v); st.ghost[key] = g
        k = g[0]
        return simp(z3.Extract(31, 0, k)) if w == 64 else k
    def binop(s, st, op, a, b):
        if op in ("+", "-") and isinstance(a.t, TPtr) and not isinstance(b.t, TPtr):
            b = promote(b)
            d = conv(b.v, b.t, I64) * BV(max(1, a.t.to.size))
            return Val(simp(a.v + d) if op == "+" else simp(a.v - d), a.t)
        if op == "+" and isinstance(b.t, TPtr) and not isinstance(a.t, TPtr): return s.binop(st, op, b, a)
        if op == "-" and isinstance(a.t, TPtr) and isinstance(b.t, TPtr):
            d = a.v - b.v; z = a.t.to.size
            if z == 1: return Val(simp(d), I64)
            return Val(simp(d / BV(z)), I64)
        if op in ("<<", ">>"):
            a = promote(a); b = promote(b)
            w = a.v.size()
            amt = conv(b.v, b.t, a.t) if b.v.size() <= w else b.v
            st.prove(ULT(b.v, BV(w, b.v.size())), "shift amount in range")
            if b.v.size() > w: amt = simp(z3.Extract(w - 1, 0, b.v))
            if op == "<<":
                if num(a.v) == 1:
                    for x, y in st.ghost.get("pow", ()):
                        if x.eq(simp(amt)) or st.holds(x == amt): return Val(y, a.t)
                return Val(simp(a.v << amt), a.t)
            return Val(simp(a.v >> amt) if a.t.signed else simp(z3.LShR(a.v, amt)), a.t)
        x, y, t = common(a, b)
        u = not t.signed
        if op in ("==", "!=", "<", ">", "<=", ">="):
            c = {"==": lambda: x.v == y.v, "!=": lambda: x.v != y.v,
                 "<": lambda: ULT(x.v, y.v) if u else x.v < y.v, ">": lambda: UGT(x.v, y.v) if u else x.v > y.v,
                 "<=": lambda: ULE(x.v, y.v) if u else x.v <= y.v, ">=": lambda: UGE(x.v, y.v) if u else x.v >= y.v}[op]()
            return Val(simp(ITE(c, BV(1, 32), BV(0, 32))), I32)
        if op == "+": return Val(simp(x.v + y.v), t)
        if op == "-": return Val(simp(x.v - y.v), t)
        if op == "*": return Val(simp(s.mul(st, x.v, y.v)), t)
        if op == "&": return Val(simp(x.v & y.v), t)
        if op == "|": return Val(simp(x.v | y.v), t)
        if op == "^": return Val(simp(x.v ^ y.v), t)
        if op in ("/", "%"):
            st.prove(y.v != 0, "division by zero")
            return s.div(st, op, x.v, y.v, t, u)
        raise Unsupported("operator " + op)
    mulabs = None
    def mul(s, st, a, b):
        # products of two unknowns are abstracted: only equal factors give equal products
        if s.mulabs is not None and a.size() == 64 and num(a) is None and num(b) is None:
            s.abstracted = True
            if b.eq(s.mulabs): return MULABS(a, b)
            if a.eq(s.mulabs): return MULABS(b, a)
            return MULABS(a, b) if a.get_id() <= b.get_id() else MULABS(b, a)
        return a * b
    abstracted = False
    def div(s, st, op, a, b, t, u):
        if op == "/": return Val(simp(z3.UDiv(a, b) if u else a / b), t)
        return Val(simp(z3.URem(a, b) if u else z3.SRem(a, b)), t)

    # ---- calls
    def docall(s, st, ins):
        fr = st.frames[-1]
        fe = ins.a
        name = None; target = None
        if isinstance(fe, c_ast.ID) and fe.name not in fr.func.locals: name = fe.name
        else:
            target = s.ev(st, fe)
        args = [s.ev(st, a) for a in ins.b]
        if name is None:
            h = st.fptr.get(target.v.get_id())
            if h is None:
                for kid, hh in list(st.fptr.items()):
                    if st.holds(target.v == hh[1]): h = hh; break
            if h is None: st.fail("call through an unknown function pointer")
            r = h[0](st, args)
            s.finish_call(st, ins, r); return
        if name in LIBC:
            r = LIBC[name](s, st, args)
            s.finish_call(st, ins, r); return
        pt = s.u.protos.get(name)
        if pt is not None:
            args = [Val(conv(a.v, a.t, p), p) if not isinstance(p, TStruct) else a for a, p in zip(args, pt.params)]
        con = s.contracts.get(name)
        if con is not None and name not in s.inline_only:
            s.used_contracts.add(name)
            r = con.apply(s, st, args)
            s.finish_call(st, ins, r); return
        f = s.u.funcs.get(name)
        if f is None: raise Unsupported("call of unknown function " + name)
        if any(x.func is f for x in st.frames) and sum(1 for x in st.frames if x.func is f) > s.maxrec: raise Unsupported("recursion without contract in " + name)
        s.inlined.add(name)
        nf = Frame(f)
        nf.ret = ins.c
        st.frames.append(nf)
        s.bind(st, nf, args)
        return "pushed"
    maxrec = 0
    name_assign = ()
    def bind(s, st, nf, args):
        for (pn, pt), a in zip(nf.func.params, args):
            if pn in nf.func.memlocals:
                b = st.fresh("stk_" + pn)
                st.add(Obj(b, pt.size, {0: (pt.size, conv(a.v, a.t, pt))}, "stack", pn))
                nf.env[pn] = b
            else: nf.env[pn] = Val(conv(a.v, a.t, pt), pt)
    def finish_call(s, st, ins, r):
        if ins.c is not None:
            if r is None: raise Unsupported("void value used")
            st.frames[-1].env[ins.c] = r
        st.frames[-1].ip += 1

    # ---- stepping
    def step(s, st):
        """executes one instruction in place; returns False when the outermost function returned"""
        fr = st.frames[-1]
        lp = fr.func.loops.get(fr.ip)
        # leaving loops
        for h in list(fr.loops):
            if fr.ip not in fr.func.loops[h]["body"]: del fr.loops[h]
        for h in list(fr.visits):
            if fr.ip not in fr.func.loops[h]["body"]: del fr.visits[h]
        if lp is not None and not st.ghost.get("skiphead"):
            if s.at_loop(st, fr, lp): return True
        st.ghost.pop("skiphead", None)
        ins = fr.func.code[fr.ip]
        op = ins.op
        if op == "expr": s.ev(st, ins.a); fr.ip += 1
        elif op == "tset":
            v = s.ev(st, ins.b)
            fr.env[ins.a] = promote(v); fr.ip += 1
        elif op == "decl": s.declare(st, ins.a); fr.ip += 1
        elif op == "init":
            t = fr.func.locals[ins.a]
            if not isinstance(t, TArr) or isinstance(t.el, (TArr, TStruct)):
                if isinstance(t, TStruct):
                    offs = list(t.fields.values())
                    for (o, ft), e in zip(offs, ins.b):
                        v = s.ev(st, e); st.store(simp(fr.env[ins.a] + BV(o)), ft.size, conv(v.v, v.t, ft))
                    fr.ip += 1; return True
                raise Unsupported("initialiser")
            for k, e in enumerate(ins.b):
                v = s.ev(st, e); st.store(simp(fr.env[ins.a] + BV(k * t.el.size)), t.el.size, conv(v.v, v.t, t.el))
            for k in range(len(ins.b), t.n or 0):
                st.store(simp(fr.env[ins.a] + BV(k * t.el.size)), t.el.size, BV(0, 8 * t.el.size))
            fr.ip += 1
        elif op == "jmp": fr.ip = ins.a
        elif op == "br":
            c = s.truth(st, s.ev(st, ins.a))
            d = st.decide(c)
            fr.ip = ins.b if d else ins.c
        elif op == "switch":
            v = promote(s.ev(st, ins.a))
            for k, l in ins.b:
                if st.decide(v.v == BV(k, v.v.size())): fr.ip = l; break
            else: fr.ip = ins.c
        elif op == "call":
            s.docall(st, ins)
        elif op == "ret":
            v = s.ev(st, ins.a) if ins.a is not None else None
            if v is not None and not isinstance(fr.func.ret, TVoid): v = Val(conv(v.v, v.t, fr.func.ret), fr.func.ret)
            # release stack objects
            for nm in fr.func.memlocals:
                b = fr.env.get(nm)
                if b is None: continue
                for c in list(st.heap):
                    if isinstance(c, Obj) and c.kind == "stack" and c.base.eq(b): st.heap.remove(c)
            st.frames.pop()
            if not st.frames:
                st.ghost["ret"] = v
                return False
            s.finish_call(st, st.frames[-1].func.code[st.frames[-1].ip], v)
        else: raise Unsupported(op)
        return True

    # ---- loops
    def at_loop(s, st, fr, lp):
        """True if the head was handled and the path continues from the (generalised) state"""
        h = fr.ip
        inst = fr.loops.get(h)
        if inst is not None:
            inst.check(s, st)
            raise EndPath()
        key = (fr.func.name, h)
        order = s.loopplan.get(key, 0)
        k = 0
        found = [i for T in s.templates for i in T.matches(s, st, fr, lp)]
        s.loopopts[key] = max(s.loopopts.get(key, 0), len(found) + (1 if found and s.unroll_plan else 0))
        for i in found[order:]:
            i.key = key
            T = type(i)
            s.loops_done[key] = (T.__name__, lp["line"])
            i.enter(s, st)
            st.frames[-1].loops[h] = i
            st.ghost["skiphead"] = True
            return True
        # unroll
        n = fr.visits.get(h, 0) + 1
        fr.visits[h] = n
        if n > s.unroll_limit: raise Unsupported("no invariant fits the loop at %s:%d" % (fr.func.name, lp["line"]))
        s.loops_done.setdefault(key, ("unrolled", lp["line"]))
        return False
    unroll_limit = 130
    on_fail = None        # told about the first failure before other choices of invariants are tried
    unroll_plan = False   # a loop may also be executed step by step
    loops_done = {}
    loopopts = {}

    # ---- exploration
    def explore(s, st0, on_exit):
        """depth first over all paths; on_exit(st) runs (with splits) at the return of the function"""
        work = [(st0, "run")]; failed = None
        while work:
            if s.deadline and time.process_time() > s.deadline: raise Fail("%s: time limit" % s.curfn, "", None, "unknown")
            st, mode = work.pop()
            s.paths += 1
            if s.paths > s.maxpaths: raise Fail("%s: too many paths" % s.curfn, "", None, "unknown")
            while True:
                if s.deadline and time.process_time() > s.deadline: raise Fail("%s: time limit" % s.curfn, "", None, "unknown")
                work_st = st.copy()
                try:
                    if mode == "run":
                        act = any(fr.loops for fr in st.frames)
                        more = s.step(work_st)
                        st = work_st
                        if not more: mode = "exit"
                        if act and not any(fr.loops for fr in st.frames) and any(s.houdini.values()):
                            # loop bodies first: they decide which invariant candidates hold
                            work.insert(0, (st, mode)); break
                    else:
                        on_exit(work_st)
                        if not s.exits and not st.infeasible(): s.exits += 1
                        break
                except NeedSplit as ns:
                    # learn facts discovered by the aborted step
                    st.known.update({k: v for k, v in work_st.known.items() if k not in st.known and k != "false"} if len(work_st.pc) == len(st.pc) else {})
                    b = st.copy(); b.assume(NOT(ns.cond)); b.note(ns.cond, False)
                    st.assume(ns.cond); st.note(ns.cond, True)
                    work.append((b, mode))
                    continue
                except EndPath:
                    break
                except Fail as f:
                    if not hasattr(f, "trace"): f.trace = list(work_st.trace); f.heap = [repr(c)[:300] for c in work_st.heap]
                    # a wrong invariant candidate may be to blame: it shows when a loop body is finished
                    if failed is None: failed = f
                    if not any(s.houdini.values()): raise failed
                    work = [x for x in work if any(fr.loops for fr in x[0].frames)]
                    break
        if failed is not None: raise failed

def _note(s, c, v):
    fr = s.frames[-1] if s.frames else None
    ln = fr.func.code[fr.ip].line if fr else 0
    s.trace.append("%s%s%s" % (("%d: " % ln), "" if v else "NOT ", str(c)[:160]))
State.note = _note

# ------------------------------------------------------------------------------------------ libc
def l_assert(e, st, a):
    st.prove(a[0].v != 0, "assert"); return None
def szarg(a): return conv(a.v, a.t, U64)
def l_malloc(e, st, a): return e.alloc(st, szarg(a[0]), False)
def l_calloc(e, st, a):
    return e.alloc(st, None, True, szarg(a[0]), szarg(a[1]))
def l_free(e, st, a): e.free(st, a[0].v); return None
def l_memset(e, st, a): return e.memset(st, a[0], a[1], Val(szarg(a[2]), U64))
def l_unsup(nm):
    def f(e, st, a): raise Unsupported(nm)
    return f
LIBC = {"__vf_assert": l_assert, "malloc": l_malloc, "calloc": l_calloc, "free": l_free, "memset": l_memset,
        "memcpy": lambda e, st, a: e.memcpy(st, a[0], a[1], a[2]), "realloc": l_unsup("realloc"), "abort": lambda e, st, a: st.fail("abort"),
        "memmove": lambda e, st, a: e.memcpy(st, a[0], a[1], a[2]), "strlen": l_unsup("strlen"), "memcmp": l_unsup("memcmp")}

def _alloc(e, st, size, zero, n=None, el=None):
    """malloc never fails (assumption: the library does not check); the block is fresh memory"""
    from tables import FlatRaw
    if n is not None:
        # calloc fails on overflow; as it succeeded the product is exact and bounded
        size = simp(e.mul(st, n, el))
        st.assume(AND(z3.BVMulNoOverflow(n, el, False)) if e.mulfacts else TRUE)
    st.assume(ULE(size, BV(1 << 61)))
    b = st.fresh("mem")
    st.assume(AND(b != 0, ULT(b, BV(1 << 62)), (b & 7) == 0))
    blk = Block(b, size); blk.n = n; blk.elsz = el; st.add(blk)
    raw = FlatRaw(b, size, (lambda p: TRUE) if zero else (lambda p: FALSE)); raw.n = n; raw.elsz = el; st.add(raw)
    st.ghost["nalloc"] = st.ghost.get("nalloc", 0) + 1
    return Val(b, VOIDP)
Engine.alloc = _alloc
def _free(e, st, p):
    for c in st.heap:
        if hasattr(c, "dofree") and c.dofree(e, st, p):
            STATS.obl += 1; STATS.discharged += 1; e.count(e.label(st, "free of an owned block"))
            return
    if st.decide(p == 0): return
    for c in st.heap:
        if isinstance(c, Block) and st.holds(p == c.base):
            st.remove(c)
            STATS.obl += 1; STATS.discharged += 1; e.count(e.label(st, "free of an owned block"))
            e.onfree(st, c)
            return
    for c in st.heap:
        if isinstance(c, Block) and st.decide(p == c.base):
            st.remove(c); e.onfree(st, c); return
    st.fail("free of memory not obtained or already released", str(simp(p))[:200])
Engine.free = _free
def _onfree(e, st, blk):
    # the memory inside the block is gone: keep only what is provably outside
    for c in list(st.heap):
        b = getattr(c, "base", None)
        if hasattr(c, "onfree"): c.onfree(st, blk); continue
        if b is None or isinstance(c, Block): continue
        if b.eq(blk.base): st.remove(c); continue
        if isinstance(c, Obj) and c.kind == "cell" and not st.holds(UGE(b - blk.base, blk.size)): st.remove(c)
Engine.onfree = _onfree
def _memset(e, st, p, c, n):
    if num(c.v) == 0:
        for ch in st.heap:
            if hasattr(ch, "dozero") and ch.dozero(st, p.v, n.v): return p
    k = num(n.v); cv = num(c.v)
    if k is not None and k <= 4096 and cv == 0:
        for off in range(0, k - 7, 8): st.store(simp(p.v + BV(off)), 8, BV(0))
        for off in range(k // 8 * 8, k): st.store(simp(p.v + BV(off)), 1, BV(0, 8))
        return p
    raise Unsupported("memset")
Engine.memset = _memset
def _memcpy(e, st, d, s_, n):
    k = num(n.v)
    if k is None or k > 4096: raise Unsupported("memcpy")
    z = 8 if k % 8 == 0 else 4 if k % 4 == 0 else 1
    vals = [st.load(simp(s_.v + BV(o)), z) for o in range(0, k, z)]
    for o, v in zip(range(0, k, z), vals): st.store(simp(d.v + BV(o)), z, v)
    return d
Engine.memcpy = _memcpy

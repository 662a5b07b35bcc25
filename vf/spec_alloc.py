"""C14 (and the allocator part of C19, C20): contracts of the fixed size allocator"""
from tables import *
from task import Task
from spec_list import ptr
from spec_hash import no_writes, T as Ctx

TAG = "tommy_allocator_struct"
F = ("free_block", "used_segment", "block_size", "align_size", "count")
AL = z3.Function("aligned", B64, z3.BoolSort())       # multiple of the alignment of this allocator
MOD = z3.Function("modulus", B64, B64)                 # remainder by the alignment
LIM = BV(1 << 40)

def mod_facts(st, x, A):
    """remainder by the alignment; the facts are proved for all integers by the lemmas below"""
    r = MOD(x)
    st.assume(AND(ULT(r, A), ULE(r, x), AL(x) == (r == 0), AL(simp(x - r)), IMP(ULT(x, BV(1 << 62)), AL(simp(x - r + A)))))
    return r
def al_add(st, x, y): st.assume(IMP(AND(AL(x), AL(y), ULT(x, BV(1 << 62)), ULT(y, BV(1 << 62))), AL(simp(x + y))))

class SLL(Chunk):
    """singly linked list of an unknown number of free blocks (each owning block_size bytes) or of segments (each with its malloc token)"""
    def __init__(s, kind, h, n): s.kind = kind; s.h = h; s.n = n
    def rootterm(s): return None
    def candidates(s, st, addr, size):
        b, c = splitc(addr)
        if c != 0 or size != 8: return []
        return [(AND(s.h != 0, b == s.h), ("sll", s))]
    def sepfacts(s, st, o):
        if isinstance(o, Obj): return [IMP(s.h != 0, s.h != o.base)]
        if isinstance(o, SLL): return [IMP(AND(s.h != 0, o.h != 0), s.h != o.h)]
        return []
    def unfold(s, st, act):
        for c in st.heap:
            if isinstance(c, SLL) and c.kind == s.kind and c.h.eq(s.h): s = c
        st.remove(s)
        if s.kind == "seg": st.add(Block(s.h, st.fresh("segsize")))
        else: st.assume(AL(s.h))
        n = st.fresh("next")
        st.add(Obj(s.h, 8, {0: (8, n)}, "cell"))
        mk_sll(st, s.kind, n, simp(s.n - 1))
    def onfree(s, st, blk):
        # a free block may lie in the released segment
        if s.kind == "free": st.remove(s)
    def same(s, st, o): return s.kind == o.kind and s.h.eq(o.h)
    def __repr__(s): return "SLL(%s %s)" % (s.kind, s.h)
def mk_sll(st, kind, h, n=None):
    if n is None: n = st.fresh("len"); st.assume(ULT(n, BV(1 << 58)))
    st.assume(AND((h == 0) == (n == 0), ULT(h, BV(1 << 62))))
    return st.add(SLL(kind, h, n))

class Region(Chunk):
    """fresh memory [base + lo, base + hi) of a segment"""
    def __init__(s, base, hi): s.base = base; s.lo = BV(0); s.hi = hi; s.holes = []
    def copy(s):
        c = Chunk.copy(s); c.holes = list(s.holes); return c
    def rootterm(s): return s.base
    def candidates(s, st, addr, size):
        if not occurs(addr, s.base): return []
        d = simp(addr - s.base)
        return [(AND(ULE(s.lo, d), ULE(BV(size), s.hi), ULE(d, s.hi - size), *[OR(ULE(d + size, h), UGE(d, h + 8)) for h in s.holes]), ("region", s, d))]
    def unfold(s, st, act):
        for c in st.heap:
            if isinstance(c, Region) and c.base.eq(s.base): s = c
        s.holes.append(act[2]); st.add(Obj(simp(s.base + act[2]), 8, {0: (8, None)}, "cell"))
    def same(s, st, o): return s.base.eq(o.base) and s.lo.eq(o.lo) and len(s.holes) == len(o.holes)
    def __repr__(s): return "Region(%s lo=%s hi=%s holes=%s)" % (s.base, s.lo, s.hi, s.holes)

def cells(st): return [c for c in st.heap if isinstance(c, Obj) and c.kind == "cell"]
def find(st, v):
    for c in cells(st):
        if c.base.eq(v) or st.holds(c.base == v): return c
    return None
def fold_chain(st, kind, v, label):
    """the list of the given kind at v: consumed; returns the explicit nodes in front"""
    out = []
    for _ in range(12):
        for c in st.heap:
            if isinstance(c, SLL) and c.kind == kind and (c.h.eq(v) or st.holds(c.h == v)): st.remove(c); return out
        if st.decide(v == 0): return out
        c = find(st, v)
        if c is None: st.fail(label + ": link to memory that is not part of it", str(v))
        out.append(c); st.remove(c); v = st.objload(c, 0, 8)
        if v is None: st.fail(label + ": link not set")
    st.fail(label + ": does not end")
def drop_empty(st):
    for c in list(st.heap):
        if isinstance(c, SLL) and st.decide(c.h == 0): st.remove(c)
def region_of(st, base):
    for c in st.heap:
        if isinstance(c, Region) and st.prov(base) and c.base.decl().name() in st.prov(base): return c
    return None
def extents(st, blocks, taken, B, label):
    """blocks carved from fresh memory: block_size bytes inside it, aligned, disjoint from each other and from taken (8 byte records)"""
    for i, o in enumerate(blocks):
        r = region_of(st, o.base); st.prove(AL(o.base), label + ": aligned")
        if r is None: continue
        d = simp(o.base - r.base)
        st.prove(AND(ULE(r.lo, d), ULE(d, r.hi), ULE(B, r.hi - d)), label + ": wholly inside the segment")
        for p in blocks[:i]:
            if region_of(st, p.base) is r: e = simp(p.base - r.base); st.prove(OR(ULE(e + B, d), ULE(d + B, e)), label + ": blocks are disjoint")
        for p in taken:
            if region_of(st, p.base) is r: e = simp(p.base - r.base); st.prove(OR(ULE(e + 8, d), ULE(d + B, e)), label + ": disjoint from the bookkeeping")

def mk_alloc(e, st):
    t = Ctx(); ts = e.u.structs[TAG]; t.ts = ts; t.base = st.fresh("alloc"); o = Obj(t.base, ts.size, {}, "obj", TAG); v = {}
    for n in F: v[n] = st.fresh("a_" + n); o.fields[ts.fields[n][0]] = (8, v[n])
    st.add(o); t.v = v; A, B = v["align_size"], v["block_size"]
    st.assume(AND(UGE(A, BV(8)), ULE(A, B), ULE(B, LIM), AL(B), AL(A), ULT(v["count"], BV(1 << 58))))
    e.A = A
    mk_sll(st, "free", v["free_block"]); mk_sll(st, "seg", v["used_segment"])
    return t
def get(st, t, n): return st.objload(getobj(st, t.base), t.ts.fields[n][0], 8)
def put(st, t, n, x): st.objstore(getobj(st, t.base), t.ts.fields[n][0], 8, x)
def end_alloc(st, t, dcount, out=None, label="allocator"):
    """well formed allocator; out: the block handed out"""
    B = t.v["block_size"]
    st.prove(AND(get(st, t, "block_size") == B, get(st, t, "align_size") == t.v["align_size"]), label + ": sizes are kept")
    st.prove(get(st, t, "count") == t.v["count"] + BV(dcount), label + ": number of blocks in use is exact")
    free = fold_chain(st, "free", get(st, t, "free_block"), label + ": free list")
    heads = []; v = get(st, t, "used_segment")
    heads = fold_chain(st, "seg", v, label + ": list of segments")
    for h in heads:
        bl = [c for c in st.heap if isinstance(c, Block) and (c.base.eq(h.base) or st.holds(c.base == h.base))]
        if not bl: st.fail(label + ": list of segments holds memory that was not obtained")
        st.remove(bl[0])
    if out is not None:
        o = find(st, out)
        if o is None: st.fail(label + ": the block handed out is memory of the allocator not in use", str(out))
        st.remove(o); free.append(o)
    extents(st, free, heads, B, label)
    drop_empty(st)
    for c in st.heap:
        if isinstance(c, Block): st.fail(label + ": obtained memory is in the list of segments", repr(c))
        if isinstance(c, SLL): st.fail(label + ": no block or segment is lost", repr(c))
        if isinstance(c, Obj) and c.kind == "cell" and region_of(st, c.base) is None: st.fail(label + ": no block is lost", repr(c))
    STATS.obl += 1; STATS.discharged += 1; st.eng.count(label + " invariant")

class CarveLoop(LoopBase):
    """fresh memory is cut into free blocks from its start on"""
    @classmethod
    def matches(cls, eng, st, fr, lp):
        if not any(isinstance(c, Region) for c in st.heap): return
        for v, t in ptr_locals(fr, lp):
            if region_of(st, locv(fr, v)) is not None:
                i = cls(); i.var = v; i.lp = lp; i.depth = len(st.frames); yield i
    def cands(s, st, fr, x0, e):
        out = []; t = st.ghost["ctx"]; x = locv(fr, s.var); fb = get(st, t, "free_block"); B = t.v["block_size"]
        out.append(("%s aligned" % s.var, AL(x)))
        for v, ty in int_locals(fr, s.lp):
            w = locv(fr, v)
            if w is None or w.size() != 64 or e.get(v) is None: continue
            out += [("%s + %s constant" % (s.var, v), x + w == x0 + e[v]), ("%s at least a block" % v, UGE(w, B)), ("%s at least a block, or some block is free" % v, OR(UGE(w, B), fb != 0))]
        for v, ty in ptr_locals(fr, s.lp):
            if v != s.var and locv(fr, v) is not None: pass
        out.append(("room for a block", ULE(B, s.r.hi - (x - s.r.base)))); out.append(("room for a block, or some block is free", OR(ULE(B, s.r.hi - (x - s.r.base)), fb != 0)))
        return out
    def enter(s, eng, st):
        fr = st.frames[-1]; t = st.ghost["ctx"]; s.t = t; x = locv(fr, s.var); r = region_of(st, x); s.r = r
        d0 = simp(x - r.base); B = t.v["block_size"]
        st.prove(AND(ULE(r.lo, d0), ULE(d0, r.hi)), "loop: start inside the segment")
        for h in r.holes: st.prove(ULE(h + 8, d0), "loop: blocks start after the bookkeeping")
        front = fold_chain(st, "free", get(st, t, "free_block"), "loop: free list")
        for o in front:
            if region_of(st, o.base) is not None: raise Unsupported("blocks carved before the loop")
        e = {v: locv(fr, v) for v, ty in int_locals(fr, s.lp)}; s.e = e; s.x0 = x
        keep = s.houdini_enter(eng, st, s.cands(st, fr, x, e))
        s.havoc_locals(st, fr, s.lp)
        k = st.fresh("k"); st.assume(AND(ULE(d0, k), ULE(k, r.hi))); s.k = k
        fr.env[s.var] = Val(simp(r.base + k), fr.func.locals[s.var])
        r.lo = k; r.holes = []
        f = st.fresh("free"); s.f = f; put(st, t, "free_block", f); mk_sll(st, "free", f)
        now = dict(s.cands(st, fr, x, e))
        for n in keep: st.assume(now[n])
        s.frame_start(eng, st, [c for c in st.heap if isinstance(c, Region) or isinstance(c, SLL) and c.kind == "free"])
    def check(s, eng, st):
        fr = st.frames[-1]; t = s.t; B = t.v["block_size"]; x = locv(fr, s.var); r = region_of(st, x)
        if r is None: st.fail("loop invariant: position inside the segment")
        kn = simp(x - r.base)
        st.prove(AND(UGT(kn, s.k), ULE(kn, r.hi)), "loop makes progress inside the segment (termination)")
        f = get(st, t, "free_block"); blocks = fold_chain(st, "free", f, "loop invariant: free list")
        hi = r.hi; r.hi = kn; extents(st, blocks, [], B, "loop invariant: new block"); r.hi = hi
        for c in st.heap:
            if isinstance(c, SLL) and c.kind == "free": st.fail("loop invariant: no free block is lost", repr(c))
        for c in cells(st):
            if region_of(st, c.base) is r and any(simp(c.base - r.base).eq(h) for h in r.holes): st.remove(c)
        al_add(st, simp(r.base + s.k), B)
        cs = s.cands(st, fr, s.x0, s.e)
        put(st, t, "free_block", s.f)
        s.frame_check(eng, st)
        s.houdini_check(eng, st, cs)

class SegWalk(LoopBase):
    """the segments are taken from the list and released one by one"""
    @classmethod
    def matches(cls, eng, st, fr, lp):
        for v, t in ptr_locals(fr, lp):
            x = locv(fr, v)
            for c in st.heap:
                if isinstance(c, SLL) and c.kind == "seg" and (c.h.eq(x) or st.holds(c.h == x)):
                    i = cls(); i.var = v; i.c = c; i.lp = lp; i.depth = len(st.frames); yield i
        t = st.ghost["ctx"]   # the list may also be consumed in its place, the field of the allocator
        try: x = get(st, t, "used_segment")
        except Exception: return
        for c in st.heap:
            if isinstance(c, SLL) and c.kind == "seg" and (c.h.eq(x) or st.holds(c.h == x)):
                i = cls(); i.var = None; i.c = c; i.lp = lp; i.depth = len(st.frames); yield i
    def at(s, st): return locv(st.frames[-1], s.var) if s.var else get(st, st.ghost["ctx"], "used_segment")
    def enter(s, eng, st):
        fr = st.frames[-1]; c = [x for x in st.heap if isinstance(x, SLL) and x.kind == "seg" and x.h.eq(s.c.h)][0]
        st.remove(c); s.havoc_locals(st, fr, s.lp)
        h = st.fresh("cur"); n = st.fresh("len"); st.assume(ULE(n, c.n)); s.n = n
        if s.var: fr.env[s.var] = Val(h, fr.func.locals[s.var])
        else: put(st, st.ghost["ctx"], "used_segment", h)
        mk_sll(st, "seg", h, n)
        # free blocks lie in segments that are being released
        for c in list(st.heap):
            if isinstance(c, SLL) and c.kind == "free": st.remove(c)
        s.blocks = [c.base for c in st.heap if isinstance(c, Block)]
        s.frame_start(eng, st, [c for c in st.heap if isinstance(c, SLL)])
        if not s.var: put(st, st.ghost["ctx"], "used_segment", h)
    def check(s, eng, st):
        x = s.at(st)
        hit = [c for c in st.heap if isinstance(c, SLL) and c.kind == "seg" and (c.h.eq(x) or st.holds(c.h == x))]
        if not hit: st.fail("loop invariant: remaining segments")
        st.prove(ULT(hit[0].n, s.n), "loop makes progress (termination)")
        for c in s.frame_check(eng, st):
            if isinstance(c, Block): st.fail("loop invariant: every segment passed is released", repr(c))
        STATS.obl += 1; STATS.discharged += 1; eng.count("every segment passed is released")

def alloc_hook(e):
    def alloc(st, size, zero, n=None, el=None):
        if n is not None: size = simp(e.mul(st, n, el))
        st.assume(ULE(size, BV(1 << 61)))
        b = st.fresh("mem"); st.assume(AND(b != 0, ULT(b, BV(1 << 61)), (b & 7) == 0))
        st.add(Block(b, size)); st.add(Region(b, size)); st.ghost["nalloc"] = st.ghost.get("nalloc", 0) + 1
        return Val(b, VOIDP)
    return alloc
def E(u):
    e = Engine(u); e.templates = [CarveLoop, SegWalk]; e.A = None; e.alloc = alloc_hook(e)
    def div(st, op, a, b, t, un):
        if un and a.size() == 64 and num(b) is None and e.A is not None and (b.eq(e.A) or st.holds(b == e.A)):
            if op == "%": e.abstracted = True; return Val(mod_facts(st, a, e.A), t)
        return Engine.div(e, st, op, a, b, t, un)
    e.div = div; e.mulabs = BV(1)
    return e

def T_alloc(avail):
    def setup(e, st):
        t = mk_alloc(e, st); st.assume(t.v["free_block"] != 0 if avail else t.v["free_block"] == 0)
        return [ptr(t.base)], t
    def post(st, ret, t):
        if avail: st.prove(z3.BoolVal(st.ghost.get("nalloc", 0) == 0), "a free block is reused before new memory is obtained")
        st.prove(ret.v != 0, "a block is handed out")
        end_alloc(st, t, 1, ret.v)
    return Task("tommy_allocator_alloc [%s]" % ("a block is free" if avail else "no block is free"), "tommy_allocator_alloc", setup, post, {"C14", "C19", "C20"}, E)
def T_free():
    def setup(e, st):
        t = mk_alloc(e, st); p = st.fresh("block"); st.add(Obj(p, 8, {0: (8, st.fresh("content"))}, "cell")); st.assume(AND(p != 0, ULT(p, BV(1 << 62)), AL(p), t.v["count"] != 0))
        t.p = p; return [ptr(t.base), ptr(p)], t
    def post(st, ret, t): end_alloc(st, t, -1)
    return Task("tommy_allocator_free", "tommy_allocator_free", setup, post, {"C14", "C19", "C20"}, E)
def T_done():
    def setup(e, st): t = mk_alloc(e, st); return [ptr(t.base)], t
    def post(st, ret, t):
        for c in st.heap:
            if isinstance(c, Block): st.fail("every segment is released", repr(c))
            if isinstance(c, SLL) and c.kind == "seg": st.prove(c.h == 0, "every segment is released")
        STATS.obl += 1; STATS.discharged += 1; st.eng.count("done releases everything exactly once")
    return Task("tommy_allocator_done", "tommy_allocator_done", setup, post, {"C14", "C19"}, E, done=True)
def T_init():
    def setup(e, st):
        t = Ctx(); t.ts = e.u.structs[TAG]; t.base = st.fresh("alloc"); st.add(Obj(t.base, t.ts.size, {}, "obj", TAG)); t.b = st.fresh("block_size"); t.a = st.fresh("align_size")
        st.assume(AND(t.b != 0, ULE(t.b, LIM - 1), ULE(t.a, LIM - 1)))
        big = st.decide(UGE(t.a, BV(8)))
        e.A = t.a if big else BV(8); t.A = e.A
        if big: st.assume(AL(e.A)); mod_facts(st, t.b, e.A)
        return [ptr(t.base), Val(t.b, U64), Val(t.a, U64)], t
    def post(st, ret, t):
        B = get(st, t, "block_size"); A = get(st, t, "align_size")
        st.prove(A == t.A, "alignment: as requested, at least that of a pointer")
        st.prove(UGE(B, t.b), "blocks have at least the requested size"); st.prove(AL(B) if num(t.A) is None else B & BV(7) == 0, "size of a block is a multiple of the alignment"); st.assume(IMP(AND(AL(B), B != 0), UGE(B, A))); st.prove(UGE(B, A), "blocks are at least as big as the alignment")
        st.prove(AND(get(st, t, "count") == 0, get(st, t, "free_block") == 0, get(st, t, "used_segment") == 0), "a new allocator is empty")
    return Task("tommy_allocator_init", "tommy_allocator_init", setup, post, {"C14", "C19", "C20"}, E)
def T_usage():
    def setup(e, st): t = mk_alloc(e, st); e.mulabs = t.v["block_size"]; return [ptr(t.base)], t
    def post(st, ret, t): no_writes(st); st.prove(ret.v == MULABS(t.v["count"], t.v["block_size"]), "memory usage equals the bytes of the blocks handed out")
    return Task("tommy_allocator_memory_usage", "tommy_allocator_memory_usage", setup, post, {"C20"}, E)
class ModLemma(Task):
    """the facts used about remainders hold for all integers"""
    def __init__(s): Task.__init__(s, "lemma: remainders", "tommy_allocator_init", None, None, {"C14"}, E)
    def run(s, eng):
        r = Result(s.name); eng.curfn = s.name; a, q, p, x, y, m = z3.Ints("a q p x y m")
        # x = q a + m with 0 <= m < a
        pre = z3.And(a > 0, q >= 0, x == q * a + m, 0 <= m, m < a)
        for what, h, c in (("remainder is small", pre, z3.And(m < a, m <= q * a + m)), ("rounding down gives a multiple", pre, x - m == q * a), ("rounding up gives a multiple", pre, x - m + a == (q + 1) * a),
                           ("a positive multiple is at least the alignment", z3.And(a > 0, x > 0, x == q * a), x >= a),
                           ("sum of multiples is a multiple", z3.And(x == q * a, y == p * a), x + y == (q + p) * a)):
            v = z3.Solver(); v.set("timeout", 20000); v.add(h, z3.Not(c)); STATS.obl += 1
            if v.check() != z3.unsat: raise Fail(s.name, what, None, "unknown")
            STATS.discharged += 1; eng.count(s.name + " " + what)
        r.ok = True; return r
TASKS = [T_init(), T_alloc(True), T_alloc(False), T_free(), T_done(), T_usage(), ModLemma()]

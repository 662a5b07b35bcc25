"""C12, C13 (and the array part of C19, C20): contracts of the segmented and blocked arrays"""
from tables import *
from task import Task
from spec_list import ptr
from spec_hash import T as Ctx, no_writes

MB = 6; BLK = 4096
FLD = ("bucket_max", "count", "bucket_bit")

class ArrPtrs(SegPtrs):
    link = None
    def fact(s, st, i):
        SegPtrs.fact(s, st, i)
        if s.link is not None:
            bit0, old = s.link
            st.assume(IMP(ULT(i, bit0), s.fn(i) == old.value(st, i)))
            st.assume(IMP(ULT(BV(0), bit0), s.fn(BV(0)) == old.value(st, BV(0))))

class ArrMem(Chunk):
    """elements lo <= p < hi of the linear space L; val(p) is the content of element p (a token if the size is not 8)"""
    def __init__(s, L, el, lo, hi, val): s.L = L; s.el = el; s.lo = lo; s.hi = hi; s.val = val; s.stores = []
    def copy(s):
        c = Chunk.copy(s); c.stores = list(s.stores); return c
    def inside(s, p): return AND(UGE(p, s.lo), ULT(p, s.hi))
    def candidates(s, st, addr, size):
        if s.el is not None or size != 8 or not occurs(addr, s.L): return []
        p = div8(addr - s.L)
        if p is None: return []
        return [(s.inside(p), ("direct", s, p))]
    def dload(s, st, p, size):
        for q, v in reversed(s.stores):
            if st.decide(p == q): return v
        v = s.val(p)
        # known alternatives are decided so that the value is recognised
        while z3.is_app_of(v, z3.Z3_OP_ITE): v = v.arg(1) if st.decide(v.arg(0)) else v.arg(2)
        return v
    def dstore(s, st, p, size, v): s.stores.append((p, v))
    def value(s, p):
        r = s.val(p)
        for q, v in s.stores: r = ITE(p == q, v, r)
        return r
    def same(s, st, o): return s.L.eq(o.L) and s.lo.eq(o.lo) and s.hi.eq(o.hi) and len(s.stores) == len(o.stores) and all(a.eq(c) and b.eq(d) for (a, b), (c, d) in zip(s.stores, o.stores))
    def __repr__(s): return "ArrMem([%s,%s) %s)" % (s.lo, s.hi, s.stores)

class ArrSpace(LinSpace):
    def stored(s, st, sp, j, v):
        el = s.el
        for c in st.heap:
            if isinstance(c, FlatRaw) and c.base.decl().name() in st.prov(v):
                if getattr(c, "n", None) is None: raise Unsupported("segment not obtained by calloc")
                if c.holes: raise Unsupported("segment used before it is registered")
                first = st.decide(ULT(j, BV(MB)))
                lo = BV(0) if first else BV(1) << j
                es = BV(el) if isinstance(el, int) else el
                st.prove(AND(c.elsz == es, c.n == (BV(1 << MB) if first else lo)), "segment holds as many elements as its position in the array requires")
                if not first: st.prove(ULT(j, BV(60)), "segment number")
                st.prove(v == (c.base if first else c.base - s.E(lo)), "segment pointer points to its segment, displaced by its first position")
                t = st.copy(); q = z3.BitVec("q@", 64); t.prove(c.zero(q), "new elements are zero")
                st.remove(c)
                st.add(ArrMem(s.L, None if isinstance(el, int) else el, simp(lo), simp(lo + c.n), lambda p: BV(0)))
                return

def aget(st, t, n):
    o = getobj(st, t.base); off, ft = t.ts.fields[n]; return st.objload(o, t.off + off, ft.size)
def aput(st, t, n, v):
    o = getobj(st, t.base); off, ft = t.ts.fields[n]; st.objstore(o, t.off + off, ft.size, v)

def produce(st, t, bit, link=None, val=None):
    """the array with segments up to bit in the heap"""
    bit64 = simp(z3.ZeroExt(32, bit))
    sp = ArrPtrs(simp(t.base + BV(t.off + t.ts.fields["bucket"][0])), 64, z3.Function(st.freshname("segment"), B64, B64), MB); sp.link = link
    st.add(sp); st.root(sp.fn(BV(0)))
    st.add(SegBlocks(t.space, lambda b: OR(b == 0, AND(UGE(b, BV(MB)), ULT(b, bit64)))))
    return sp, bit64

def mk_arr(eng, st, stag, off, el, count=None, val=None, tag="tommy_array_struct", extra=()):
    """arbitrary well formed array inside struct stag at offset off; el: 8 or the name of the field with the element size"""
    t = Ctx(); t.ts = eng.u.structs[tag]; t.off = off; S = eng.u.structs[stag]; base = st.fresh("array"); t.base = base; t.S = S
    o = Obj(base, S.size, {}, "obj", stag); bo, bt = t.ts.fields["bucket"]; o.skip = (off + bo, off + bo + bt.size)
    bit = st.fresh("bit", 32); t.bit0 = bit; b64 = z3.ZeroExt(32, bit)
    mx = st.fresh("bucket_max"); st.assume(AND(UGE(bit, BV(MB, 32)), ULE(bit, BV(52, 32)), mx == BV(1) << b64))
    cnt = st.fresh("count") if count is None else count
    st.assume(ULE(cnt, mx)); t.count0 = cnt; t.mx0 = mx
    for n, v in (("bucket_max", mx), ("count", cnt), ("bucket_bit", bit)): o.fields[off + t.ts.fields[n][0]] = (v.size() // 8, v)
    t.es = None
    if el != 8:
        t.es = st.fresh("element_size"); o.fields[off + t.ts.fields[el][0]] = (8, t.es)
        st.assume(AND(t.es != 0, ULE(t.es, BV(1 << 40))))
    st.add(o); t.obj = o
    t.L = z3.BitVec(st.freshname("linear"), 64)
    t.space = ArrSpace(simp(base + BV(off + bo)), MB, t.L, 8 if t.es is None else t.es); st.add(t.space)
    t.sp0, _ = produce(st, t, bit)
    V = z3.Function(st.freshname("content"), B64, B64); t.V = V
    t.val0 = val if val is not None else (lambda p: ITE(ULT(p, cnt), V(p), BV(0)))
    st.add(ArrMem(t.L, t.es, BV(0), mx, t.val0))
    return t

def fold_arr(st, t, label, want, ptrs=True, minmax=None):
    """the array is well formed, element p holds want(p), the segments of the original array have not moved"""
    mx = aget(st, t, "bucket_max"); bit = aget(st, t, "bucket_bit"); b64 = simp(z3.ZeroExt(32, bit))
    if t.es is not None: st.prove(aget(st, t, "element_size") == t.es, label + ": element size is kept")
    st.prove(AND(UGE(bit, BV(MB, 32)), ULE(bit, BV(53, 32)), mx == BV(1) << b64), label + ": fields")
    sp = t.space.sp(st)
    u = st.copy(); q = z3.BitVec("q@", 64); u.assume(ULT(q, mx))
    mems = [c for c in st.heap if isinstance(c, ArrMem)]
    u.prove(OR(*[c.inside(q) for c in mems]) if mems else FALSE, label + ": every position below the capacity has memory")
    for c in mems:
        w = st.copy(); w.assume(c.inside(q)); w.prove(c.value(q) == want(q), label + ": content is kept, new elements are zero")
        st.remove(c)
    if ptrs:
        u = st.copy(); b = z3.BitVec("b@", 64); u.assume(ULT(b, z3.ZeroExt(32, t.bit0)))
        u.prove(sp.value(u, b) == t.sp0.value(u, b), label + ": the elements do not move")
    end_segments(st, t.space, lambda b: OR(b == 0, AND(UGE(b, BV(MB)), ULT(b, b64))), label)
    st.remove(sp)
    for c in list(st.heap):
        if isinstance(c, FlatRaw): st.remove(c)
    return mx, bit, sp

def regrow(st, t, want, bit0, sp, bitmax=53):
    """havoc: more segments, same content"""
    nb = st.fresh("bit", 32); st.assume(AND(UGE(nb, bit0), ULE(nb, BV(bitmax, 32))))
    nm = st.fresh("bucket_max"); st.assume(nm == BV(1) << z3.ZeroExt(32, nb))
    aput(st, t, "bucket_max", nm); aput(st, t, "bucket_bit", nb)
    produce(st, t, nb, (simp(z3.ZeroExt(32, bit0)), sp))
    st.add(ArrMem(t.L, t.es, BV(0), nm, want))
    return nb, nm

class GrowLoop(LoopBase):
    @classmethod
    def matches(cls, eng, st, fr, lp):
        t = st.ghost["ctx"]
        if "growing" in st.ghost or not hasattr(t, "val0"): return
        i = cls(); i.lp = lp; i.depth = len(st.frames); yield i
    def enter(s, eng, st):
        t = st.ghost["ctx"]; s.t = t; s.want = t.val0; st.ghost["growing"] = True
        s.mx0, s.bit0, s.sp = fold_arr(st, t, "array at the loop", s.want)
        s.havoc_locals(st, st.frames[-1], s.lp)
        s.bit, s.mx = regrow(st, t, s.want, s.bit0, s.sp)
        s.frame_start(eng, st, [c for c in st.heap if isinstance(c, (ArrMem, ArrPtrs, SegBlocks))])
    def check(s, eng, st):
        t = s.t
        st.prove(UGT(aget(st, t, "bucket_bit"), s.bit), "loop makes progress (termination)")
        sp0 = s.sp; sp = t.space.sp(st)
        u = st.copy(); b = z3.BitVec("b@", 64); u.assume(ULT(b, z3.ZeroExt(32, s.bit0)))
        u.prove(sp.value(u, b) == sp0.value(u, b), "loop invariant: the elements do not move")
        fold_arr(st, t, "loop invariant", s.want)
        aput(st, t, "bucket_max", s.mx); aput(st, t, "bucket_bit", s.bit)
        for c in s.frame_check(eng, st):
            if isinstance(c, (Block, FlatRaw)): st.fail("loop invariant: memory is not lost", repr(c))

def nomem(st, label):
    for c in st.heap:
        if isinstance(c, Block) or isinstance(c, FlatRaw) or getattr(c, "isfamily", False): st.fail(label + ": no memory is lost", repr(c))

def E(u):
    e = Engine(u); e.templates = [RangeLoop, BlkLoop, GrowLoop]; pass
    return e
KINDS = {"array": ("tommy_array_struct", "tommy_array_struct", 8), "arrayof": ("tommy_arrayof_struct", "tommy_arrayof_struct", "element_size")}
def mk(kind, eng, st, maxcount=None):
    stag, tag, el = KINDS[kind]
    t = mk_arr(eng, st, stag, 0, el, tag=tag); t.kind = kind
    if t.es is not None: eng.mulabs = t.es
    return t

def T_grow(kind):
    fn = "tommy_%s_grow" % kind
    def setup(e, st):
        t = mk(kind, e, st); t.n = st.fresh("newcount"); st.assume(ULE(t.n, BV(1 << 52)))
        return [ptr(t.base), Val(t.n, U64)], t
    def post(st, ret, t):
        st.prove(aget(st, t, "count") == ITE(UGT(t.n, t.count0), t.n, t.count0), "size is the largest size asked for")
        st.prove(ULE(aget(st, t, "count"), aget(st, t, "bucket_max")), "every position below the size has memory")
        if st.decide(ULE(t.n, t.count0)): no_writes(st)
        fold_arr(st, t, "array", t.val0); nomem(st, "array")
    return Task(fn, fn, setup, post, {"C12", "C20", "C19"}, E, deps={"C13"} if kind == "array" else (), deadline=200)
def T_ref(kind):
    fn = "tommy_%s_ref" % kind
    def setup(e, st):
        t = mk(kind, e, st); t.p = st.fresh("pos"); st.assume(ULT(t.p, t.count0))
        return [ptr(t.base), Val(t.p, U64)], t
    def post(st, ret, t):
        no_writes(st); sp = t.sp0; al = apps(ret.v, sp.fn)
        if not al: raise Unsupported("address not computed from a segment pointer")
        # a segment b that owns position p, and the address is the one of p in that segment
        ok = []
        for a in al:
            b = a.arg(0); sp.fact(st, b)
            ok.append(AND(t.space.geo(b, t.p), ULT(b, z3.ZeroExt(32, t.bit0)), ret.v == a + t.space.E(t.p)))
        st.prove(OR(*ok), "address of a position: inside its segment, at its distance")
    return Task(fn, fn, setup, post, {"C12"}, E, deps={"C13"} if kind == "array" else ())
def T_get():
    def setup(e, st):
        t = mk("array", e, st); t.p = st.fresh("pos"); st.assume(ULT(t.p, t.count0))
        return [ptr(t.base), Val(t.p, U64)], t
    def post(st, ret, t):
        no_writes(st); st.prove(ret.v == t.val0(t.p), "the value stored at the position is read back")
    return Task("tommy_array_get", "tommy_array_get", setup, post, {"C12"}, E, deps={"C13"})
def T_set():
    def setup(e, st):
        t = mk("array", e, st); t.p = st.fresh("pos"); t.e = st.fresh("element"); st.assume(ULT(t.p, t.count0))
        return [ptr(t.base), Val(t.p, U64), ptr(t.e)], t
    def post(st, ret, t):
        st.prove(aget(st, t, "count") == t.count0, "size is unchanged")
        fold_arr(st, t, "array", lambda q: ITE(q == t.p, t.e, t.val0(q)))
    return Task("tommy_array_set", "tommy_array_set", setup, post, {"C12"}, E, deps={"C13"})
def T_insert():
    def setup(e, st):
        t = mk("array", e, st); t.e = st.fresh("element"); st.assume(ULT(t.count0, BV(1 << 52)))
        return [ptr(t.base), ptr(t.e)], t
    def post(st, ret, t):
        st.prove(aget(st, t, "count") == t.count0 + 1, "size grows by one")
        fold_arr(st, t, "array", lambda q: ITE(q == t.count0, t.e, t.val0(q))); nomem(st, "array")
    return Task("tommy_array_insert", "tommy_array_insert", setup, post, {"C12", "C20"}, E, deadline=200)
def T_size(kind):
    fn = "tommy_%s_size" % kind
    def setup(e, st):
        t = mk(kind, e, st); return [ptr(t.base)], t
    def post(st, ret, t): no_writes(st); st.prove(ret.v == t.count0, "size reported")
    return Task(fn, fn, setup, post, {"C12", "C20"}, E)
def T_usage(kind):
    fn = "tommy_%s_memory_usage" % kind
    def setup(e, st):
        t = mk(kind, e, st); return [ptr(t.base)], t
    def post(st, ret, t): no_writes(st); st.prove(ret.v == t.space.E(t.mx0), "memory usage equals the bytes of all segments")
    return Task(fn, fn, setup, post, {"C20"}, E)
def released(st):
    for c in st.heap:
        if isinstance(c, Block): st.fail("done releases all memory", repr(c))
        if getattr(c, "isfamily", False):
            u = st.copy(); u.prove(NOT(c.inside(z3.BitVec("b@", 64))), "done releases all memory")
def T_done(kind):
    fn = "tommy_%s_done" % kind
    def setup(e, st):
        t = mk(kind, e, st); return [ptr(t.base)], t
    def post(st, ret, t): released(st)
    return Task(fn, fn, setup, post, {"C19"}, E, done=True, consume=True)
def T_init(kind):
    fn = "tommy_%s_init" % kind
    def setup(e, st):
        stag, tag, el = KINDS[kind]
        t = Ctx(); t.ts = e.u.structs[tag]; t.off = 0; S = e.u.structs[stag]; t.base = st.fresh("array")
        o = Obj(t.base, S.size, {}, "obj", stag); bo, bt = t.ts.fields["bucket"]; o.skip = (bo, bo + bt.size); st.add(o)
        t.es = st.fresh("element_size") if el != 8 else None
        if t.es is not None: e.mulabs = t.es
        sp = ArrPtrs(simp(t.base + BV(bo)), 64, z3.Function("garbage_%d" % st.n, B64, B64), 0); st.add(sp)
        t.L = z3.BitVec(st.freshname("linear"), 64); t.space = ArrSpace(sp.base, MB, t.L, 8 if t.es is None else t.es); st.add(t.space)
        return [ptr(t.base)] + ([Val(t.es, U64)] if t.es is not None else []), t
    def post(st, ret, t):
        st.prove(aget(st, t, "count") == 0, "empty after init")
        fold_arr(st, t, "init", lambda q: BV(0), False); nomem(st, "init")
    return Task(fn, fn, setup, post, {"C12", "C19", "C20"}, E, deps={"C13"} if kind == "array" else ())

# ------------------------------------------------------------------------------------------ blocked arrays
class BlkMem(Chunk):
    """element 4096*i+j lives at BLK(i) + size*j, for i < n"""
    def __init__(s, fn, es, n, val): s.fn = fn; s.es = es; s.n = n; s.val = val; s.stores = []
    def copy(s):
        c = Chunk.copy(s); c.stores = list(s.stores); return c
    def rootterm(s): return s.fn(BV(0))
    def candidates(s, st, addr, size):
        if s.es is not None or size != 8 or s.fn.name() not in leafids(addr): return []
        out = []
        for a in apps(addr, s.fn):
            j = div8(addr - a)
            if j is not None: out.append((AND(ULT(a.arg(0), s.n), ULT(j, BV(BLK))), ("direct", s, simp(a.arg(0) * BLK + j))))
        return out
    dload = ArrMem.dload; dstore = ArrMem.dstore; value = ArrMem.value
    def same(s, st, o): return s.fn.eq(o.fn) and s.n.eq(o.n) and len(s.stores) == len(o.stores) and all(a.eq(c) and b.eq(d) for (a, b), (c, d) in zip(s.stores, o.stores))
    def __repr__(s): return "BlkMem(n %s %s)" % (s.n, s.stores)
class BlkBlocks(Chunk):
    """malloc tokens of the blocks i, i in dom"""
    isfamily = True; name = "blocks"
    def __init__(s, fn, dom): s.fn = fn; s.dom = dom; s.freed = []
    def copy(s):
        c = Chunk.copy(s); c.freed = list(s.freed); return c
    def inside(s, b): return AND(s.dom(b), *[b != f for f in s.freed])
    def dofree(s, e, st, p):
        for a in apps(p, s.fn):
            if st.decide(AND(p == a, s.inside(a.arg(0)))):
                s.freed.append(a.arg(0)); st.assume(p != 0); return True
        return False
    def same(s, st, o): return len(s.freed) == len(o.freed) and all(a.eq(b) for a, b in zip(s.freed, o.freed))
    def __repr__(s): return "BlkBlocks(freed=%s)" % s.freed

BKINDS = {"arrayblk": ("tommy_arrayblk_struct", None), "arrayblkof": ("tommy_arrayblkof_struct", "element_size")}
def outer(st, t, n):
    o = getobj(st, t.base); off, ft = t.S.fields[n]; return st.objload(o, off, ft.size)
def mk_blk(kind, eng, st):
    stag, el = BKINDS[kind]; S = eng.u.structs[stag]
    n = st.fresh("count"); st.assume(ULE(n, BV(1 << 52)))
    nb = st.fresh("blocks"); st.assume(AND(ULE(nb, BV(1 << 40)), nb == z3.LShR(n + BV(BLK - 1), BV(12))))
    fn = z3.Function(st.freshname("block"), B64, B64)
    t = mk_arr(eng, st, stag, S.fields["block"][0], 8, count=nb, val=lambda p: ITE(ULT(p, nb), fn(p), BV(0)))
    t.kind = kind; t.BLK = fn; t.nb0 = nb; t.n0 = n; t.bes = None
    o = t.obj; o.fields[S.fields["count"][0]] = (8, n)
    if el:
        t.bes = st.fresh("element_size"); eng.mulabs = t.bes; o.fields[S.fields[el][0]] = (8, t.bes); st.assume(AND(t.bes != 0, ULE(t.bes, BV(1 << 40))))
    U = z3.Function(st.freshname("element"), B64, B64)
    t.bval = lambda p: ITE(ULT(p, n), U(p), BV(0))
    st.add(BlkMem(fn, t.bes, nb, t.bval)); st.add(BlkBlocks(fn, lambda i: ULT(i, nb)))
    return t
def fold_blk(st, t, nb, label, want):
    """exactly the blocks i < nb are owned, each of 4096 elements; element p holds want(p); the blocks have not moved.
    Returns the function from block number to address"""
    fam = [c for c in st.heap if isinstance(c, BlkMem)]; tok = [c for c in st.heap if isinstance(c, BlkBlocks)]; blks = [c for c in st.heap if isinstance(c, Block) and not hasattr(c, "seg")]
    if len(fam) != 1 or len(tok) != 1: st.fail(label + ": blocks", "lost")
    fam = fam[0]; tok = tok[0]
    es = BV(8) if t.bes is None else t.bes
    mems = [c for c in st.heap if isinstance(c, ArrMem)]
    # block pointer i
    def pointer(i):
        r = None
        for c in mems: r = c.value(i) if r is None else ITE(c.inside(i), c.value(i), r)
        return r
    i = z3.BitVec("i@", 64)
    u = st.copy(); u.assume(ULT(i, fam.n)); u.prove(AND(tok.inside(i), ULT(i, nb), pointer(i) == t.BLK(i)), label + ": the elements do not move, their blocks are owned")
    u = st.copy(); u.assume(AND(ULT(i, nb), UGE(i, fam.n)))
    own = []
    if not u.infeasible():
        raws = [c for c in st.heap if isinstance(c, FlatRaw)]
        for k in blks:
            if getattr(k, "n", None) is None: continue
            if not (u.holds(AND(k.n == BV(BLK), k.elsz == es))): continue
            own.append(k)
        u.prove(OR(*[pointer(i) == k.base for k in own]) if own else FALSE, label + ": a new block has memory for 4096 elements")
    # as many new blocks as new positions, each used once
    u = st.copy(); u.prove(nb - fam.n == BV(len(own)), label + ": exactly as many blocks as the size requires")
    for k in own:
        raw = [c for c in st.heap if isinstance(c, FlatRaw) and c.base.eq(k.base)]
        if len(raw) != 1 or raw[0].holes: st.fail(label + ": new elements are zero", repr(k))
        u = st.copy(); u.prove(raw[0].zero(z3.BitVec("q@", 64)), label + ": new elements are zero")
        st.prove(OR(*[AND(pointer(simp(fam.n + BV(j))) == k.base) for j in range(len(own))]), label + ": no block is lost")
        st.remove(k); st.remove(raw[0])
    q = z3.BitVec("q@", 64); u = st.copy(); u.assume(ULT(q, nb * BV(BLK))); u.assume(ULE(nb, BV(1 << 41)))
    u.prove(ITE(ULT(q, fam.n * BV(BLK)), fam.value(q), BV(0)) == want(q), label + ": content is kept, new elements are zero")
    st.remove(fam); st.remove(tok)
    return pointer
def end_blk(st, t, n, label, want):
    st.prove(outer(st, t, "count") == n, label + ": size")
    if t.bes is not None: st.prove(outer(st, t, "element_size") == t.bes, label + ": element size is kept")
    nb = aget(st, t, "count"); st.prove(AND(ULE(nb, BV(1 << 41)), nb == z3.LShR(n + BV(BLK - 1), BV(12))), label + ": exactly as many blocks as the size requires")
    st.prove(ULE(nb, aget(st, t, "bucket_max")), label + ": every block has its pointer")
    pt = fold_blk(st, t, nb, label, want)
    fold_arr(st, t, label + ": block array", lambda i: ITE(ULT(i, nb), pt(i), BV(0)))
    nomem(st, label)

class BlkLoop(LoopBase):
    """allocation of new blocks: the blocks below the index are in place"""
    @classmethod
    def matches(cls, eng, st, fr, lp):
        t = st.ghost["ctx"]
        if not hasattr(t, "bval") or "filling" in st.ghost or eng.done: return
        for v, ty in int_locals(fr, lp):
            x = locv(fr, v)
            if x is not None and ty.size == 8 and st.holds(x == t.nb0):
                i = cls(); i.var = v; i.lp = lp; i.depth = len(st.frames); yield i
    def enter(s, eng, st):
        t = st.ghost["ctx"]; s.t = t; st.ghost["filling"] = True
        fr = st.frames[-1]
        mems = [c for c in st.heap if isinstance(c, ArrMem)]; s.cnt = aget(st, t, "count")
        s.mx = aget(st, t, "bucket_max")
        u = st.copy(); q = z3.BitVec("q@", 64); u.assume(ULT(q, s.mx))
        u.prove(OR(*[AND(c.inside(q), c.value(q) == t.val0(q)) for c in mems]) if mems else FALSE, "block array at the loop")
        for c in mems: st.remove(c)
        fold_blk2(st, t, t.nb0, "blocks at the loop")
        s.havoc_locals(st, fr, s.lp)
        k = st.fresh("k"); st.assume(AND(UGE(k, t.nb0), ULE(k, BV(1 << 41)), ULE(k, s.cnt))); fr.env[s.var] = Val(k, fr.func.locals[s.var]); s.k = k
        s.put(st, k)
        s.frame_start(eng, st, [c for c in st.heap if isinstance(c, (ArrMem, BlkMem, BlkBlocks))])
    def put(s, st, k):
        t = s.t
        st.add(ArrMem(t.L, t.es, BV(0), s.mx, lambda p: ITE(ULT(p, k), t.BLK(p), BV(0))))
        st.add(BlkMem(t.BLK, t.bes, k, t.bval)); st.add(BlkBlocks(t.BLK, lambda i: ULT(i, k)))
    def check(s, eng, st):
        t = s.t; fr = st.frames[-1]; k = locv(fr, s.var)
        st.prove(AND(UGT(k, s.k), ULE(k, s.cnt)), "loop makes progress (termination), and stays below the number of blocks")
        # the values of the block function beyond k are the addresses of the new blocks
        pt = fold_blk(st, t, k, "loop invariant", t.bval)
        mems = [c for c in st.heap if isinstance(c, ArrMem)]
        u = st.copy(); q = z3.BitVec("q@", 64); u.assume(AND(ULT(q, s.mx), UGE(q, k)))
        u.prove(AND(OR(*[c.inside(q) for c in mems]), pt(q) == 0), "loop invariant: block pointers not yet set are null")
        for c in mems: st.remove(c)
        left = s.frame_check(eng, st)
        for c in left:
            if isinstance(c, (Block, FlatRaw)): st.fail("loop invariant: memory is not lost", repr(c))
def fold_blk2(st, t, nb, label):
    fam = [c for c in st.heap if isinstance(c, BlkMem)]; tok = [c for c in st.heap if isinstance(c, BlkBlocks)]
    if len(fam) != 1 or len(tok) != 1 or fam[0].stores: st.fail(label, "changed")
    st.prove(fam[0].n == nb, label)
    st.remove(fam[0]); st.remove(tok[0])

def grow_apply(eng, st, a):
    """contract of tommy_array_grow"""
    t = st.ghost["ctx"]
    if not (a[0].v.eq(t.base + BV(t.off)) or st.holds(a[0].v == t.base + BV(t.off))): raise Unsupported("growth of an unknown array")
    n = a[1].v; c0 = aget(st, t, "count")
    st.prove(ULE(n, BV(1 << 52)), "precondition of tommy_array_grow")
    # callers here have not touched the block array before
    mx, bit, sp = fold_arr(st, t, "precondition of tommy_array_grow", t.val0)
    st.prove(ULE(c0, mx), "precondition of tommy_array_grow")
    nb, nm = regrow(st, t, t.val0, bit, sp)
    c1 = simp(ITE(UGT(n, c0), n, c0)); aput(st, t, "count", c1); st.assume(ULE(c1, nm))
    st.writes.append(("obj", t.base, 0))
    return None
def EB(u):
    e = Engine(u); e.templates = [RangeLoop, BlkLoop]; e.contracts["tommy_array_grow"] = Contract(grow_apply)
    return e
def T_bgrow(kind):
    fn = "tommy_%s_grow" % kind
    def setup(e, st):
        t = mk_blk(kind, e, st); t.n = st.fresh("newcount"); st.assume(ULE(t.n, BV(1 << 52)))
        return [ptr(t.base), Val(t.n, U64)], t
    def post(st, ret, t):
        if st.decide(ULE(t.n, t.n0)): no_writes(st)
        end_blk(st, t, ITE(UGT(t.n, t.n0), t.n, t.n0), "array", t.bval)
    return Task(fn, fn, setup, post, {"C13", "C20", "C19"}, EB, deadline=200)
def T_bref(kind):
    fn = "tommy_%s_ref" % kind
    def setup(e, st):
        t = mk_blk(kind, e, st); t.p = st.fresh("pos"); st.assume(ULT(t.p, t.n0)); return [ptr(t.base), Val(t.p, U64)], t
    def post(st, ret, t):
        no_writes(st); j = t.p & BV(BLK - 1)
        st.prove(ret.v == t.BLK(z3.LShR(t.p, BV(12))) + (BV(8) * j if t.bes is None else MULABS(simp(j), t.bes)), "address of a position: inside its block, at its distance")
    return Task(fn, fn, setup, post, {"C13"}, EB)
def T_bget():
    def setup(e, st):
        t = mk_blk("arrayblk", e, st); t.p = st.fresh("pos"); st.assume(ULT(t.p, t.n0)); return [ptr(t.base), Val(t.p, U64)], t
    def post(st, ret, t): no_writes(st); st.prove(ret.v == t.bval(t.p), "the value stored at the position is read back")
    return Task("tommy_arrayblk_get", "tommy_arrayblk_get", setup, post, {"C13"}, EB)
def T_bset():
    def setup(e, st):
        t = mk_blk("arrayblk", e, st); t.p = st.fresh("pos"); t.e = st.fresh("element"); st.assume(ULT(t.p, t.n0)); return [ptr(t.base), Val(t.p, U64), ptr(t.e)], t
    def post(st, ret, t): end_blk(st, t, t.n0, "array", lambda q: ITE(q == t.p, t.e, t.bval(q)))
    return Task("tommy_arrayblk_set", "tommy_arrayblk_set", setup, post, {"C13"}, EB)
def bgrow_apply(eng, st, a):
    """contract of tommy_arrayblk_grow"""
    t = st.ghost["ctx"]
    if not (a[0].v.eq(t.base) or st.holds(a[0].v == t.base)): raise Unsupported("growth of an unknown array")
    n = a[1].v; st.prove(ULE(n, BV(1 << 52)), "precondition of tommy_arrayblk_grow")
    n0 = outer(st, t, "count"); nb0 = aget(st, t, "count")
    st.prove(AND(ULE(nb0, BV(1 << 41)), nb0 == z3.LShR(n0 + BV(BLK - 1), BV(12)), ULE(nb0, aget(st, t, "bucket_max"))), "precondition of tommy_arrayblk_grow")
    pt = fold_blk(st, t, nb0, "precondition of tommy_arrayblk_grow", t.bval)
    mx, bit, sp = fold_arr(st, t, "precondition of tommy_arrayblk_grow", t.val0)
    n1 = st.fresh("n1"); st.assume(n1 == ITE(UGT(n, n0), n, n0)); k = st.fresh("nb1"); st.assume(AND(k == z3.LShR(n1 + BV(BLK - 1), BV(12)), ULE(k, BV(1 << 41))))
    nb, nm = regrow(st, t, lambda p: ITE(ULT(p, k), t.BLK(p), BV(0)), bit, sp); st.assume(ULE(k, nm))
    aput(st, t, "count", k); o = getobj(st, t.base); off, ft = t.S.fields["count"]; st.objstore(o, off, ft.size, n1)
    st.add(BlkMem(t.BLK, t.bes, k, t.bval)); st.add(BlkBlocks(t.BLK, lambda i: ULT(i, k)))
    return None
def EBI(u):
    e = EB(u); e.contracts["tommy_arrayblk_grow"] = Contract(bgrow_apply); return e
def T_binsert():
    def setup(e, st):
        t = mk_blk("arrayblk", e, st); t.e = st.fresh("element"); st.assume(ULT(t.n0, BV(1 << 52))); return [ptr(t.base), ptr(t.e)], t
    def post(st, ret, t): end_blk(st, t, simp(t.n0 + 1), "array", lambda q: ITE(q == t.n0, t.e, t.bval(q)))
    return Task("tommy_arrayblk_insert", "tommy_arrayblk_insert", setup, post, {"C13", "C20"}, EBI, deadline=200)
def T_bsize(kind):
    fn = "tommy_%s_size" % kind
    def setup(e, st):
        t = mk_blk(kind, e, st); return [ptr(t.base)], t
    def post(st, ret, t): no_writes(st); st.prove(ret.v == t.n0, "size reported")
    return Task(fn, fn, setup, post, {"C13", "C20"}, EB)
def T_busage(kind):
    fn = "tommy_%s_memory_usage" % kind
    def setup(e, st):
        t = mk_blk(kind, e, st); return [ptr(t.base)], t
    def post(st, ret, t):
        no_writes(st); by = t.nb0 * BV(BLK)
        st.prove(ret.v == BV(8) * t.mx0 + (BV(8) * by if t.bes is None else st.eng.mul(st, simp(by), t.bes)), "memory usage equals the bytes of block array and blocks")
    return Task(fn, fn, setup, post, {"C20"}, EB)
def T_bdone(kind):
    fn = "tommy_%s_done" % kind
    def setup(e, st):
        t = mk_blk(kind, e, st); return [ptr(t.base)], t
    def post(st, ret, t): released(st)
    return Task(fn, fn, setup, post, {"C19"}, EB, done=True, consume=True, deadline=200)
def T_binit(kind):
    fn = "tommy_%s_init" % kind
    def setup(e, st):
        stag, el = BKINDS[kind]; S = e.u.structs[stag]
        t = Ctx(); t.ts = e.u.structs["tommy_array_struct"]; t.off = S.fields["block"][0]; t.S = S; t.base = st.fresh("array"); t.es = None
        o = Obj(t.base, S.size, {}, "obj", stag); bo, bt = t.ts.fields["bucket"]; o.skip = (t.off + bo, t.off + bo + bt.size); st.add(o)
        t.bes = st.fresh("element_size") if el else None
        sp = ArrPtrs(simp(t.base + BV(t.off + bo)), 64, z3.Function("garbage_%d" % st.n, B64, B64), 0); st.add(sp)
        t.L = z3.BitVec(st.freshname("linear"), 64); t.space = ArrSpace(sp.base, MB, t.L, 8); st.add(t.space)
        return [ptr(t.base)] + ([Val(t.bes, U64)] if t.bes is not None else []), t
    def post(st, ret, t):
        st.prove(AND(outer(st, t, "count") == 0, aget(st, t, "count") == 0), "empty after init, no blocks")
        if t.bes is not None: st.prove(outer(st, t, "element_size") == t.bes, "element size is kept")
        fold_arr(st, t, "init", lambda q: BV(0), False); nomem(st, "init")
    return Task(fn, fn, setup, post, {"C13", "C19", "C20"}, EB)

TASKS = [f(k) for f in (T_init, T_grow, T_ref, T_size, T_usage, T_done) for k in ("array", "arrayof")] + [T_get(), T_set(), T_insert()]
TASKS += [f(k) for f in (T_binit, T_bgrow, T_bref, T_bsize, T_busage, T_bdone) for k in ("arrayblk", "arrayblkof")] + [T_bget(), T_bset(), T_binsert()]

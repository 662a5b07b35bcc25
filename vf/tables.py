"""Bucket arrays: slots holding lists, raw memory, segmented ("linear") geometry, malloc tokens of segments."""
from lib import *

def occurs(t, sub):
    seen = set(); work = [t]; i = sub.get_id()
    while work:
        x = work.pop()
        if x.get_id() == i: return True
        if x.get_id() in seen: continue
        seen.add(x.get_id()); work.extend(x.children())
    return False
def apps(t, f):
    """all applications of function f inside t"""
    seen = set(); work = [t]; out = []
    while work:
        x = work.pop()
        if x.get_id() in seen: continue
        seen.add(x.get_id())
        if z3.is_app(x) and x.decl().eq(f): out.append(x)
        work.extend(x.children())
    return out
def div8(d):
    """position of byte offset d (a term); (pos, exact?)"""
    d = simp(d)
    k = num(d)
    if k is not None: return BV(snum(d) // 8) if k % 8 == 0 else None
    d = z3.simplify(d, som=True)
    if z3.is_app_of(d, z3.Z3_OP_BMUL) and z3.is_bv_value(d.arg(0)) and d.arg(0).as_signed_long() % 8 == 0:
        r = d.arg(1)
        for x in d.children()[2:]: r = r * x
        return simp(BV(d.arg(0).as_signed_long() // 8) * r)
    if z3.is_app_of(d, z3.Z3_OP_BADD):
        parts = [div8(c) for c in d.children()]
        if all(p is not None for p in parts):
            r = parts[0]
            for x in parts[1:]: r = r + x
            return simp(r)
    if z3.is_app_of(d, z3.Z3_OP_CONCAT):
        ch = d.children()
        if z3.is_bv_value(ch[-1]) and ch[-1].as_long() == 0 and ch[-1].size() >= 3:
            x = simp(z3.LShR(d, BV(3)))
            return x
    return None

class FlatGeo:
    def __init__(s, base): s.base = base
    def slotaddr(s, st, p): return simp(s.base + BV(8) * p)
    def locate(s, st, addr):
        if not occurs(addr, s.base): return []
        p = div8(addr - s.base)
        if p is None:
            p = simp(z3.LShR(addr - s.base, BV(3)))
        return [(simp(AND(addr == s.base + BV(8) * p, ULT(p, BV(1 << 60)))), p)]
    def same(s, o): return isinstance(o, FlatGeo) and s.base.eq(o.base)

class SegPtrs(Chunk):
    """array of pointers to segments embedded in a struct: base function plus stores"""
    def __init__(s, base, n, fn, minbit):
        s.base = base; s.n = n; s.fn = fn; s.minbit = minbit; s.stores = []
    def copy(s):
        c = Chunk.copy(s); c.stores = list(s.stores); return c
    def rootterm(s): return s.fn(BV(0))
    def candidates(s, st, addr, size):
        if size != 8 or not occurs(addr, s.base): return []
        p = div8(addr - s.base)
        if p is None: return []
        return [(ULT(p, BV(s.n)), ("direct", s, p))]
    def fact(s, st, i):
        st.assume(IMP(ULT(i, BV(s.minbit)), s.fn(i) == s.fn(BV(0))))
        st.assume(AND(s.fn(BV(0)) != 0, ULT(s.fn(BV(0)), BV(1 << 62))))
    def dload(s, st, i, size):
        for j, v in reversed(s.stores):
            if st.decide(i == j): return v
        s.fact(st, i)
        return s.fn(i)
    def dstore(s, st, i, size, v):
        s.stores.append((i, v))
        for c in st.heap:
            if isinstance(c, LinSpace) and c.spb.eq(s.base): c.stored(st, s, i, v); break
    def value(s, st, i):
        """symbolic value without deciding"""
        s.fact(st, i)
        r = s.fn(i)
        for j, v in s.stores: r = ITE(i == j, v, r)
        return r
    def same(s, st, o):
        return s.base.eq(o.base) and s.fn.eq(o.fn) and len(s.stores) == len(o.stores) and all(a[0].eq(b[0]) and a[1].eq(b[1]) for a, b in zip(s.stores, o.stores))
    def __repr__(s): return "SegPtrs(%s %s)" % (s.fn, s.stores)

class LinSpace(Chunk):
    """segmented geometry: element p lives in segment b (p>>b == 1, b >= minbit) or in segment 0 (p < 2^minbit), at
    pointer(b) + el*p.  Such addresses are translated to the linear space L + el*p in which slots, raw memory and cells live"""
    def __init__(s, spb, minbit, L, el=8): s.spb = spb; s.minbit = minbit; s.L = L; s.el = el
    def rootterm(s): return s.L
    def E(s, x): return BV(s.el) * x if isinstance(s.el, int) else BV(s.el.as_long()) * x if z3.is_bv_value(s.el) else x * s.el if num(x) is not None else MULABS(simp(x), s.el)
    def sp(s, st):
        for c in st.heap:
            if isinstance(c, SegPtrs) and c.base.eq(s.spb): return c
        raise Fail(st.eng.label(st, "segment pointers"), "the segment array is gone")
    def geo(s, b, p): return OR(AND(ULT(b, BV(s.minbit)), ULT(p, BV(1 << s.minbit))), AND(UGE(b, BV(s.minbit)), ULT(b, BV(64)), z3.LShR(p, b) == 1))
    def pos(s, off):
        p = div8(off)
        return p if p is not None else simp(z3.LShR(off, BV(3)))
    def canon(s, st, addr):
        key = ("canon", addr.get_id())
        g = st.ghost.get(key)
        if g is not None: return g[0]
        sp = s.sp(st); names = leafids(addr); opts = []
        if sp.fn.name() in names:
            for a in apps(addr, sp.fn):
                off = simp(addr - a); p = s.pos(off); b = a.arg(0); sp.fact(st, b)
                opts.append((AND(s.geo(b, p), *[b != j for j, v in sp.stores]), off))
        for j, v in sp.stores:
            m = [x for x in leafids(v) if x in st.roots]
            if m and m[0] in names:
                off = simp(addr - v); p = s.pos(off)
                opts.append((s.geo(j, p), off))
        for c, off in opts:
            if st.decide(c):
                r = simp(s.L + off); st.ghost[key] = (r, addr); return r
        return None
    def stored(s, st, sp, j, v):
        """a segment enters the geometry: its memory becomes part of the linear space"""
        for c in st.heap:
            if isinstance(c, FlatRaw) and not c.base.eq(s.L) and st.prov(v) and c.base.decl().name() in st.prov(v):
                lo = BV(1) << j
                if st.holds(AND(ULT(j, BV(s.minbit)), v == c.base)): lo = BV(0)
                elif not st.holds(AND(UGE(j, BV(s.minbit)), ULT(j, BV(52)), v == c.base - BV(s.el) * lo)): st.fail("segment pointer points to its segment, displaced by its first position", "%s at %s" % (v, j))
                n = z3.UDiv(c.size, BV(s.el)) if s.el != 8 else z3.LShR(c.size, BV(3))
                hi = simp(lo + n); st.lemma(UGE(hi, lo), "segment size")
                if c.holes: raise Unsupported("segment used before it is registered")
                st.remove(c); z = c.zero
                r = FlatRaw(s.L, simp(hi * s.el), lambda q: z(q - lo)); r.excl = [lambda q: ULT(q, lo)]; r.name = st.freshname("raw")
                st.add(r); return
    def same(s, st, o): return s.L.eq(o.L)
    def __repr__(s): return "LinSpace(%s)" % s.L

LEAFSYMS = {}
def leafsyms(t):
    """uninterpreted constants in t"""
    r = LEAFSYMS.get(t.get_id())
    if r is not None: return r[1]
    work = [t]; cache = LEAFSYMS
    while work:
        x = work[-1]
        if x.get_id() in cache: work.pop(); continue
        ch = x.children(); todo = [c for c in ch if c.get_id() not in cache]
        if todo: work.extend(todo); continue
        work.pop()
        if not ch: out = [x] if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED else []
        else:
            out = []; seen = set()
            for c in ch:
                for y in cache[c.get_id()][1]:
                    if y.get_id() not in seen: seen.add(y.get_id()); out.append(y)
        cache[x.get_id()] = (x, out)
    return cache[t.get_id()][1]

class Slots(Chunk):
    """a family of bucket slots p in dom, each holding the head of a well formed list whose elements satisfy facts(p)"""
    def __init__(s, st, geo, dom, facts, lay, total, starpos=None, starword=None, name="B"):
        s.geo = geo; s.dom = dom; s.facts = facts; s.lay = lay; s.total = total; s.starpos = starpos; s.starword = starword
        s.holes = []; s.name = st.freshname(name); pass
    def copy(s):
        c = Chunk.copy(s); c.holes = list(s.holes); return c
    def rootterm(s): return s.geo.base if isinstance(s.geo, FlatGeo) else None
    def inside(s, p): return AND(s.dom(p), *[p != h for h in s.holes])
    def candidates(s, st, addr, size):
        if size != 8: return []
        return [(AND(c, s.inside(p)), ("slot", s, p)) for c, p in s.geo.locate(st, addr)]
    def unfold(s, st, act):
        p = act[2]
        for c in st.heap:
            if isinstance(c, Slots) and c.name == s.name: s = c
        star = s.starpos is not None and st.decide(p == s.starpos)
        t = st.fresh("tl")
        if star and s.starword is not None and len(s.starword) == 1 and not isinstance(s.starword[0], Elem) and st.atoms[s.starword[0]].exp is None:
            a = s.starword[0]
        elif star and s.starword is not None:
            a = st.atom("B", s.facts(p), filt=list(s.starword))
            if len(s.starword) == 0: pass
        else: a = st.atom("B", s.facts(p))
        st.assume(ULE(st.atoms[a].len, s.total))
        s.total = simp(s.total - st.atoms[a].len)
        s.holes.append(p)
        h = st.fresh("H_" + s.name.replace("!", "_"))
        o = Obj(s.geo.slotaddr(st, p) if isinstance(s.geo, FlatGeo) else act_addr(st, s, p), 8, {0: (8, h)}, "cell")
        st.add(o)
        st.add(Seg(a, h, t, t, BV(0), s.lay))
    def close(s, st):
        """True if no bucket is left in the family"""
        t = st.copy(); q = z3.BitVec("q@", 64)
        if not t.holds(NOT(s.inside(q))): return False
        st.assume(s.total == 0); return True
    def onfree(s, st, blk):
        if isinstance(s.geo, FlatGeo) and s.geo.base.eq(blk.base):
            if not st.eng.done and not s.close(st): st.fail("released buckets hold no elements")
            st.remove(s)
    def same(s, st, o):
        return s.name == o.name and len(s.holes) == len(o.holes) and all(x.eq(y) for x, y in zip(s.holes, o.holes)) and s.total.eq(o.total)
    def __repr__(s): return "Slots(%s holes=%s total=%s)" % (s.name, s.holes, s.total)

def act_addr(st, s, p): return simp(s.geo.slotaddr(st, p))

class FlatRaw(Chunk):
    """raw memory [base, base+size); 8 byte cells; zero(p): cell p is known to be 0"""
    name = None
    def __init__(s, base, size, zero):
        s.base = base; s.size = size; s.zero = zero; s.holes = []; s.geo = FlatGeo(base); s.excl = []
    def copy(s):
        c = Chunk.copy(s); c.holes = list(s.holes); c.excl = list(s.excl); return c
    def rootterm(s): return s.base
    def inside(s, p): return AND(ULT(p, z3.LShR(s.size, BV(3))), *([p != h for h in s.holes] + [NOT(x(p)) for x in s.excl]))
    def candidates(s, st, addr, size):
        if size != 8: return []
        return [(AND(c, s.inside(p)), ("raw", s, p)) for c, p in s.geo.locate(st, addr)]
    def unfold(s, st, act):
        p = act[2]
        for c in st.heap:
            if isinstance(c, FlatRaw) and c.base.eq(s.base) and c.name == s.name: s = c
        v = BV(0) if st.decide(s.zero(p)) else None
        s.holes.append(p)
        st.add(Obj(s.geo.slotaddr(st, p), 8, {0: (8, v)}, "cell"))
    def dozero(s, st, p, n):
        if s.name: return False
        if not (p.eq(s.base) or st.holds(p == s.base)): return False
        st.prove(ULE(n, s.size), "memset inside the block")
        if s.holes: raise Unsupported("memset of touched memory")
        z = s.zero
        s.zero = lambda q: OR(z(q), AND(ULT(q, BV(1 << 60)), ULE(BV(8) * q + 8, n)))
        return True
    def covers(s, st, addr):
        """Bool: the 8 byte cell at addr is inside, and its position"""
        p = div8(addr - s.base)
        if p is not None: return s.inside(p), p
        p = simp(z3.LShR(addr - s.base, BV(3)))
        return AND(((addr - s.base) & 7) == 0, s.inside(p)), p
    def same(s, st, o): return s.base.eq(o.base) and s.name == o.name and len(s.holes) == len(o.holes)
    def __repr__(s): return "FlatRaw(%s size %s holes=%s)" % (s.base, s.size, s.holes)

class SegBlocks(Chunk):
    """malloc tokens of the segments: b == 0 (2^minbit elements) and minbit <= b (2^b elements), b in dom"""
    isfamily = True
    def __init__(s, space, dom): s.space = space; s.dom = dom; s.freed = []
    def copy(s):
        c = Chunk.copy(s); c.freed = list(s.freed); return c
    def inside(s, b): return AND(s.dom(b), *[b != f for f in s.freed])
    def dofree(s, e, st, p):
        sp = s.space.sp(st)
        for a in apps(p, sp.fn):
            b = a.arg(0); sp.fact(st, b)
            mb = s.space.minbit; ns = AND(*[b != j for j, v in sp.stores])
            ok0 = AND(ULT(b, BV(mb)), p == a, s.inside(BV(0)), ns)
            ok1 = AND(UGE(b, BV(mb)), ULT(b, BV(64)), p == a + s.space.E(BV(1) << b), s.inside(b), ns)
            if st.decide(ok1): bb = b; lo = BV(1) << b; hi = BV(2) << b
            elif st.decide(ok0): bb = BV(0); lo = BV(0); hi = BV(1 << mb)
            else: continue
            s.freed.append(bb); st.assume(p != 0)
            s.released(st, simp(lo), simp(hi))
            return True
        return False
    def released(s, st, lo, hi):
        """what lives in positions [lo, hi) of the linear space is gone"""
        L = s.space.L; gone = lambda q: AND(UGE(q, lo), ULT(q, hi))
        for c in list(st.heap):
            if isinstance(c, FlatRaw) and c.base.eq(L): c.excl = c.excl + [gone]
            if isinstance(c, Slots) and c.geo.base.eq(L):
                if st.eng.done: d = c.dom; c.dom = (lambda d: lambda q: AND(d(q), NOT(gone(q))))(d); continue
                t = st.copy(); q = z3.BitVec("q@", 64); t.assume(c.inside(q))
                t.prove(NOT(gone(q)), "released buckets hold no elements")
            if isinstance(c, Obj) and c.kind == "cell":
                p = div8(c.base - L) if st.prov(c.base) == frozenset([L.decl().name()]) else None
                if p is not None and st.decide(gone(p)): st.remove(c)
    def same(s, st, o): return len(s.freed) == len(o.freed) and all(a.eq(b) for a, b in zip(s.freed, o.freed))
    def __repr__(s): return "SegBlocks(freed=%s)" % s.freed

def end_segments(st, space, want, label):
    """the segment pointers of the struct and the memory owned: exactly the segments b in want"""
    sp = space.sp(st); mb = space.minbit
    sbs = [c for c in st.heap if isinstance(c, SegBlocks)]; blks = [c for c in st.heap if isinstance(c, Block)]
    t = st.copy(); b = z3.BitVec("b@", 64); t.assume(want(b)); sp.fact(t, b)
    alts = [AND(c.inside(b), *[b != j for j, v in sp.stores]) for c in sbs]
    def own(j, v, blk):
        lo = ITE(ULT(j, BV(mb)), BV(0), BV(1) << j); n = ITE(ULT(j, BV(mb)), BV(1 << mb), BV(1) << j)
        if isinstance(space.el, int): return AND(v + BV(space.el) * lo == blk.base, blk.size == BV(space.el) * n)
        # calloc(n, element size)
        if getattr(blk, "n", None) is None or not (blk.elsz.eq(space.el) or st.holds(blk.elsz == space.el)): return FALSE
        return AND(v + ITE(ULT(j, BV(mb)), BV(0), space.E(BV(1) << j)) == blk.base, blk.n == n)
    for j, v in sp.stores:
        for k in blks: alts.append(AND(b == j, own(j, v, k)))
    t.prove(OR(*alts) if alts else FALSE, label + ": every segment pointer is an owned segment")
    for c in sbs:
        t = st.copy(); t.assume(c.inside(b)); t.prove(AND(want(b), *[b != j for j, v in sp.stores]), label + ": no segment is lost")
    for k in blks:
        st.prove(OR(*[AND(want(j), own(j, v, k)) for j, v in sp.stores]) if sp.stores else FALSE, label + ": no memory is lost")
    # positions below 2^minbit are reached through any of the first pointers
    t = st.copy(); t.assume(ULT(b, BV(mb))); sp.fact(t, b)
    t.prove(sp.value(t, b) == sp.value(t, BV(0)), label + ": the first segment pointers are equal")
    for c in sbs + blks: st.remove(c)

def fold_slots(st, geo, dom, facts, starpos, lay, label="table"):
    """every slot of dom holds a well formed list satisfying facts; returns (starword, total)"""
    cells = []
    for c in [c for c in st.heap if isinstance(c, Obj) and c.kind == "cell"]:
        for cond, p in geo.locate(st, c.base):
            if st.decide(AND(cond, dom(p))): cells.append((c, p)); break
    starword = None; total = BV(0); poss = []
    for c, p in cells:
        w = fold_list(st, st.objload(c, 0, 8), lay, label + ": bucket")
        for f in facts(p): prove_all(st, w, f, label + ": element in the right bucket")
        total = total + st.length(w); poss.append(p)
        if starpos is not None and starword is None and st.decide(p == starpos): starword = w
        st.remove(c)
    # the remaining positions
    srcs = [c for c in st.heap if isinstance(c, Slots) and c.geo.same(geo)]
    raws = [c for c in st.heap if isinstance(c, FlatRaw)]
    t = st.copy()
    q = z3.BitVec("q@", 64); t.assume(dom(q))
    for p in poss: t.assume(q != p)
    alts = []
    for c in srcs:
        alts.append(c.inside(q))
    sa = geo.slotaddr(t, q) if raws else None
    for c in raws:
        if isinstance(geo, FlatGeo) and not geo.base.eq(c.base): continue
        cv, rp = c.covers(t, sa)
        alts.append(AND(cv, c.zero(rp)))
    t.prove(OR(*alts) if alts else FALSE, label + ": every bucket is initialised")
    for c in srcs:
        u = st.copy(); q = z3.BitVec("q@", 64); u.assume(c.inside(q))
        u.prove(dom(q), label + ": no bucket with elements is dropped")
        e = skolem_elem(u)
        for p in poss: u.assume(q != p)
        for f in c.facts(q): u.assume(f(e))
        for f in facts(q): u.prove(f(e), label + ": element in the right bucket")
        total = total + c.total
    if starpos is not None and starword is None:
        for c in srcs:
            if st.decide(c.inside(starpos)):
                if st.decide(c.starpos == starpos): starword = list(c.starword); break
                # the bucket was another one before: nothing in it has the hash
                psi = st.eng.psi(st); u = st.copy(); e = skolem_elem(u)
                for f in c.facts(starpos): u.assume(f(e))
                u.prove(NOT(psi(e)), label + ": position of the hash"); starword = []; break
        else: starword = []
    for c in srcs: st.remove(c)
    return starword, simp(total)

def fold_raw(st, geo, dom, label):
    """every slot of dom is memory owned by the table"""
    t = st.copy()
    q = z3.BitVec("q@", 64); t.assume(dom(q))
    if t.infeasible(): return
    sa = geo.slotaddr(t, q)
    alts = []
    for c in t.heap:
        if isinstance(c, FlatRaw):
            if c.base.eq(geo.base): alts.append(c.inside(q))
        elif isinstance(c, Obj) and c.kind == "cell" and t.prov(c.base) == t.prov(geo.base):
            p = div8(c.base - geo.base)
            if p is not None: alts.append(q == p)
    t.prove(OR(*alts) if alts else FALSE, label)

class LinLoop(LoopBase):
    """incremental resize: the split position moves; fields of the table by name, given by eng.lin(st)"""
    @classmethod
    def matches(cls, eng, st, fr, lp):
        if not getattr(eng, "lin", None) or "lin" in st.ghost: return
        if not any(isinstance(c, LinSpace) for c in st.heap) or not any(isinstance(c, Slots) for c in st.heap): return
        down = False   # most likely first
        try: down = st.holds(eng.lin(st)["get"](st, "state") == BV(2, 32))
        except Exception: pass
        for d in ("down", "up") if down else ("up", "down"):
            i = cls(); i.dir = d; i.lp = lp; i.depth = len(st.frames); yield i
    def enter(s, eng, st):
        R = eng.lin(st); s.R = R; g = R["get"]
        mx = g(st, "bucket_max"); lm = g(st, "low_max"); s.lm = lm; s.mx = mx
        s.geo = R["geo"]; s.lay = R["lay"]; s.split0 = g(st, "split"); s.hs = R["hs"]; s.psi = R["psi"]
        fin = lambda sp: (R["facts"](st, sp), simp(R["pos"](st, s.hs, sp)))
        s.fin = fin
        f0, star0 = fin(s.split0)
        s.star0, s.total0 = fold_slots(st, s.geo, lambda p: ULT(p, lm + s.split0), f0, star0, s.lay, "table at the loop")
        fold_raw(st, s.geo, lambda p: AND(UGE(p, lm + s.split0), ULT(p, mx)), "table at the loop: rest of the last segment")
        for c in list(st.heap):
            if isinstance(c, Slots):
                if not c.close(st): st.fail("loop: buckets outside the table")
                st.remove(c)
            elif isinstance(c, FlatRaw) and c.base.eq(s.geo.base): st.remove(c)
            elif isinstance(c, Obj) and c.kind == "cell" and st.prov(c.base) == st.prov(s.geo.base): st.remove(c)
        cs = lambda x: [("split < low_max", ULT(x, lm)), ("split > 0", x != 0)]
        s.cs = cs
        st.prove(ULE(s.split0, lm), "loop invariant: split position")
        keep = s.houdini_enter(eng, st, cs(s.split0))
        s.havoc_locals(st, st.frames[-1], s.lp)
        sp = st.fresh("split"); st.assume(ULE(sp, lm)); s.sp = sp
        st.assume(UGE(sp, s.split0) if s.dir == "up" else ULE(sp, s.split0))
        for n, c in cs(sp):
            if n in keep: st.assume(c)
        R["set"](st, "split", sp)
        f1, star1 = fin(sp)
        N = st.atom("L", f1(star1), filt=list(s.star0))
        st.add(Slots(st, s.geo, lambda p: ULT(p, lm + sp), f1, s.lay, s.total0, star1, [N], "L"))
        raw = FlatRaw(s.geo.base, simp(mx * 8), lambda p: FALSE); raw.excl = [lambda p: ULT(p, lm + sp)]; raw.name = st.freshname("raw")
        st.add(raw)
        f2, star2 = fin(simp(sp + 1))
        st.ghost["lin"] = True; st.ghost["acc"] = Acc(s.geo, f2, star2)
        s.frame_start(eng, st, [c for c in st.heap if isinstance(c, (Slots, FlatRaw))])
    def check(s, eng, st):
        R = s.R; lm = s.lm
        sp = R["get"](st, "split")
        # the field is the loop's own
        o, off, sz = R["where"](st, "split")
        st.prove(UGT(sp, s.sp) if s.dir == "up" else ULT(sp, s.sp), "loop makes progress (termination)")
        st.prove(ULE(sp, lm), "loop invariant: split position")
        f1, star1 = s.fin(sp)
        sw, tot = fold_slots(st, s.geo, lambda p: ULT(p, lm + sp), f1, star1, s.lay, "loop invariant: table")
        st.prove(tot == s.total0, "loop invariant: no element is lost or duplicated")
        prove_filt(st, sw, s.star0, s.psi, "loop invariant: members with a given hash, in order")
        fold_raw(st, s.geo, lambda p: AND(UGE(p, lm + sp), ULT(p, s.mx)), "loop invariant: rest of the last segment")
        st.objstore(o, off, sz, s.sp)
        for c in list(st.heap):
            if isinstance(c, Slots):
                if not c.close(st): st.fail("loop: buckets outside the table")
                st.remove(c)
            elif isinstance(c, FlatRaw) and c.base.eq(s.geo.base): st.remove(c)
            elif isinstance(c, Obj) and c.kind == "cell" and st.prov(c.base) == st.prov(s.geo.base): st.remove(c)
        left = s.frame_check(eng, st)
        for n in left:
            if isinstance(n, Seg) and st.holds(st.empty(n.atom)): continue
            if isinstance(n, Seg) or isinstance(n, Obj) and n.kind in ("node", "cell"): st.fail("loop invariant: no node is lost", repr(n))
            if isinstance(n, Block): st.fail("loop invariant: memory is not lost", repr(n))
        s.houdini_check(eng, st, s.cs(sp))

# ------------------------------------------------------------------------------- loops
class RangeLoop(LoopBase):
    """an index runs over a family (bucket slots, segments): the part between its initial and its current value is consumed"""
    @classmethod
    def matches(cls, eng, st, fr, lp):
        if not eng.consume: return
        opts = []
        for c in st.heap:
            if isinstance(c, (Slots, SegBlocks)) or getattr(c, "isfamily", False):
                for v, t in int_locals(fr, lp): opts.append((c, v, "up"))
                for v, t in int_locals(fr, lp): opts.append((c, v, "down"))
                for v, t in ptr_locals(fr, lp):
                    if isinstance(c, Slots) and isinstance(c.geo, FlatGeo):
                        x = locv(fr, v)
                        if occurs(x, c.geo.base): opts.append((c, v, "ptr"))
        for o in opts:
            i = cls(); i.fam, i.var, i.dir = o; i.lp = lp; i.depth = len(st.frames)
            yield i
    def idx(s, fr):
        x = locv(fr, s.var)
        if x is None: return None
        if s.dir == "ptr": return simp(z3.LShR(x - s.fam.geo.base, BV(3)))
        if x.size() == 32: return simp(z3.ZeroExt(32, x))
        return x
    def cons(s, v):
        v0 = s.v0
        if s.dir == "down": return lambda p: AND(UGE(p, v), ULT(p, v0))
        return lambda p: AND(UGE(p, v0), ULT(p, v))
    def find(s, st):
        for c in st.heap:
            if type(c) is type(s.fam) and getattr(c, "name", None) == getattr(s.fam, "name", None): return c
        return None
    def enter(s, eng, st):
        fr = st.frames[-1]
        c = s.find(st)
        s.v0 = s.idx(fr)
        s.orig = c.copy()
        s.bounds = [x.v for x in fr.env.values() if isinstance(x, Val) and z3.is_bv(x.v)]
        keep = s.houdini_enter(eng, st, s.cands(st, fr, st))
        s.havoc_locals(st, fr, s.lp)
        if s.dir == "ptr":
            k = st.fresh("k"); st.assume(ULT(k, BV(1 << 59)))
            fr.env[s.var] = Val(simp(s.fam.geo.base + BV(8) * k), fr.func.locals[s.var])
            s.kv = k
        v = s.idx(fr) if s.dir != "ptr" else s.kv
        st.assume(UGE(v, s.v0) if s.dir != "down" else ULE(v, s.v0))
        d = c.dom; con = s.cons(v)
        c.dom = lambda p: AND(d(p), NOT(con(p)))
        if isinstance(c, Slots):
            c.total = st.fresh("tot"); st.assume(ULE(c.total, s.orig.total))
        now = dict(s.cands(st, fr, st))
        for n in keep: st.assume(now[n])
        s.start = c.copy()
        s.frame_start(eng, st, [c] + [x for x in st.heap if isinstance(x, Obj) and x.kind == "cell"])
        s.v = v
    def cands(s, st, fr, w):
        out = []
        x = locv(fr, s.var)
        if x is None: return out
        # bounds by values of other variables and fields that the loop does not change
        bs = []
        for n, val in sorted(fr.env.items()):
            if n in s.lp["mod"] or not isinstance(val, Val) or n == s.var: continue
            if isinstance(val.t, TInt): bs.append((n, conv(val.v, val.t, U64)))
        for c in st.heap:
            if isinstance(c, Obj) and c.kind == "obj":
                for off, (sz, v) in c.fields.items():
                    if v is not None and sz in (4, 8): bs.append(("f%d" % off, v if sz == 8 else simp(z3.ZeroExt(32, v))))
        if s.dir == "ptr":
            base = s.fam.geo.base; i = div8(simp(x - base))
            for n, val in sorted(fr.env.items()):
                if n in s.lp["mod"] or not isinstance(val, Val) or not isinstance(val.t, TPtr) or not z3.is_bv(val.v): continue
                b = div8(simp(val.v - base))
                if b is not None: bs.append((n, b))
        else: i = s.idx(fr)
        if i is not None:
            for n, b in bs: out.append(("index <= %s" % n, ULE(i, b)))
        return out
    def check(s, eng, st):
        fr = st.frames[-1]
        v = s.idx(fr)
        if s.dir == "ptr":
            p = div8(locv(fr, s.var) - s.fam.geo.base); v = p if p is not None else v
        c = s.find(st)
        if c is None: st.fail("loop invariant: family of slots", "lost")
        st.prove(UGT(v, s.v) if s.dir != "down" else ULT(v, s.v), "loop makes progress (termination)")
        st.prove(UGE(v, s.v0) if s.dir != "down" else ULE(v, s.v0), "loop index stays on its side")
        con = s.cons(v); d = s.orig.inside
        t = st.copy(); q = z3.BitVec("q@", 64)
        t.prove(AND(d(q), NOT(con(q))) == c.inside(q), "loop invariant: exactly the processed part is consumed")
        left = nodes_left(st)
        fr0 = [x for x, _ in s.frame]
        for n in left:
            if not any((isinstance(x, Obj) and isinstance(n, Obj) and x.base.eq(n.base)) or (isinstance(x, Seg) and isinstance(n, Seg) and x.atom == n.atom) for x in fr0):
                st.fail("iteration visits every element", repr(n))
        s.frame_check(eng, st)
        s.houdini_check(eng, st, s.cands(st, fr, st))

class Acc:
    """where a redistribution of elements goes: geometry, facts of a position, star position"""
    def __init__(s, geo, facts, starpos): s.geo = geo; s.facts = facts; s.starpos = starpos

def drop_dead_cells(st, geo, dom):
    for c in [c for c in st.heap if isinstance(c, Obj) and c.kind == "cell"]:
        if any(st.holds(AND(cond, NOT(dom(p)))) for cond, p in geo.locate(st, c.base)): st.remove(c)

class RehashLoop(LoopBase):
    """an index i runs over the bucket pairs of an old and a new table: the buckets p with (p & m) < i are in the new one
    (index going down: those with (p & m) >= i, or > i)"""
    @classmethod
    def matches(cls, eng, st, fr, lp):
        if not getattr(eng, "rehash", None): return
        old = [c for c in st.heap if isinstance(c, Slots) and isinstance(c.geo, FlatGeo)]
        raw = [c for c in st.heap if isinstance(c, FlatRaw)]
        if len(old) != 1 or len(raw) != 1: return
        for v, t in int_locals(fr, lp):
            x = locv(fr, v)
            if x is None or t.size != 8: continue
            if st.holds(x == 0): d = "up"
            else:
                m1 = cls.size(eng, st, raw[0])
                d = "down" if st.holds(x == m1) else "down1" if st.holds(x == m1 - 1) else None
            if d:
                i = cls(); i.var = v; i.lp = lp; i.depth = len(st.frames); i.dir = d; yield i
    @staticmethod
    def size(eng, st, raw):
        o = eng.rehash(st)["max"]; n = simp(z3.LShR(raw.size, BV(3)))
        return simp(ITE(ULT(o, n), o, n))
    def enter(s, eng, st):
        fr = st.frames[-1]
        old = [c for c in st.heap if isinstance(c, Slots)][0]; raw = [c for c in st.heap if isinstance(c, FlatRaw)][0]
        R = eng.rehash(st); s.R = R        # old: max, starpos; hs
        omax = R["max"]; nmax = simp(z3.LShR(raw.size, BV(3))); hs = R["hs"]
        m = simp(ITE(ULT(omax, nmax), omax, nmax) - 1)
        s.ogeo = old.geo; s.ngeo = FlatGeo(raw.base); s.omax = omax; s.nmax = nmax; s.m = m
        s.ofacts = old.facts; s.nfacts = lambda q: [lambda e: e.idx & (nmax - 1) == q]
        s.ostar = old.starpos; s.nstar = simp(hs & (nmax - 1)); s.hs = hs; s.psi = R["psi"]; s.lay = old.lay
        s.star0, s.total0 = fold_slots(st, old.geo, lambda p: ULT(p, omax), old.facts, old.starpos, old.lay, "old table")
        nodes_left(st)
        # candidate facts about other locals that do not change are part of the frame
        s.havoc_locals(st, fr, s.lp)
        k = st.fresh("k"); st.assume(ULE(k, m if s.dir == "down1" else m + 1))
        fr.env[s.var] = Val(k, fr.func.locals[s.var]); s.k = k
        tn = st.fresh("tn"); st.assume(ULE(tn, s.total0))
        N = st.atom("N", s.nfacts(s.nstar), filt=list(s.star0))
        st.add(Slots(st, s.ogeo, s.odom(k), s.ofacts, s.lay, simp(s.total0 - tn), s.ostar, list(s.star0), "O"))
        st.add(Slots(st, s.ngeo, s.ndom(k), s.nfacts, s.lay, tn, s.nstar, [N], "N"))
        raw.excl = raw.excl + [s.ndom(k)]
        st.ghost["acc"] = Acc(s.ngeo, s.nfacts, s.nstar)
        s.rawbase = raw.base
        s.frame_start(eng, st, [c for c in st.heap if isinstance(c, (Slots, FlatRaw))])
    def moved(s, r, k): return ULT(r, k) if s.dir == "up" else UGE(r, k) if s.dir == "down" else UGT(r, k)
    def odom(s, k): return lambda p: AND(ULT(p, s.omax), NOT(s.moved(p & s.m, k)))
    def ndom(s, k): return lambda q: AND(ULT(q, s.nmax), s.moved(q & s.m, k))
    def check(s, eng, st):
        fr = st.frames[-1]
        k = locv(fr, s.var)
        st.prove(UGT(k, s.k) if s.dir == "up" else ULT(k, s.k), "loop makes progress (termination)")
        st.prove(ULE(k, s.m if s.dir == "down1" else s.m + 1), "loop index stays in the table")
        sw_n, tn = fold_slots(st, s.ngeo, s.ndom(k), s.nfacts, s.nstar, s.lay, "loop invariant: new table")
        sw_o, to = fold_slots(st, s.ogeo, s.odom(k), s.ofacts, s.ostar, s.lay, "loop invariant: old table")
        drop_dead_cells(st, s.ogeo, s.odom(k))
        st.prove(tn + to == s.total0, "loop invariant: every element is in exactly one of the two tables")
        if st.decide(s.moved(s.hs & s.m, k)): prove_filt(st, sw_n, s.star0, s.psi, "loop invariant: members with a given hash, in order")
        else: prove_filt(st, sw_o, s.star0, s.psi, "loop invariant: members with a given hash, in order")
        fold_raw(st, s.ngeo, lambda q: AND(ULT(q, s.nmax), NOT(s.ndom(k)(q))), "loop invariant: rest of the new table")
        left = s.frame_check(eng, st)
        for n in left:
            if isinstance(n, Seg) and st.holds(st.empty(n.atom)): continue
            if isinstance(n, Seg) or isinstance(n, Obj) and n.kind == "node": st.fail("loop invariant: no node is lost", repr(n))
        for c in left:
            if isinstance(c, (FlatRaw, Seg)) : continue
            if isinstance(c, Obj) and c.kind in ("cell", "stack"): continue
            st.fail("loop invariant: nothing else is left over", repr(c))

class DistributeLoop(LoopBase):
    """a cursor takes the nodes of a list one by one and appends each to one of a few lists (cells)"""
    @classmethod
    def matches(cls, eng, st, fr, lp):
        if "acc" not in st.ghost: return
        for v, t in ptr_locals(fr, lp):
            x = locv(fr, v)
            for c in st.heap:
                if isinstance(c, Seg) and (c.f.eq(x) or st.holds(c.f == x)):
                    i = cls(); i.cur = v; i.seg = c.atom; i.depth = len(st.frames); i.lp = lp
                    yield i; break
    def enter(s, eng, st):
        fr = st.frames[-1]; acc = st.ghost["acc"]
        g = [c for c in st.heap if isinstance(c, Seg) and c.atom == s.seg][0]
        s.g = g.copy(); s.lay = g.lay
        st.remove(g)
        s.cells = []
        for c in [c for c in st.heap if isinstance(c, Obj) and c.kind == "cell"]:
            v = st.objload(c, 0, 8)
            if v.eq(g.f): st.remove(c); continue       # the bucket being emptied
            pos = None
            for cond, p in acc.geo.locate(st, c.base):
                if st.holds(cond): pos = p; break
            if pos is None: continue
            w = fold_list(st, v, s.lay, "list being filled")
            star = acc.starpos is not None and st.decide(pos == acc.starpos)
            s.cells.append((c.base, pos, w, star))
        s.havoc_locals(st, fr, s.lp)
        facts = st.atoms[g.atom].facts
        s1 = st.atom("V", facts); s2 = st.atom("R", facts)
        st.assume(st.atoms[g.atom].len == st.atoms[s1].len + st.atoms[s2].len)
        st.setexp(g.atom, (s1, s2)); s.s1 = s1; s.s2 = s2
        cur = st.fresh("cur"); fr.env[s.cur] = Val(cur, fr.func.locals[s.cur])
        st.add(Seg(s2, cur, st.fresh("stale"), g.l, g.nl, g.lay))
        tot = st.atoms[s1].len; s.accatoms = []
        lens = BV(0)
        for base, pos, w, star in s.cells:
            a = st.atom("A", acc.facts(pos), filt=(w + [s1]) if star else None)
            h = st.fresh("h"); t = st.fresh("t")
            o = getobj(st, base); o.fields = {0: (8, h)}
            st.add(Seg(a, h, t, t, BV(0), s.lay)); s.accatoms.append(a)
            tot = tot + st.length(w); lens = lens + st.atoms[a].len
            st.assume(ULE(st.atoms[a].len, BV(1 << 57)))
        st.assume(lens == tot)
        s.tot0 = simp(tot - st.atoms[s1].len)
        s.frame_start(eng, st, [c for c in st.heap if isinstance(c, Seg) and c.atom in s.accatoms + [s2]] + [getobj(st, b) for b, _, _, _ in s.cells])
        s.acc = acc
    def check(s, eng, st):
        fr = st.frames[-1]
        cur = locv(fr, s.cur)
        w2, fp, l2 = fold_seg(st, cur, None, s.g.nl, s.lay, "loop invariant: nodes still to move")
        r = norm(st, [s.s2]); w2n = norm(st, w2)
        if len(w2n) >= len(r): st.fail("loop makes progress (termination)", "no node moved")
        prove_word(st, w2n, r[len(r) - len(w2n):], "loop invariant: nodes still to move")
        moved = [s.s1] + r[:len(r) - len(w2n)]
        total = BV(0)
        for base, pos, w, star in s.cells:
            o = getobj(st, base)
            if o is None: st.fail("loop invariant: cell", "lost")
            x = fold_list(st, st.objload(o, 0, 8), s.lay, "loop invariant: list being filled")
            for f in s.acc.facts(pos): prove_all(st, x, f, "loop invariant: element in the right bucket")
            if star: prove_filt(st, x, w + moved, eng.psi(st), "loop invariant: members with a given hash, in order")
            total = total + st.length(x)
            st.remove(o)
        st.prove(total == s.tot0 + st.length(moved), "loop invariant: no element is lost or duplicated")
        for n in nodes_left(st):
            if not any(isinstance(n, Obj) and isinstance(c, Obj) and n.base.eq(c.base) or isinstance(n, Seg) and isinstance(c, Seg) and n.atom == c.atom for c, _ in s.frame): st.fail("loop invariant: no node is lost", repr(n))
        s.frame_check(eng, st)

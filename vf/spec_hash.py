"""C03, C04 (and parts of C06, C18, C19, C20): contracts of hashtable and hashdyn"""
from tables import *
from task import Task
from spec_list import lay, ptr, take_node

BOOL0 = BV(0, 32)
class Kind:
    def __init__(s, name, tag, prop): s.name = name; s.tag = tag; s.prop = prop
    def fn(s, op): return "tommy_%s_%s" % (s.name, op)

def psi_of(hs): return lambda e: e.idx == hs

def invariant(k, st, v, sized=True):
    """facts about the fields of a well formed table; v: name -> value"""
    b = v["bit"]
    out = [v["bucket_mask"] == v["bucket_max"] - 1, v["bucket_max"] == BV(1) << b, UGE(b, BV(4)), ULE(b, BV(52))]
    if k.name == "hashdyn":
        out += [v["bucket_bit"] == z3.Extract(31, 0, b)]
        if sized: out += sizing(k, v)
    return out
def sizing(k, v):
    """C06"""
    if k.name == "hashdyn":
        return [ULT(v["count"], z3.LShR(v["bucket_max"], BV(1))), OR(v["bit"] == 4, UGT(v["count"], z3.LShR(v["bucket_max"], BV(3))))]
    return []

class T: pass
def mk_table(eng, st, k, hs=None, member=False, sized=True, mx=None):
    """an arbitrary well formed table; hs: the hash observed (arbitrary if not given)"""
    L = lay(eng); t = T(); t.k = k; t.L = L
    ts = eng.u.structs[k.tag]; t.ts = ts
    t.bit = st.fresh("bit")
    v = {}
    for n, (off, ft) in ts.fields.items(): v[n] = st.fresh("t_" + n, 8 * ft.size)
    v["bit"] = t.bit
    if mx is not None: v["bucket_max"] = mx(st)
    v["bucket_mask"] = simp(v["bucket_max"] - 1)
    for f in invariant(k, st, v, sized): st.assume(f)
    t.v = v
    t.base, t.o, _ = mk_struct(st, "table", eng.u, k.tag, {n: x for n, x in v.items() if n != "bit"})
    t.hs = st.fresh("hs") if hs is None else hs
    t.geo = FlatGeo(v["bucket"]); mx = v["bucket_max"]; mk = v["bucket_mask"]
    st.assume(AND(v["bucket"] != 0, ULT(v["bucket"], BV(1 << 61)), (v["bucket"] & 7) == 0))
    t.dom = lambda p: ULT(p, mx)
    t.facts = lambda p: [lambda e: e.idx & mk == p]
    t.star = simp(t.hs & mk)
    t.total = v["count"]
    t.S = st.atom("M", t.facts(t.star))
    t.word = [t.S]
    sl = Slots(st, t.geo, t.dom, t.facts, L, t.total, t.star, [t.S], "B")
    st.add(sl); t.slots = sl
    st.add(Block(v["bucket"], simp(mx * 8)))
    eng.psi = lambda s: psi_of(t.hs)
    eng.rehash = lambda s: dict(max=mx, hs=t.hs, psi=psi_of(t.hs))
    if member:
        # an arbitrary member x with its neighbours A, B in its bucket
        xi = st.fresh("xidx"); p = simp(xi & mk)
        n = st.fresh("node"); l1 = st.fresh("p"); n2 = st.fresh("n"); tl = st.fresh("tl")
        star = st.decide(p == t.star)
        a = st.atom("A", t.facts(p)); b = st.atom("Z", t.facts(p))
        o = st.mknode(n, n2, l1, L, idx=xi)
        h = st.fresh("H")
        sl.holes.append(p)
        rest = st.fresh("rest"); st.assume(rest + st.atoms[a].len + st.atoms[b].len + 1 == t.total); st.assume(ULE(rest, t.total)); st.assume(ULT(st.atoms[a].len, t.total)); st.assume(ULT(st.atoms[b].len, t.total)); st.assume(ULT(t.total, BV(1 << 57)))
        sl.total = rest
        st.add(Obj(simp(t.geo.slotaddr(st, p)), 8, {0: (8, h)}, "cell"))
        st.add(o); st.add(Seg(a, h, tl, l1, n, L)); st.add(Seg(b, n2, n, tl, BV(0), L))
        t.x = Elem(n, o.fields[L.data][1], xi); t.xword = [a, b]
        if star: t.word = [a, t.x, b]; t.wordless = [a, b]
        else: t.wordless = t.word
    return t

def end_table(st, t, want, dcount, label="table", sized=True):
    """the container at t.base is a well formed table whose members with hash hs are `want`, count changed by dcount"""
    k = t.k; v = {}
    for n in t.ts.fields: v[n] = fld(st, t.o, t.ts, n)
    bit = st.fresh("bit1")
    if k.name == "hashdyn": st.assume(bit == z3.ZeroExt(32, v["bucket_bit"]))
    else:
        if v["bucket_max"].eq(t.v["bucket_max"]): bit = t.bit
        else: raise Unsupported("bucket_max changes")
    v["bit"] = bit
    for f in invariant(k, st, v, sized): st.prove(f, label + ": invariant of the sizes")
    geo = FlatGeo(v["bucket"]); mx = v["bucket_max"]; mk = v["bucket_mask"]
    star = simp(t.hs & mk)
    facts = lambda p: [lambda e: e.idx & mk == p]
    sw, tot = fold_slots(st, geo, lambda p: ULT(p, mx), facts, star, t.L, label)
    for c in [c for c in st.heap if isinstance(c, Slots)]:
        if not c.close(st): st.fail(label + ": buckets of an old table still hold elements")
        st.remove(c)
    prove_filt(st, sw, want, psi_of(t.hs), label + ": members with a given hash, in order")
    st.prove(v["count"] == t.total + BV(dcount), label + ": count changes exactly as documented")
    st.prove(tot == v["count"], label + ": count equals the number of stored elements")
    for n in nodes_left(st): st.fail(label + ": no node is lost or duplicated", repr(n))
    end_blocks(st, v["bucket"], mx, label)
    return v
def end_blocks(st, bucket, mx, label):
    bl = [c for c in st.heap if isinstance(c, Block)]
    hit = None
    for c in bl:
        if st.holds(c.base == bucket): hit = c
    if hit is None: st.fail(label + ": the bucket vector is owned by the table")
    st.prove(hit.size == BV(8) * mx, label + ": size of the bucket vector")
    st.remove(hit)
    for c in st.heap:
        if isinstance(c, Block): st.fail(label + ": memory no longer used is released", repr(c))

CMP = ufun("CMP", B64, B64, z3.BitVecSort(32))
def mk_cmp(eng, st):
    f = st.fresh("cmp"); arg = st.fresh("cmp_arg")
    def h(s, a): return Val(CMP(a[0].v, a[1].v), I32)
    st.fptr = dict(st.fptr); st.fptr[f.get_id()] = (h, f)
    return f, arg
def matcher(hash_, arg): return lambda e: AND(e.idx == hash_, CMP(arg, e.data) == BV(0, 32))

def first_match(st, word, m):
    """index in the normalised word of the first matching element, or None"""
    w = norm(st, word)
    for i, it in enumerate(w):
        if isinstance(it, Elem):
            if st.decide(m(it)): return w, i
        else:
            if not holds_all(st, it, lambda e: NOT(m(e))): st.fail("an element that matches is not overlooked", "group %s of the bucket was passed without a match being excluded" % it)
    return w, None
def first_match_lazy(st, word, m, found):
    w = norm(st, word)
    for i, it in enumerate(w):
        if isinstance(it, Elem):
            if st.decide(m(it)): return w, i
        elif not holds_all(st, it, lambda e: NOT(m(e))):
            st.fail("an element that matches is not overlooked", "group %s of the bucket was passed without a match being excluded" % it)
    return w, None

def no_writes(st, label="nothing is modified"):
    w = [x for x in st.writes if x[0] != "stack"]
    if w: st.fail(label, "writes: %s" % w[:3])
    STATS.obl += 1; STATS.discharged += 1; st.eng.count(st.eng.label(st, label))

def T_init(k):
    def setup(e, st):
        b, o, ts = mk_struct(st, "table", e.u, k.tag)
        t = T(); t.k = k; t.o = o; t.ts = ts; t.L = lay(e); t.hs = st.fresh("hs")
        a = [ptr(b)]
        if k.name == "hashtable":
            t.req = st.fresh("req"); st.assume(ULE(t.req, BV(1 << 50))); a.append(Val(t.req, U64))
        return a, t
    def post(st, ret, t):
        v = {n: fld(st, t.o, t.ts, n) for n in t.ts.fields}
        mx = v["bucket_max"]
        st.prove(v["count"] == 0, "empty after init")
        st.prove(v["bucket_mask"] == mx - 1, "mask after init")
        st.prove(AND(mx != 0, mx & (mx - 1) == 0, UGE(mx, BV(16)), ULE(mx, BV(1 << 50))), "number of buckets is a power of two, at least 16")
        if k.name == "hashtable": st.prove(UGE(mx, t.req), "at least the requested number of buckets"); st.prove(OR(mx == 16, ULT(z3.LShR(mx, BV(1)), t.req)), "no more buckets than the next power of two")
        else: st.prove(mx == BV(1) << z3.ZeroExt(32, v["bucket_bit"]), "bits after init"); st.prove(mx == 16, "initial size")
        geo = FlatGeo(v["bucket"])
        mk = v["bucket_mask"]
        sw, tot = fold_slots(st, geo, lambda p: ULT(p, mx), lambda p: [lambda e: e.idx & mk == p], simp(t.hs & mk), t.L, "new table")
        prove_filt(st, sw, [], psi_of(t.hs), "empty after init"); st.prove(tot == 0, "empty after init")
        end_blocks(st, v["bucket"], mx, "init")
    return Task(k.fn("init"), k.fn("init"), setup, post, {k.prop, "C06", "C19", "C20"}, E)

def T_insert(k):
    def setup(e, st):
        t = mk_table(e, st, k)
        st.assume(ULT(t.total, BV(1 << 49)))
        n, o = mk_node(st, "node", t.L); t.n = n; t.d = st.fresh("data"); t.h = st.fresh("hash")
        return [ptr(t.base), ptr(n), ptr(t.d), Val(t.h, U64)], t
    def post(st, ret, t):
        x = Elem(t.n, t.d, t.h)
        want = t.word + ([x] if st.decide(t.h == t.hs) else [])
        end_table(st, t, want, 1)
    return Task(k.fn("insert"), k.fn("insert"), setup, post, {k.prop, "C20"} | ({"C06", "C19"} if k.name == "hashdyn" else set()), E, deps={"C18"})

def T_remove_existing(k):
    def setup(e, st):
        t = mk_table(e, st, k, member=True)
        return [ptr(t.base), ptr(t.x.addr)], t
    def post(st, ret, t):
        st.prove(ret.v == t.x.data, "returns the object of the removed member")
        take_node(st, t.x.addr, t.x.data, t.x.idx, "removed node")
        end_table(st, t, t.wordless, -1)
    return Task(k.fn("remove_existing"), k.fn("remove_existing"), setup, post, {k.prop, "C20"} | ({"C06", "C19"} if k.name == "hashdyn" else set()), E, deps={"C18"})

def T_search(k):
    def setup(e, st):
        hash_ = st.fresh("hash")
        t = mk_table(e, st, k, hs=hash_)
        f, arg = mk_cmp(e, st); t.m = matcher(hash_, arg); t.h = hash_
        e.walk_preds = [lambda x: NOT(t.m(x))]
        return [ptr(t.base), ptr(f), ptr(arg), Val(hash_, U64)], t
    def post(st, ret, t):
        w, i = first_match(st, t.word, t.m)
        if i is None: st.prove(ret.v == 0, "nothing is found only if nothing matches")
        else: st.prove(ret.v == w[i].data, "the earliest matching object is found")
        no_writes(st)
    return Task(k.fn("search"), k.fn("search"), setup, post, {k.prop}, E)

def T_remove(k):
    def setup(e, st):
        hash_ = st.fresh("hash")
        t = mk_table(e, st, k, hs=hash_)
        f, arg = mk_cmp(e, st); t.m = matcher(hash_, arg); t.h = hash_
        e.walk_preds = [lambda x: NOT(t.m(x))]
        return [ptr(t.base), ptr(f), ptr(arg), Val(hash_, U64)], t
    def post(st, ret, t):
        w, i = first_match(st, t.word, t.m)
        if i is None:
            st.prove(ret.v == 0, "nothing is removed only if nothing matches")
            end_table(st, t, t.word, 0)
        else:
            st.prove(ret.v == w[i].data, "the earliest matching object is removed and returned")
            take_node(st, w[i].addr, w[i].data, w[i].idx, "removed node")
            end_table(st, t, w[:i] + w[i + 1:], -1)
    return Task(k.fn("remove"), k.fn("remove"), setup, post, {k.prop, "C20"} | ({"C06", "C19"} if k.name == "hashdyn" else set()), E, deps={"C18"})

def T_bucket(k):
    def setup(e, st):
        hash_ = st.fresh("hash")
        t = mk_table(e, st, k, hs=hash_)
        return [ptr(t.base), Val(hash_, U64)], t
    def post(st, ret, t):
        no_writes(st)
        w = fold_list(st, ret.v, t.L, "bucket")
        prove_filt(st, w, t.word, psi_of(t.hs), "the bucket walks every member with the hash, in order")
    return Task(k.fn("bucket"), k.fn("bucket"), setup, post, {k.prop}, E)

def T_count(k):
    def setup(e, st):
        t = mk_table(e, st, k); return [ptr(t.base)], t
    def post(st, ret, t): st.prove(ret.v == t.total, "count equals the number of stored elements"); no_writes(st)
    return Task(k.fn("count"), k.fn("count"), setup, post, {"C20"}, E)
def T_usage(k):
    def setup(e, st):
        t = mk_table(e, st, k); return [ptr(t.base)], t
    def post(st, ret, t):
        sz = [c for c in st.heap if isinstance(c, Block)][0].size
        st.prove(ret.v == sz + t.total * BV(t.L.size), "memory usage equals the bytes held"); no_writes(st)
    return Task(k.fn("memory_usage"), k.fn("memory_usage"), setup, post, {"C20"}, E)
def T_done(k):
    def setup(e, st):
        t = mk_table(e, st, k); return [ptr(t.base)], t
    def post(st, ret, t):
        for c in st.heap:
            if isinstance(c, Block): st.fail("done releases the bucket vector", repr(c))
        STATS.obl += 1; STATS.discharged += 1; st.eng.count("%s done releases everything exactly once" % k.name)
    return Task(k.fn("done"), k.fn("done"), setup, post, {"C19"}, E, done=True)

def resize_apply(eng, st, a):
    """contract of tommy_hashdyn_resize: one step up or down; same members, bucket by bucket order of equal hashes"""
    L = lay(eng); o = None
    for c in st.heap:
        if isinstance(c, Obj) and c.tag == KD.tag and (c.base.eq(a[0].v) or st.holds(c.base == a[0].v)): o = c
    if o is None: raise Unsupported("resize of an unknown table")
    ts = eng.u.structs[KD.tag]; g = lambda n: st.objload(o, ts.fields[n][0], ts.fields[n][1].size)
    v = {n: g(n) for n in ts.fields}; nb = simp(conv(a[1].v, a[1].t, U64)); bit = simp(z3.ZeroExt(32, v["bucket_bit"]))
    mx = v["bucket_max"]; mk = v["bucket_mask"]; hs = st.ghost["ctx"].hs
    for f in (mk == mx - 1, mx == BV(1) << bit, OR(nb == bit + 1, nb == bit - 1), UGE(nb, BV(4)), ULE(nb, BV(52))): st.prove(f, "precondition of resize: sizes")
    sw, tot = fold_slots(st, FlatGeo(v["bucket"]), lambda p: ULT(p, mx), lambda p: [lambda e: e.idx & mk == p], simp(hs & mk), L, "precondition of resize")
    for c in [c for c in st.heap if isinstance(c, Slots)]:
        if not c.close(st): st.fail("precondition of resize")
        st.remove(c)
    blk = [c for c in st.heap if isinstance(c, Block) and st.holds(c.base == v["bucket"])]
    if not blk: st.fail("precondition of resize: owns the bucket vector")
    st.remove(blk[0])
    for c in [c for c in st.heap if isinstance(c, Obj) and c.kind == "cell"]: st.remove(c)
    b2 = st.fresh("bucket2"); m2 = st.fresh("max2")
    st.assume(AND(b2 != 0, ULT(b2, BV(1 << 61)), (b2 & 7) == 0, m2 == BV(1) << nb))
    st.assume(m2 == ITE(nb == bit + 1, mx + mx, z3.LShR(mx, BV(1))))
    for n, x in (("bucket", b2), ("bucket_max", m2), ("bucket_mask", simp(m2 - 1)), ("bucket_bit", simp(z3.Extract(31, 0, nb)))):
        st.objstore(o, ts.fields[n][0], ts.fields[n][1].size, x); st.writes.append((o.kind, o.base, ts.fields[n][0]))
    star = simp(hs & (m2 - 1)); facts = lambda p: [lambda e: e.idx & (m2 - 1) == p]
    A = st.atom("M2", facts(star), filt=list(sw))
    st.assume(ULE(tot, BV(1 << 57)))
    st.add(Slots(st, FlatGeo(b2), lambda p: ULT(p, m2), facts, L, tot, star, [A], "B2"))
    st.add(Block(b2, simp(m2 * 8)))
    return None
def T_resize(k):
    def setup(e, st):
        up = st.decide(st.fresh("up", 1) == 1)
        t = mk_table(e, st, k, sized=False, mx=None if up else lambda st: simp(BV(2) * st.fresh("half")))
        st.assume(ULT(t.total, BV(1 << 49)))
        nb = st.fresh("nb"); t.nb = nb; st.assume(OR(nb == t.bit + 1, nb == t.bit - 1)); st.assume(UGE(nb, BV(4))); st.assume(ULE(nb, BV(52)))
        mx = t.v["bucket_max"]
        st.assume(nb == (t.bit + 1 if up else t.bit - 1))
        nm = simp(mx * 2) if up else simp(z3.LShR(mx, BV(1)))
        if not up: nm2 = mx.arg(1); st.assume(ULT(nm2, BV(1 << 60))); st.lemma(nm == nm2); nm = nm2
        st.lemma((BV(1) << nb) == nm)
        st.ghost["pow"] = ((nb, nm),)
        st.lemma(AND((mx & (mx - 1)) == 0, UGE(mx, BV(16)), ULE(mx, BV(1 << 52))))
        return [ptr(t.base), Val(nb, U64)], t
    def post(st, ret, t):
        v = end_table(st, t, t.word, 0, sized=False)
        st.prove(z3.ZeroExt(32, v["bucket_bit"]) == t.nb, "the requested number of buckets")
    return Task(k.fn("resize"), k.fn("resize"), setup, post, {k.prop, "C06", "C19"}, E, deps={"C20", "C18"}, inline_only={k.fn("resize")}, deadline=380)

def E(u):
    e = Engine(u); e.templates = [RehashLoop, DistributeLoop, WalkLoop]
    f = u.funcs.get("tommy_hashdyn_resize")
    if f is not None and len(f.params) == 2: e.contracts["tommy_hashdyn_resize"] = Contract(resize_apply)
    return e

KT = Kind("hashtable", "tommy_hashtable_struct", "C03"); KD = Kind("hashdyn", "tommy_hashdyn_struct", "C04")
TASKS = [f(k) for k in (KT, KD) for f in (T_init, T_insert, T_remove_existing, T_search, T_remove, T_bucket, T_count, T_usage, T_done)] + [T_resize(KD)]

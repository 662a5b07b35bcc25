"""C05 (and the linear hashtable part of C06, C18, C19, C20): contracts of hashlin"""
from tables import *
from task import Task
from spec_list import lay, ptr, take_node
import spec_hash as H
from spec_hash import psi_of, mk_cmp, matcher, first_match, no_writes, T as Ctx

TAG = "tommy_hashlin_struct"; MB = 6
STABLE, GROW, SHRINK = 0, 1, 2
F = ("bucket_max", "bucket_mask", "low_max", "low_mask", "split", "count", "bucket_bit", "state")

def pos(h, v, split=None):
    l = h & v["low_mask"]
    return ITE(ULT(l, v["split"] if split is None else split), h & v["bucket_mask"], l)
def structure(v):
    """the fields of a well formed table, in any state"""
    mx, lm, sp, s, bit = v["bucket_max"], v["low_max"], v["split"], v["state"], z3.ZeroExt(32, v["bucket_bit"])
    ns = OR(s == GROW, s == SHRINK)
    return [v["bucket_mask"] == mx - 1, mx == BV(1) << bit, UGE(bit, BV(6)), ULE(bit, BV(52)), v["low_mask"] == lm - 1,
            OR(s == STABLE, ns), IMP(s == STABLE, AND(lm == mx, sp == 0)),
            IMP(ns, AND(UGE(bit, BV(7)), mx == lm + lm, ULT(lm, mx), sp != 0, ULT(sp, lm)))]
def sizing(v, count=None):
    """C06: bucket count within a constant factor of the number of elements"""
    mx, lm, sp, s = v["bucket_max"], v["low_max"], v["split"], v["state"]; c = v["count"] if count is None else count
    return [ULE(c, z3.LShR(mx, BV(1)) + 1), IMP(s != STABLE, ULE(c, z3.LShR(mx, BV(1)))),
            IMP(s == STABLE, OR(mx == 64, UGE(c, z3.LShR(mx, BV(3))))),
            IMP(s == GROW, AND(UGE(c, z3.LShR(mx, BV(3))), ULE(c + c, lm + sp))),
            IMP(s == SHRINK, ULE(lm + sp, BV(8) * c))]

def where(st, base, n):
    o = getobj(st, base); off, ft = st.eng.u.structs[TAG].fields[n]
    return o, off, ft.size
def get(st, base, n):
    o, off, z = where(st, base, n); return st.objload(o, off, z)
def put(st, base, n, v):
    o, off, z = where(st, base, n); st.objstore(o, off, z, v)

def mk_lin(eng, st, hs=None, member=False, sized=0, state=None, tight=None):
    """arbitrary well formed table; sized: None, or the difference of the count for which the size bounds hold"""
    t = Ctx(); L = lay(eng); t.L = L; t.hs = st.fresh("hs") if hs is None else hs
    ts = eng.u.structs[TAG]; v = {}
    for n in F: v[n] = st.fresh("t_" + n, 8 * ts.fields[n][1].size)
    pw = []
    if state is not None:
        v["state"] = BV(state, 32)
        if state == STABLE: v["bucket_max"] = v["low_max"]; v["split"] = BV(0)
        else: v["bucket_max"] = simp(v["low_max"] * 2)
    v["bucket_mask"] = simp(v["bucket_max"] - 1); v["low_mask"] = simp(v["low_max"] - 1)
    st.assume(AND(UGE(v["low_max"], BV(64)), ULE(v["low_max"], BV(1 << 52))))
    for f in structure(v): st.assume(f)
    st.assume((v["low_max"] & (v["low_max"] - 1)) == 0)
    st.assume(ULT(v["count"], BV(1 << 49)))
    if sized is not None:
        for f in sizing(v, simp(v["count"] - BV(sized))): st.assume(f)
    t.v = v
    base = st.fresh("table"); t.base = base
    o = Obj(base, ts.size, {}, "obj", TAG); off, ft = ts.fields["bucket"]; o.skip = (off, off + ft.size)
    for n in F: o.fields[ts.fields[n][0]] = (ts.fields[n][1].size, v[n])
    st.add(o)
    fn = z3.Function("segment_%d" % st.n, B64, B64)
    sp = SegPtrs(simp(base + off), 64, fn, MB); sp.extra_uninit = None
    st.add(sp)
    t.lin = z3.BitVec("linear_%d" % st.n, 64)
    t.space = LinSpace(sp.base, MB, t.lin); st.add(t.space)
    bit = simp(z3.ZeroExt(32, v["bucket_bit"]))
    t.bit = bit
    st.add(SegBlocks(t.space, lambda b: OR(b == 0, AND(UGE(b, BV(MB)), ULT(b, bit)))))
    t.geo = FlatGeo(t.lin)
    lm, spl = v["low_max"], v["split"]; dom = lambda p: ULT(p, lm + spl)
    t.facts = lambda p: [lambda e: pos(e.idx, v) == p]
    t.star = simp(pos(t.hs, v)); t.total = v["count"]
    t.S = st.atom("M", t.facts(t.star)); t.word = [t.S]
    sl = Slots(st, t.geo, dom, t.facts, L, t.total, t.star, [t.S], "B"); st.add(sl)
    raw = FlatRaw(t.lin, simp(v["bucket_max"] * 8), lambda p: FALSE); raw.excl = [dom]; raw.name = "rest"; st.add(raw)
    mx = v["bucket_max"]
    if state == STABLE: pw = [(bit, mx), (simp(bit + 1), simp(mx * 2))]
    elif state is not None: pw = [(bit, mx), (simp(bit - 1), lm)]
    for x, y in pw: st.lemma(IMP(ULE(bit, BV(51)), (BV(1) << x) == y))
    st.ghost["pow"] = tuple(pw)
    if member:
        xi = st.fresh("xidx"); p = simp(pos(xi, v))
        n = st.fresh("node"); l1 = st.fresh("p"); n2 = st.fresh("n"); tl = st.fresh("tl")
        star = st.decide(p == t.star)
        a = st.atom("A", t.facts(p)); b = st.atom("Z", t.facts(p))
        o = st.mknode(n, n2, l1, L, idx=xi); h = st.fresh("H")
        sl.holes.append(p)
        rest = st.fresh("rest"); st.assume(rest + st.atoms[a].len + st.atoms[b].len + 1 == t.total)
        for x in (rest, st.atoms[a].len, st.atoms[b].len): st.assume(ULT(x, t.total))
        sl.total = rest
        st.add(Obj(simp(t.geo.slotaddr(st, p)), 8, {0: (8, h)}, "cell"))
        st.add(o); st.add(Seg(a, h, tl, l1, n, L)); st.add(Seg(b, n2, n, tl, BV(0), L))
        t.x = Elem(n, o.fields[L.data][1], xi); t.wordless = t.word
        if star: t.word = [a, t.x, b]; t.wordless = [a, b]
    return t

def lin_of(st):
    t = st.ghost["ctx"]
    v = lambda s: {n: get(s, t.base, n) for n in F}
    def facts(s, sp):
        w = v(s)
        return lambda p: [lambda e: pos(e.idx, w, sp) == p]
    return dict(get=lambda s, n: get(s, t.base, n), set=lambda s, n, x: put(s, t.base, n, x), where=lambda s, n: where(s, t.base, n),
                geo=t.geo, lay=t.L, hs=t.hs, psi=psi_of(t.hs), facts=facts, pos=lambda s, h, sp: pos(h, v(s), sp))

def fold_lin(st, t, label, v):
    for f in structure(v): st.prove(f, label + ": fields")
    lm, spl, mx = v["low_max"], v["split"], v["bucket_max"]
    facts = lambda p: [lambda e: pos(e.idx, v) == p]
    sw, tot = fold_slots(st, t.geo, lambda p: ULT(p, lm + spl), facts, simp(pos(t.hs, v)), t.L, label)
    fold_raw(st, t.geo, lambda p: AND(UGE(p, lm + spl), ULT(p, mx)), label + ": rest of the last segment")
    for c in [c for c in st.heap if isinstance(c, Slots)]:
        if not c.close(st): st.fail(label + ": buckets outside the table hold elements")
        st.remove(c)
    bit = simp(z3.ZeroExt(32, v["bucket_bit"]))
    end_segments(st, t.space, lambda b: OR(b == 0, AND(UGE(b, BV(MB)), ULT(b, bit))), label)
    for c in list(st.heap):
        if isinstance(c, FlatRaw) or isinstance(c, Obj) and c.kind == "cell": st.remove(c)
    return sw, tot
def end_lin(st, t, want, dcount, label="table", sized=True):
    v = {n: get(st, t.base, n) for n in F}
    if sized:
        for f in sizing(v): st.prove(f, label + ": buckets in proportion to elements")
    sw, tot = fold_lin(st, t, label, v)
    prove_filt(st, sw, want, psi_of(t.hs), label + ": members with a given hash, in order")
    st.prove(v["count"] == t.total + BV(dcount), label + ": count changes exactly as documented")
    st.prove(tot == v["count"], label + ": count equals the number of stored elements")
    for n in nodes_left(st): st.fail(label + ": no node is lost or duplicated", repr(n))

def step_apply(delta):
    def apply(eng, st, a):
        t = st.ghost["ctx"]
        if not (a[0].v.eq(t.base) or st.holds(a[0].v == t.base)): raise Unsupported("resize of an unknown table")
        v = {n: get(st, t.base, n) for n in F}
        for f in sizing(v, simp(v["count"] - BV(delta))): st.prove(f, "precondition of the resize step: sizes")
        sw, tot = fold_lin(st, t, "precondition of the resize step", v)
        w = dict(v)
        for n in F:
            if n != "count": w[n] = st.fresh("r_" + n, v[n].size()); put(st, t.base, n, w[n])
        st.writes.append(("obj", t.base, 0))
        for f in structure(w) + sizing(w): st.assume(f)
        sp = t.space.sp(st); st.remove(sp)
        sp2 = SegPtrs(sp.base, 64, z3.Function("segment_%d" % st.n, B64, B64), MB); st.add(sp2)
        bit = simp(z3.ZeroExt(32, w["bucket_bit"]))
        st.add(SegBlocks(t.space, lambda b: OR(b == 0, AND(UGE(b, BV(MB)), ULT(b, bit)))))
        lm, spl = w["low_max"], w["split"]; dom = lambda p: ULT(p, lm + spl)
        star = simp(pos(t.hs, w)); facts = lambda p: [lambda e: pos(e.idx, w) == p]
        A = st.atom("M2", facts(star), filt=list(sw))
        st.add(Slots(st, t.geo, dom, facts, t.L, tot, star, [A], "B2"))
        raw = FlatRaw(t.lin, simp(w["bucket_max"] * 8), lambda p: FALSE); raw.excl = [dom]; raw.name = st.freshname("rest"); st.add(raw)
        return None
    return apply
PROPS = {"C05", "C20", "C06", "C19"}
def T_step(name, delta, state):
    fn = "hashlin_%s_step" % name
    def setup(e, st):
        t = mk_lin(e, st, sized=delta, state=state)
        return [ptr(t.base)], t
    def post(st, ret, t): end_lin(st, t, t.word, 0)
    return Task("%s [%s]" % (fn, ("stable", "growing", "shrinking")[state]), fn, setup, post, {"C05", "C06", "C19"}, E, deps={"C20", "C18"}, inline_only={fn}, deadline=380)
def T_insert():
    def setup(e, st):
        t = mk_lin(e, st); st.assume(ULT(t.total, BV((1 << 49) - 2)))
        n, o = mk_node(st, "node", t.L); t.n = n; t.d = st.fresh("data"); t.h = st.fresh("hash")
        return [ptr(t.base), ptr(n), ptr(t.d), Val(t.h, U64)], t
    def post(st, ret, t):
        x = Elem(t.n, t.d, t.h)
        end_lin(st, t, t.word + ([x] if st.decide(t.h == t.hs) else []), 1)
    return Task("tommy_hashlin_insert", "tommy_hashlin_insert", setup, post, PROPS, E, deps={"C18"}, deadline=300)
def T_remove_existing():
    def setup(e, st):
        t = mk_lin(e, st, member=True); return [ptr(t.base), ptr(t.x.addr)], t
    def post(st, ret, t):
        st.prove(ret.v == t.x.data, "returns the object of the removed member")
        take_node(st, t.x.addr, t.x.data, t.x.idx, "removed node")
        end_lin(st, t, t.wordless, -1)
    return Task("tommy_hashlin_remove_existing", "tommy_hashlin_remove_existing", setup, post, PROPS, E, deps={"C18"}, deadline=300)
def search_setup(e, st):
    hash_ = st.fresh("hash")
    t = mk_lin(e, st, hs=hash_)
    f, arg = mk_cmp(e, st); t.m = matcher(hash_, arg); t.h = hash_
    e.walk_preds = [lambda x: NOT(t.m(x))]
    return [ptr(t.base), ptr(f), ptr(arg), Val(hash_, U64)], t
def T_search():
    def post(st, ret, t):
        w, i = first_match(st, t.word, t.m)
        if i is None: st.prove(ret.v == 0, "nothing is found only if nothing matches")
        else: st.prove(ret.v == w[i].data, "the earliest matching object is found")
        no_writes(st)
    return Task("tommy_hashlin_search", "tommy_hashlin_search", search_setup, post, {"C05"}, E)
def T_remove():
    def post(st, ret, t):
        w, i = first_match(st, t.word, t.m)
        if i is None:
            st.prove(ret.v == 0, "nothing is removed only if nothing matches")
            end_lin(st, t, t.word, 0)
        else:
            st.prove(ret.v == w[i].data, "the earliest matching object is removed and returned")
            take_node(st, w[i].addr, w[i].data, w[i].idx, "removed node")
            end_lin(st, t, w[:i] + w[i + 1:], -1)
    return Task("tommy_hashlin_remove", "tommy_hashlin_remove", search_setup, post, PROPS, E, deps={"C18"}, deadline=300)
def T_bucket():
    def setup(e, st):
        hash_ = st.fresh("hash"); t = mk_lin(e, st, hs=hash_); return [ptr(t.base), Val(hash_, U64)], t
    def post(st, ret, t):
        no_writes(st)
        prove_filt(st, fold_list(st, ret.v, t.L, "bucket"), t.word, psi_of(t.hs), "the bucket walks every member with the hash, in order")
    return Task("tommy_hashlin_bucket", "tommy_hashlin_bucket", setup, post, {"C05"}, E)
def simple(e, st):
    t = mk_lin(e, st); return [ptr(t.base)], t
def T_count():
    def post(st, ret, t): st.prove(ret.v == t.total, "count equals the number of stored elements"); no_writes(st)
    return Task("tommy_hashlin_count", "tommy_hashlin_count", simple, post, {"C20"}, E)
def T_usage():
    def post(st, ret, t):
        st.prove(ret.v == BV(8) * t.v["bucket_max"] + t.total * BV(t.L.size), "memory usage equals the bytes held"); no_writes(st)
    return Task("tommy_hashlin_memory_usage", "tommy_hashlin_memory_usage", simple, post, {"C20"}, E)
def T_done():
    def post(st, ret, t):
        for c in st.heap:
            if isinstance(c, Block): st.fail("done releases every segment", repr(c))
            if isinstance(c, SegBlocks):
                u = st.copy(); u.prove(NOT(c.inside(z3.BitVec("b@", 64))), "done releases every segment")
    return Task("tommy_hashlin_done", "tommy_hashlin_done", simple, post, {"C19"}, E, done=True, consume=True)
def T_init():
    def setup(e, st):
        t = Ctx(); t.L = lay(e); t.hs = st.fresh("hs")
        ts = e.u.structs[TAG]; base = st.fresh("table"); t.base = base
        o = Obj(base, ts.size, {}, "obj", TAG); off, ft = ts.fields["bucket"]; o.skip = (off, off + ft.size)
        for n in F: o.fields[ts.fields[n][0]] = (ts.fields[n][1].size, None)
        st.add(o)
        sp = SegPtrs(simp(base + off), 64, z3.Function("garbage_%d" % st.n, B64, B64), 0); st.add(sp)
        t.lin = z3.BitVec("linear_%d" % st.n, 64); t.space = LinSpace(sp.base, MB, t.lin); st.add(t.space); t.geo = FlatGeo(t.lin)
        return [ptr(base)], t
    def post(st, ret, t):
        v = {n: get(st, t.base, n) for n in F}
        st.prove(v["count"] == 0, "empty after init"); st.prove(v["bucket_max"] == 64, "fixed initial size")
        for f in sizing(v): st.prove(f, "init: sizes")
        sw, tot = fold_lin(st, t, "init", v)
        prove_filt(st, sw, [], psi_of(t.hs), "empty after init"); st.prove(tot == 0, "empty after init")
    return Task("tommy_hashlin_init", "tommy_hashlin_init", setup, post, PROPS, E)

def E(u):
    e = Engine(u); e.templates = [DistributeLoop, WalkLoop, LinLoop, RangeLoop]
    e.lin = lin_of; e.psi = lambda st: psi_of(st.ghost["ctx"].hs)
    for n, d in (("grow", 1), ("shrink", -1)):
        f = u.funcs.get("hashlin_%s_step" % n)
        if f is not None and len(f.params) == 1: e.contracts["hashlin_%s_step" % n] = Contract(step_apply(d))
    return e
TASKS = [T_init(), T_insert(), T_remove_existing(), T_remove(), T_search(), T_bucket(), T_count(), T_usage(), T_done(), ] + [T_step(n, d, s) for s in (STABLE, GROW, SHRINK) for n, d in (("grow", 1), ("shrink", -1))]

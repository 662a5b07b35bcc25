"""C02: contracts of the merge sort of lists"""
from tables import *
from task import Task
from spec_list import lay, ptr, cell, cellval, no_more_nodes
from spec_hash import T as Ctx

KEY = z3.Function("key", B64, z3.IntSort())          # the total preorder given by the comparison
K = z3.Int("K@")                                      # an arbitrary key: members with it keep their order
def psi(e): return KEY(e.data) == K
def le(k): return lambda e: KEY(e.data) <= k
def lt(k): return lambda e: KEY(e.data) < k
def ge(k): return lambda e: KEY(e.data) >= k

# ------------------------------------------------------------------------- sorted words
def mark(st, nm, facts=()):
    a = st.atoms[nm].copy(); a.attr["sorted"] = True; a.facts = a.facts + tuple(facts); st.atoms[nm] = a; return nm
def is_sorted(st, nm): return bool(st.atoms[nm].attr.get("sorted"))
def hook(st, atom, items):
    if not is_sorted(st, atom): return
    for i, it in enumerate(items):
        if isinstance(it, Elem): continue
        f = []
        if i and isinstance(items[i - 1], Elem): f.append(ge(KEY(items[i - 1].data)))
        if i + 1 < len(items) and isinstance(items[i + 1], Elem): f.append(le(KEY(items[i + 1].data)))
        mark(st, it, f)
def prove_sorted(st, word, label):
    w = st.contract(word)
    if len(w) == 1 and not isinstance(w[0], Elem) and is_sorted(st, w[0]): STATS.obl += 1; STATS.discharged += 1; st.eng.count(st.eng.label(st, label)); return
    w = norm(st, word)
    for it in w:
        if not isinstance(it, Elem) and not is_sorted(st, it): st.fail(label, "order inside %s" % it)
    for x, y in zip(w, w[1:]):
        t = st.copy(); es = []
        for n, it in (("x", x), ("y", y)):
            if isinstance(it, Elem): es.append(it); continue
            e = skolem_elem(t, n)
            for f in t.atoms[it].facts: t.assume(f(e))
            es.append(e)
        t.prove(KEY(es[0].data) <= KEY(es[1].data), label)
    STATS.obl += 1; STATS.discharged += 1; st.eng.count(st.eng.label(st, label))
def pivots(st):
    for k in st.ghost.get("pivots", ())[-3:]: st.decide(K >= k)
def prove_stable(st, got, want, label):
    pivots(st); prove_filt(st, got, want, psi, label)
def mk_cmp(st):
    f = st.fresh("cmp")
    def h(s, a):
        c = s.fresh("order", 32); x, y = KEY(a[0].v), KEY(a[1].v)
        s.assume(AND((c < 0) == (x < y), (c == 0) == (x == y)))
        s.ghost["pivots"] = s.ghost.get("pivots", ()) + tuple(k for k in (x, y) if not any(k.eq(p) for p in s.ghost.get("pivots", ())))
        return Val(c, I32)
    st.fptr = dict(st.fptr); st.fptr[f.get_id()] = (h, f); return f

# ------------------------------------------------------------------------- chains
def fold_span(st, head, tail, label="chain", prev0=None):
    """the nodes from head to tail, consumed; the outer links of a chain are undefined"""
    L = lay(st.eng); cur = head; word = []; prev = prev0
    if cur is None or tail is None: st.fail(label + ": head and tail are set")
    for _ in range(60):
        hit = None
        for c in st.heap:
            if isinstance(c, Obj) and c.kind == "node" and c.base.eq(cur): hit = c; break
            if isinstance(c, Seg) and c.f.eq(cur): hit = c; break
        if hit is None:
            for c in st.heap:
                if isinstance(c, Obj) and c.kind == "node" and st.decide(c.base == cur): hit = c; break
                if isinstance(c, Seg):
                    if st.decide(st.empty(c.atom)): continue
                    if st.decide(c.f == cur): hit = c; break
        if hit is None: st.fail(label + ": link to a node that is not a member", str(simp(cur)))
        if isinstance(hit, Seg) and st.decide(st.empty(hit.atom)): st.remove(hit); cur = hit.nl; continue
        st.remove(hit)
        if isinstance(hit, Obj):
            if prev is not None: st.prove(st.objload(hit, L.prev, 8) == prev, label + ": backward link")
            word.append(Elem(hit.base, st.objload(hit, L.data, 8), st.objload(hit, L.index, 8)))
            if hit.base.eq(tail) or st.decide(hit.base == tail): return word
            prev = hit.base; cur = st.objload(hit, L.next, 8)
        else:
            if prev is not None: st.prove(hit.pf == prev, label + ": backward link")
            word.append(hit.atom)
            if hit.l.eq(tail) or st.decide(hit.l == tail): return word
            prev = hit.l; cur = hit.nl
    st.fail(label + ": does not end at its tail")
def mk_chain(st, atom):
    h = st.fresh("head"); t = st.fresh("tail")
    st.add(Seg(atom, h, st.fresh("junk"), t, st.fresh("junk"), lay(st.eng))); st.assume(NOT(st.empty(atom)))
    return h, t
def chain_struct(st, name, w):
    h, t = mk_chain(st, w); b = st.fresh(name); st.add(Obj(b, 16, {0: (8, h), 8: (8, t)}, "obj", "tommy_chain_struct")); return b
def chain_at(st, addr, label):
    return fold_span(st, st.load(addr, 8), st.load(simp(addr + 8), 8), label)
def suffix(st, whole, part, label):
    """whole = X part: returns X"""
    w = norm(st, whole); p = norm(st, part); n = len(w) - len(p)
    if n < 0 or not all(same_item(a, b) for a, b in zip(w[n:], p)): st.fail(label, "%s is not the end of %s" % (p, w))
    return w[:n]

# ------------------------------------------------------------------------- the array of chains
def divk(d, k):
    """d / k for a term d that is a multiple of k, structurally; or None"""
    d = z3.simplify(d, som=True)
    if z3.is_bv_value(d): return BV(d.as_signed_long() // k) if d.as_signed_long() % k == 0 else None
    if z3.is_app_of(d, z3.Z3_OP_BADD):
        ps = [divk(c, k) for c in d.children()]
        if any(p is None for p in ps): return None
        r = ps[0]
        for x in ps[1:]: r = r + x
        return simp(r)
    if z3.is_app_of(d, z3.Z3_OP_BMUL) and z3.is_bv_value(d.arg(0)) and d.arg(0).as_signed_long() % k == 0:
        r = d.arg(1)
        for x in d.children()[2:]: r = r * x
        return simp(BV(d.arg(0).as_signed_long() // k) * r)
    if z3.is_app_of(d, z3.Z3_OP_CONCAT):
        ch = d.children(); b = k.bit_length() - 1
        if z3.is_bv_value(ch[-1]) and ch[-1].as_long() == 0 and ch[-1].size() >= b: return simp(z3.LShR(d, BV(b)))
    return None
def bit(c, p): return z3.LShR(c, p) & 1 == 1
class Bits(Chunk):
    """array of n chains: those at positions lo <= p < n-1 whose bit of cnt is set hold sorted chains, in all the word H from
    high to low; the rest is undefined memory.  holes: positions held as explicit memory"""
    def __init__(s, base, n, lo, cnt, H): s.base = base; s.n = n; s.lo = lo; s.cnt = cnt; s.H = H; s.holes = []
    def copy(s):
        c = Chunk.copy(s); c.holes = list(s.holes); return c
    def rootterm(s): return s.base
    def fact(s, st): st.assume((z3.LShR(s.cnt, s.lo) == 0) == st.empty(s.H))
    def candidates(s, st, addr, size):
        if not occurs(addr, s.base) or size != 8: return []
        d = simp(addr - s.base); b, c = splitc(d); c = c % 16
        if c not in (0, 8): return []
        p = divk(simp(d - c), 16)
        if p is None: p = simp(z3.LShR(d, BV(4)))
        return [(AND(d == BV(16) * p + c, ULT(p, BV(s.n)), *[p != h for h in s.holes]), ("bits", s, p))]
    def unfold(s, st, act):
        p = act[2]
        for c in st.heap:
            if isinstance(c, Bits) and c.base.eq(s.base): s = c
        a = simp(s.base + BV(16) * p); v = {0: (8, None), 8: (8, None)}
        if not st.decide(OR(ULT(p, s.lo), p == BV(s.n - 1))):
            if not st.holds(p == s.lo):
                if not st.holds(z3.LShR(s.cnt, s.lo) & ((BV(1) << (p - s.lo)) - 1) == 0): raise Unsupported("access to a bucket out of turn")
            if st.decide(bit(s.cnt, p)):
                h2 = st.atom("H"); b = mark(st, st.atom("B")); st.setexp(s.H, (h2, b)); st.assume(st.atoms[s.H].len == st.atoms[h2].len + st.atoms[b].len)
                s.H = h2; hd, tl = mk_chain(st, b); v = {0: (8, hd), 8: (8, tl)}
            s.lo = simp(p + 1); s.fact(st)
        s.holes.append(p); st.add(Obj(a, 16, v, "chaincell"))
    def __repr__(s): return "Bits(lo=%s cnt=%s H=%s holes=%s)" % (s.lo, s.cnt, s.H, s.holes)
def bits_of(st):
    for c in st.heap:
        if isinstance(c, Bits): return c
    return None
def ccells(st): return [c for c in st.heap if isinstance(c, Obj) and c.kind == "chaincell"]
def drop_cells(st, b):
    for c in ccells(st): st.remove(c)
    b.holes = []
def cellpos(st, b, c):
    p = divk(simp(c.base - b.base), 16); return p if p is not None else simp(z3.LShR(c.base - b.base, BV(4)))
def fold_bits(st, cnt, label):
    """all the chains of the array, which are those of the bits set in cnt"""
    b = bits_of(st); alive = []; m = BV(0)
    for c in ccells(st):
        q = cellpos(st, b, c)
        if c.fields.get(0, (0, None))[1] is None or c.fields.get(8, (0, None))[1] is None: continue
        if not st.decide(AND(ULT(q, b.lo), bit(cnt, q))): continue
        i = 0
        while i < len(alive) and st.decide(ULT(q, alive[i][0])): i += 1
        alive.insert(i, (q, c)); m = m | (BV(1) << q)
    st.prove(z3.LShR(cnt, b.lo) == z3.LShR(b.cnt, b.lo), label + ": the counter tells the buckets in use")
    st.prove(cnt & ((BV(1) << b.lo) - 1) == m, label + ": the counter tells the buckets in use")
    word = [b.H]
    for q, c in alive:
        w = fold_span(st, st.objload(c, 0, 8), st.objload(c, 8, 8), label + ": bucket"); prove_sorted(st, w, label + ": bucket is sorted"); word += w
    drop_cells(st, b); st.remove(b)
    return word

# ------------------------------------------------------------------------- loops
class MergeLoop(LoopBase):
    """two sorted chains: merged front P, then the rest F of the first; the rest S of the second"""
    @classmethod
    def matches(cls, eng, st, fr, lp):
        hits = []
        for v, t in ptr_locals(fr, lp):
            x = locv(fr, v)
            for c in st.heap:
                if isinstance(c, Seg) and c.f.eq(x) and is_sorted(st, c.atom): hits.append((v, c))
        for u, a in hits:
            for v, b in hits:
                if u != v and a is not b:
                    i = cls(); i.u, i.A, i.v, i.B = u, a, v, b; i.lp = lp; i.depth = len(st.frames); yield i
    def carriers(s, st, fr):
        out = []
        for c in st.heap:
            if isinstance(c, Obj) and c.kind in ("obj", "chaincell", "stack", "cell"):
                for off, (sz, x) in c.fields.items():
                    if sz == 8 and x is not None: out.append(("field %s+%d" % (c.base, off), x))
        for v, t in ptr_locals(fr, s.lp):
            if v not in (s.u, s.v): out.append((v, locv(fr, v)))
        return out
    def enter(s, eng, st):
        fr = st.frames[-1]; L = lay(eng); A = [c for c in st.heap if isinstance(c, Seg) and c.atom == s.A.atom][0]; B = [c for c in st.heap if isinstance(c, Seg) and c.atom == s.B.atom][0]
        keep = s.houdini_enter(eng, st, [("%s is the head" % n, x == A.f) for n, x in s.carriers(st, fr) if x is not None])
        s.havoc_locals(st, fr, s.lp)
        st.remove(A); st.remove(B); fa, fb = st.atoms[A.atom].facts, st.atoms[B.atom].facts
        s.A, s.B = A, B
        fi = st.fresh("fi"); si = st.fresh("si"); h = st.fresh("h"); lp = st.fresh("last"); s.h = h
        F = mark(st, st.atom("F", fa)); S = mark(st, st.atom("S", fb)); s.F, s.S = F, S
        st.assume(AND(NOT(st.empty(F)), NOT(st.empty(S))))
        P = mark(st, st.atom("P"))
        st.add(Seg(P, h, st.fresh("junk"), lp, fi, L)); gf = st.add(Seg(F, fi, lp, A.l, A.nl, L)); gs = st.add(Seg(S, si, st.fresh("junk"), B.l, B.nl, L))
        fr.env[s.u] = Val(fi, fr.func.locals[s.u]); fr.env[s.v] = Val(si, fr.func.locals[s.v])
        o1, _ = st.unfold_front(gf); o2, _ = st.unfold_front(gs)
        k1 = KEY(st.objload(o1, L.data, 8)); k2 = KEY(st.objload(o2, L.data, 8))
        P1 = st.atom("P1", fa + (le(k1), le(k2))); P2 = st.atom("P2", fb + (lt(k1), le(k2))); mark(st, P1); mark(st, P2); s.P1, s.P2, s.P = P1, P2, P
        p = st.atoms[P].copy(); p.facts = (le(k1), le(k2)); p.filt = [P1, P2]; st.atoms[P] = p
        ln = lambda x: st.atoms[x].len
        st.assume(AND(ln(P) == ln(P1) + ln(P2), ln(A.atom) == ln(P1) + ln(F), ln(B.atom) == ln(P2) + ln(S)))
        st.setexp(A.atom, (P1, F)); st.setexp(B.atom, (P2, S))
        st.ghost["pivots"] = (k1,)
        s.frame_start(eng, st, [c for c in st.heap if isinstance(c, Seg) and c.atom in (P, F, S) or isinstance(c, Obj) and c.kind == "node" and (c.base.eq(fi) or c.base.eq(si)) or isinstance(c, Seg) and c.pf.eq(fi) or isinstance(c, Seg) and c.pf.eq(si)])
        now = dict(("%s is the head" % n, x == h) for n, x in s.carriers(st, fr) if x is not None)
        for n in keep:
            if n in now: st.assume(now[n])
    def check(s, eng, st):
        fr = st.frames[-1]; L = lay(eng); u = locv(fr, s.u); v = locv(fr, s.v); lb = "loop invariant: "
        if u is None or v is None: st.fail(lb + "positions")
        k1 = KEY(st.load(simp(u + L.data), 8)); k2 = KEY(st.load(simp(v + L.data), 8))
        car = [(n, x) for n, x in s.carriers(st, fr) if x is not None]; kept = eng.houdini[s.hkey]
        head = [x for n, x in car if "%s is the head" % n in kept]
        if not head: st.fail(lb + "the head of the merged chain is recorded")
        hv = head[-1]
        for x in head:
            if not x.eq(s.h): hv = x
        wP, _, last = fold_seg(st, hv, None, u, L, lb + "merged part")
        wF = fold_span(st, u, s.A.l, lb + "rest of the first chain", last if wP else None); wS = fold_span(st, v, s.B.l, lb + "rest of the second chain")
        X = suffix(st, [s.F], wF, lb + "rest of the first chain"); Y = suffix(st, [s.S], wS, lb + "rest of the second chain")
        if not X and not Y: st.fail("loop makes progress (termination)")
        prove_sorted(st, wP, lb + "merged part is sorted")
        for w, f in ((wP, (le(k1), le(k2))), ([s.P1] + X, (le(k1), le(k2))), ([s.P2] + Y, (lt(k1), le(k2)))):
            for g in f: prove_all(st, w, g, lb + "merged part comes before the rest")
        prove_stable(st, wP, [s.P1] + X + [s.P2] + Y, lb + "merged part holds the members passed, equal ones in order")
        cs = [("%s is the head" % n, x == hv) for n, x in car]
        s.frame_check(eng, st)
        for n in nodes_left(st):
            if not any(isinstance(c, Seg) and isinstance(n, Seg) and c.atom == n.atom or isinstance(c, Obj) and isinstance(n, Obj) and c.base.eq(n.base) for c, _ in s.frame): st.fail(lb + "no node is lost", repr(n))
        s.houdini_check(eng, st, cs)

class SortLoop(LoopBase):
    """nodes are taken from the list one by one; those taken are in the array of chains, as many as the counter tells"""
    @classmethod
    def matches(cls, eng, st, fr, lp):
        if bits_of(st) is not None: return
        arr = [c for c in st.heap if isinstance(c, Obj) and c.kind == "stack" and c.array and c.size % 16 == 0 and c.size >= 32 and not any(v is not None for _, v in c.fields.values())]
        for o in arr:
            for v, t in ptr_locals(fr, lp):
                for c in st.heap:
                    if isinstance(c, Seg) and c.f.eq(locv(fr, v)):
                        for n, ty in int_locals(fr, lp):
                            x = locv(fr, n)
                            if x is not None and num(x) == 0:
                                i = cls(); i.arr, i.var, i.seg, i.cnt = o, v, c, n; i.lp = lp; i.depth = len(st.frames); yield i
    def enter(s, eng, st):
        fr = st.frames[-1]; L = lay(eng); g = [c for c in st.heap if isinstance(c, Seg) and c.atom == s.seg.atom][0]; s.g = g
        o = getobj(st, s.arr.base); st.remove(o); st.remove(g); s.havoc_locals(st, fr, s.lp)
        D = st.atom("D"); R = st.atom("R"); s.D, s.R = D, R; st.setexp(g.atom, (D, R)); ln = lambda x: st.atoms[x].len
        st.assume(AND(ln(g.atom) == ln(D) + ln(R), NOT(st.empty(R))))
        nd = st.fresh("node"); fr.env[s.var] = Val(nd, fr.func.locals[s.var])
        r = st.add(Seg(R, nd, st.fresh("junk"), g.l, g.nl, L))
        c = st.fresh("counter"); st.assume(c == ln(D)); fr.env[s.cnt] = Val(c, fr.func.locals[s.cnt])
        H = st.atom("H", filt=[D]); st.assume(ln(H) == ln(D))
        b = Bits(o.base, o.size // 16, BV(0), c, H); st.add(b); b.fact(st)
        s.frame_start(eng, st, [r, b])
    def check(s, eng, st):
        fr = st.frames[-1]; nd = locv(fr, s.var); c = locv(fr, s.cnt); lb = "loop invariant: "
        if nd is None or c is None: st.fail(lb + "position")
        wR = fold_span(st, nd, s.g.l, lb + "rest of the list"); X = suffix(st, [s.R], wR, lb + "rest of the list")
        if not X: st.fail("loop makes progress (termination)")
        st.prove(c == st.length([s.D] + X), lb + "the counter counts the nodes taken")
        w = fold_bits(st, c, lb + "buckets")
        prove_stable(st, w, [s.D] + X, lb + "buckets hold the nodes taken, equal ones in order")
        s.frame_check(eng, st)
        for n in nodes_left(st): st.fail(lb + "no node is lost", repr(n))

class AccLoop(LoopBase):
    """chains of ascending positions of the array are merged into one, held at position i or where a pointer tells"""
    @classmethod
    def matches(cls, eng, st, fr, lp):
        b = bits_of(st)
        if b is None: return
        for i, t in int_locals(fr, lp):
            x = locv(fr, i)
            if x is None or x.size() != 64: continue
            for p, t in ptr_locals(fr, lp):
                y = locv(fr, p)
                if y is not None and occurs(y, b.base) and x.eq(b.lo): z = cls(); z.i, z.p = i, p; z.lp = lp; z.depth = len(st.frames); yield z
        for i, t in int_locals(fr, lp):
            x = locv(fr, i)
            if x is None or x.size() != 64 or num(b.lo) is not None: continue
            z = cls(); z.i, z.p = i, None; z.lp = lp; z.depth = len(st.frames); yield z
    def cands(s, st, fr, b):
        out = [("positions below are used", b.cnt & ((BV(1) << b.lo) - 1) == (BV(1) << b.lo) - 1), ("position in the array", ULT(b.lo, BV(b.n)))]
        for v, t in int_locals(fr, s.lp):
            x = locv(fr, v)
            if x is None or v == s.i or x.size() != 64: continue
            out += [("%s is the rest of the counter" % v, x == z3.LShR(b.cnt, b.lo)), ("%s is the rest of the counter and one bit" % v, z3.LShR(x, BV(1)) == z3.LShR(b.cnt, b.lo)), ("%s not zero" % v, x != 0)]
        return out
    def enter(s, eng, st):
        fr = st.frames[-1]; b = bits_of(st); L = lay(eng); i = locv(fr, s.i); lb = "loop: "
        st.prove(b.lo == (i if s.p else i + 1), lb + "position of the first bucket not looked at")
        at = locv(fr, s.p) if s.p else simp(b.base + BV(16) * i)
        L0 = chain_at(st, at, lb + "chain merged so far"); prove_sorted(st, L0, lb + "chain merged so far is sorted"); s.L0 = L0
        drop_cells(st, b)
        keep = s.houdini_enter(eng, st, s.cands(st, fr, b))
        s.havoc_locals(st, fr, s.lp)
        k = st.fresh("i"); fr.env[s.i] = Val(k, fr.func.locals[s.i]); s.k = k; st.assume(ULE(i, k)); st.assume(ULT(k, BV(b.n - 1)))
        s.H = b.H; H2 = st.atom("H"); G = st.atom("G"); A = mark(st, st.atom("C", filt=[G] + list(L0))); ln = lambda x: st.atoms[x].len
        st.setexp(b.H, (H2, G)); st.assume(AND(ln(b.H) == ln(H2) + ln(G), ln(A) == ln(G) + st.length(L0))); s.G = G
        b.H = H2; b.lo = k if s.p else simp(k + 1); b.fact(st)
        if s.p:
            j = st.fresh("j"); st.assume(OR(j == BV(b.n - 1), ULT(j, k))); fr.env[s.p] = Val(simp(b.base + BV(16) * j), fr.func.locals[s.p])
        else: j = k
        b.holes = [j]; h, t = mk_chain(st, A)
        st.add(Obj(simp(b.base + BV(16) * j), 16, {0: (8, h), 8: (8, t)}, "chaincell"))
        now = dict(s.cands(st, fr, b))
        for n in keep: st.assume(now[n])
        s.frame_start(eng, st, [c for c in st.heap if isinstance(c, Bits) or isinstance(c, Obj) and c.kind == "chaincell" or isinstance(c, Seg) and c.atom == A])
    def check(s, eng, st):
        fr = st.frames[-1]; b = bits_of(st); i = locv(fr, s.i); lb = "loop invariant: "
        st.prove(b.lo == (i if s.p else i + 1), lb + "position of the first bucket not looked at")
        st.prove(AND(UGT(i, s.k), ULT(i, BV(b.n - 1))), "loop makes progress (termination)")
        if s.p:
            at = locv(fr, s.p); d = simp(at - b.base); j = divk(d, 16)
            if j is None: st.fail(lb + "the chain merged so far is in the array")
            st.prove(OR(j == BV(b.n - 1), ULT(j, i)), lb + "the chain merged so far is not in the rest of the array")
        else: at = simp(b.base + BV(16) * i)
        w = chain_at(st, at, lb + "chain merged so far"); prove_sorted(st, w, lb + "chain merged so far is sorted")
        e = st.expand([s.H]); h = st.expand([b.H])
        if not all(same_item(x, y) for x, y in zip(e, h)): st.fail(lb + "buckets not looked at")
        prove_stable(st, w, e[len(h):] + s.L0, lb + "chain merged so far holds the members of the buckets passed, equal ones in order")
        drop_cells(st, b); cs = s.cands(st, fr, b)
        st.heap.remove(b); s.frame_check(eng, st)
        for n in nodes_left(st):
            if not any(isinstance(c, Seg) and isinstance(n, Seg) and c.atom == n.atom or isinstance(c, Obj) and isinstance(n, Obj) and c.base.eq(n.base) for c, _ in s.frame): st.fail(lb + "no node is lost", repr(n))
        s.houdini_check(eng, st, cs)

# ------------------------------------------------------------------------- contracts
def merge_apply(eng, st, a):
    f, s_, cmp = a[0].v, a[1].v, a[2].v
    st.prove(cmp == st.ghost["ctx"].cmp, "the given comparison is used")
    w1 = chain_at(st, f, "precondition of merge: first chain"); w2 = chain_at(st, s_, "precondition of merge: second chain")
    prove_sorted(st, w1, "precondition of merge: first chain is sorted"); prove_sorted(st, w2, "precondition of merge: second chain is sorted")
    M = mark(st, st.atom("M", filt=w1 + w2)); st.assume(st.atoms[M].len == st.length(w1 + w2))
    h, t = mk_chain(st, M); st.store(f, 8, h); st.store(simp(f + 8), 8, t)
    return None
def sort_apply(eng, st, a):
    c, cmp = a[0].v, a[1].v
    st.prove(cmp == st.ghost["ctx"].cmp, "the given comparison is used")
    w = chain_at(st, c, "precondition of sort: chain")
    M = mark(st, st.atom("M", filt=w)); st.assume(st.atoms[M].len == st.length(w))
    h, t = mk_chain(st, M); st.store(c, 8, h); st.store(simp(c + 8), 8, t)
    return None
def E(u):
    e = Engine(u); e.templates = [MergeLoop, SortLoop, AccLoop]; e.split_hooks = [hook]; e.psi = lambda st: psi
    for n, f, k in (("tommy_chain_merge", merge_apply, 3), ("tommy_chain_merge_degenerated", merge_apply, 3), ("tommy_chain_mergesort", sort_apply, 2)):
        fn = u.funcs.get(n)
        if fn is not None and len(fn.params) == k: e.contracts[n] = Contract(f)
    return e
def T_merge(fn):
    def setup(e, st):
        t = Ctx(); t.w1 = mark(st, st.atom("W1")); t.w2 = mark(st, st.atom("W2")); t.f = chain_struct(st, "first", t.w1); t.s = chain_struct(st, "second", t.w2); t.cmp = mk_cmp(st)
        return [ptr(t.f), ptr(t.s), ptr(t.cmp)], t
    def post(st, ret, t):
        w = chain_at(st, t.f, "merged chain"); prove_sorted(st, w, "merged chain is sorted")
        prove_stable(st, w, [t.w1, t.w2], "merged chain holds all members, equal ones in order"); no_more_nodes(st)
    return Task(fn, fn, setup, post, {"C02"}, E, inline_only={fn}, deadline=200)
def T_sort():
    def setup(e, st):
        t = Ctx(); t.w = st.atom("W"); t.c = chain_struct(st, "chain", t.w); t.cmp = mk_cmp(st); return [ptr(t.c), ptr(t.cmp)], t
    def post(st, ret, t):
        w = chain_at(st, t.c, "sorted chain"); prove_sorted(st, w, "chain is sorted")
        prove_stable(st, w, [t.w], "chain holds all members, equal ones in order")
        b = bits_of(st)
        if b is not None: st.prove(st.empty(b.H), "every bucket is merged")
        no_more_nodes(st)
    fn = "tommy_chain_mergesort"
    return Task(fn, fn, setup, post, {"C02"}, E, inline_only={fn}, deadline=300)
def T_list():
    def setup(e, st):
        t = Ctx(); h, t.a = mk_list(st, "W", lay(e)); t.l = cell(st, "list", h); t.cmp = mk_cmp(st); return [ptr(t.l), ptr(t.cmp)], t
    def post(st, ret, t):
        w = fold_list(st, cellval(st, t.l), lay(st.eng), "sorted list"); prove_sorted(st, w, "list is sorted")
        prove_stable(st, w, [t.a], "list holds all members, equal ones in order"); no_more_nodes(st)
    return Task("tommy_list_sort", "tommy_list_sort", setup, post, {"C02"}, E)
TASKS = [T_merge("tommy_chain_merge"), T_merge("tommy_chain_merge_degenerated"), T_sort(), T_list()]

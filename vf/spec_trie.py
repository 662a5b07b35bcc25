"""C09, C10, C11 (and the trie part of C20): contracts of trie and trie_inplace.
A trie is seen from two keys: the key k of the operation and any other key K.  Every part of the trie knows, for each
of the two, the word of the nodes stored in it with that key; the number of nodes, of inner blocks and of keys."""
from tables import *
from task import Task
from pycparser import c_ast
from spec_list import ptr
from spec_hash import T as Ctx, no_writes

class TK:
    """constants of the representation"""
    def __init__(s, name, node, idx, struct, bits, top):
        s.name = name; s.node = node; s.idx = idx; s.struct = struct; s.bits = bits; s.top = top
        s.n = 1 << bits; s.nb = 1 << (32 - top); s.maxd = top // bits + 1; s.inplace = name == "trie_inplace"
    def fn(s, op): return "tommy_%s_%s" % (s.name, op)
TRIE = TK("trie", "tommy_node_struct", "index", "tommy_trie_struct", 3, 27)
INPL = TK("trie_inplace", "tommy_trie_inplace_node_struct", "key", "tommy_trie_inplace_struct", 2, 26)
def Z0(): return BV(0)

class Pos:
    """a position of the trie: which keys may be stored below it.  d: depth (0 in a bucket); q: the leading digits.
    d is None for a position somewhere below another one: pred is what is known of the keys, hd its depth"""
    def __init__(s, k, d, q=None, pred=None, hd=None): s.k = k; s.d = d; s.q = q; s.pred = pred; s.hd = hd
    def s1(s): return s.k.top if s.d == 0 else s.k.top - s.k.bits * (s.d - 1)
    def member(s, x):
        if s.d is None: return s.pred(x)
        return simp(z3.LShR(x, BV(s.s1())) == s.q)
    def shift(s): return s.k.top - s.k.bits * s.d
    def digit(s, x):
        if s.d is None or s.shift() < 0: return None
        return simp(z3.LShR(x, BV(s.shift())) & BV(s.k.n - 1))
    def child(s, st, idx):
        k = s.k
        if s.d is None: return Pos(k, None, pred=s.pred, hd=simp(s.hd + 1)), simp(ULT(s.hd, BV(k.maxd)))
        if s.shift() < 0: return Pos(k, None, pred=s.pred or s.member, hd=BV(k.maxd + 1)), FALSE
        if s.d == 0: return Pos(k, 1, s.q), simp(idx == s.q & BV(k.n - 1))
        for o in st.ghost["obs"]:
            if s.q.eq(simp(z3.LShR(o, BV(s.s1())))) and idx.eq(s.digit(o)): return Pos(k, s.d + 1, simp(z3.LShR(o, BV(s.shift())))), TRUE
        return Pos(k, s.d + 1, simp((s.q << k.bits) | idx)), TRUE
    def depth(s): return s.hd if s.d is None else BV(s.d)
    def same(s, o): return s is o or (s.d is not None and s.d == o.d and s.q.eq(o.q))
    def __repr__(s): return "@%s:%s" % (s.d if s.d is not None else "?%s" % s.hd, s.q)
class SPos(Pos):
    """a position at a depth that is not known"""
    def __init__(s, k, hd, q): s.k = k; s.d = None; s.hd = simp(hd); s.q = simp(q)
    def sh(s): return simp(BV(s.k.top + s.k.bits) - s.k.bits * s.hd)
    def member(s, x): return simp(z3.LShR(x, s.sh()) == s.q)
    def digit(s, x): return simp(z3.LShR(x, BV(s.k.top) - s.k.bits * s.hd) & BV(s.k.n - 1))
    def child(s, st, idx):
        k = s.k; hd = simp(s.hd + 1); q = (s.q << k.bits) | idx
        for o in st.ghost["obs"]:
            if s.q.eq(simp(z3.LShR(o, s.sh()))) and idx.eq(s.digit(o)): q = z3.LShR(o, BV(k.top + k.bits) - k.bits * hd); break
        return SPos(k, hd, q), simp(ULT(s.hd, BV(k.maxd)))
    def same(s, o): return s is o or (isinstance(o, SPos) and s.hd.eq(o.hd) and s.q.eq(o.q))
class Root(Pos):
    def __init__(s, k): s.k = k; s.d = -1; s.q = None
    def member(s, x): return TRUE
    def digit(s, x): return simp(z3.LShR(x, BV(s.k.top)))
    def child(s, st, idx): return Pos(s.k, 0, idx), TRUE
    def same(s, o): return s is o

def nempty(st, w): return simp(st.length(w) == 0)
def known_empty(st, w): return not w or all(not isinstance(x, Elem) and st.holds(st.empty(x)) for x in w)
def clean(st, w):
    """joins what was split, by what is known without asking the solver"""
    w = [x for x in w if isinstance(x, Elem) or not st.known_empty(x)]
    if not w: return w
    items = {x for x in w if not isinstance(x, Elem)}; cand = []
    for nm in reversed(list(st.atoms)):
        e = st.atoms[nm].exp
        if e is None: continue
        e = [x for x in e if isinstance(x, Elem) or not st.known_empty(x)]
        if not e or not any(isinstance(x, Elem) or x in items for x in e): continue
        n = len(e)
        for i in range(len(w) - n + 1):
            if all(same_item(x, y) for x, y in zip(w[i:i + n], e)): w[i:i + n] = [nm]; items.add(nm); break
    return w

class Counted(Chunk):
    def take(s, st, nm):
        """a part of the counts"""
        r = []
        for a in ("cn", "ct", "ck"):
            w = getattr(s, a)
            if a == "ck" and st.eng.tk.inplace or a == "ct" and st.eng.tk.inplace: r.append(w - w if a == "ct" else z3.IntVal(0)); continue
            v = st.fresh(nm + a) if a != "ck" else z3.Int(st.freshname(nm + a))
            if a == "ck": st.assume(AND(v >= 0, w - v >= 0))
            setattr(s, a, simp(w - v)); r.append(v)
        return r

class Direct:
    def __init__(s, e): s.e = e
    def dload(s, st, off, size):
        lay = st.eng.tl
        return s.e.data if off == lay.data else s.e.idx
    def dstore(s, st, off, size, v): raise Unsupported("field of a stored node changed before it is reached")
def direct(st, words, b, c, size):
    lay = st.eng.tl; out = []
    if size == 8 and c in (lay.data, lay.index):
        for w in words:
            for e in w:
                if isinstance(e, Elem) and b.eq(e.addr): out.append((TRUE, ("direct", Direct(e), c)))
    return out

class Sub(Counted):
    """what hangs at a pointer p found at position pos"""
    def __init__(s, p, pos, words, cn, ct, ck): s.p = p; s.pos = pos; s.words = [list(w) for w in words]; s.cn = cn; s.ct = ct; s.ck = ck
    def copy(s):
        c = Chunk.copy(s); c.words = [list(w) for w in s.words]; return c
    def same(s, st, o): return s.p.eq(o.p)
    def candidates(s, st, addr, size):
        b, c = splitc(addr); k = st.eng.tk
        r = direct(st, s.words, b, c, size)
        if r: return r
        if any(isinstance(e, Elem) and b.eq(e.addr) for w in s.words for e in w): return [(TRUE, ("sub", s))]
        out = []
        if leafids(s.p) <= leafids(addr):
            d = addr - s.p
            if k.inplace: out.append((AND(s.p != 0, ULT(d, BV(st.eng.tl.size))), ("sub", s)))
            else:
                out.append((AND(s.p & 1 == 1, ULT(d + 1, BV(8 * k.n))), ("sub", s)))
                out.append((AND(s.p != 0, s.p & 1 == 0, ULT(d, BV(st.eng.tl.size))), ("sub", s)))
        elif 0 <= c < st.eng.tl.size and isroot(b):
            out.append((AND(s.p != 0, b == s.p, TRUE if k.inplace else s.p & 1 == 0), ("sub", s)))
        return out
    def unfold(s, st, act=None):
        eng = st.eng; k = eng.tk; lay = eng.tl; obs = st.ghost["obs"]
        st.remove(s)
        if not k.inplace and not st.decide(s.p & 1 == 0):
            st.assume(s.p != 0)
            base = simp(s.p - 1); st.add(TBlock(base))
            st.assume(s.ck >= 2)
            st.add(Cells(base, k.n, s.pos, s.words, s.cn, simp(s.ct - 1), s.ck)); return
        st.assume(s.p != 0)
        k0 = st.fresh("key"); st.assume(s.pos.member(k0))
        kids = [[] for _ in obs]; lst = None
        for i, o in enumerate(obs):
            w = s.words[i]
            if not w: st.assume(k0 != o); continue
            if i == 0 or len(w) > 1 or isinstance(w[0], Elem) or not k.inplace:
                if st.decide(k0 == o): lst = (i, w); st.assume(st.length(w) != 0)
                else:
                    kids[i] = w
                    if not k.inplace: st.assume(st.length(w) == 0); kids[i] = []
        if lst is not None:
            for i, o in enumerate(obs):
                if i != lst[0]: st.assume(k0 != o); kids[i] = s.words[i] if k.inplace else []
                if i != lst[0] and not k.inplace and s.words[i]: st.assume(st.length(s.words[i]) == 0)
            word = lst[1]
        else:
            L = st.atom("L", (lambda e: e.idx == k0,), nonempty=True); word = [L]
            for i, o in enumerate(obs):
                w = s.words[i]
                if not w or i == 0 or len(w) > 1 or isinstance(w[0], Elem) or not k.inplace: continue
                # is it the key of the node?  left open
                LK = st.atom("LK", st.atoms[w[0]].facts); M = st.atom("M", st.atoms[w[0]].facts)
                l, lk, m = (st.atoms[x].len for x in (L, LK, M))
                st.assume(lk == ITE(k0 == o, l, BV(0))); either(st, w[0], LK, M)
                st.setexp(w[0], (LK, M)); kids[i] = [M]
                a = st.atoms[L].copy(); a.attr = dict(a.attr); a.attr[("obs", i)] = LK; st.atoms[L] = a
        n = st.length(word); st.assume(n != 0)
        p = gen_list(st, s.p, word, lay, k0, k.inplace)
        if k.inplace:
            c = Cells(simp(p + BV(k.mapoff(eng))), k.n, s.pos, kids, simp(s.cn - n), s.ct, s.ck); st.add(c)
            hd = getobj(st, p); nx = hd.fields[lay.next][1]; sg = [x for x in st.heap if isinstance(x, Seg) and x.f.eq(nx)]
            if len(sg) == 1 and sg[0].nl.eq(BV(0)) and sg[0].pf.eq(p): c.lst = (dict(hd.fields), sg[0].copy(), word, k0, n)
        else: st.assume(AND(n == s.cn, s.ct == 0, s.ck == 1))
    def __repr__(s): return "Sub(%s %s %s cn=%s)" % (s.p, s.pos, s.words, s.cn)
TK.mapoff = lambda k, eng: eng.u.structs[k.node].fields["map"][0]

def mk_sub(st, p, pos, alive, words, cn, ct, ck):
    k = st.eng.tk
    st.assume(ULT(p, BV(1 << 62)))
    if not z3.is_true(alive): st.assume(OR(p == 0, alive))
    if not k.inplace:
        if pos.d == k.maxd: st.assume(p & 1 == 0)
        else: st.assume(OR(p & 1 == 0, UGE(p, BV(9))))
    if any(isinstance(x, Elem) for w in words for x in w): st.assume(p != 0)
    return st.add(Sub(p, pos, words, cn, ct, ck))
def either(st, w, a, b):
    """the word w is one of a and b, the other one is empty"""
    w, a, b = (st.atoms[x].len for x in (w, a, b))
    st.assume(AND(OR(AND(a == 0, w == b), AND(b == 0, w == a)), (w == 0) == AND(a == 0, b == 0)))
def settle_subs(st):
    """what the kind of a pointer tells about what is stored below it"""
    k_inplace = st.eng.tk.inplace
    for c in st.heap:
        if not isinstance(c, Sub) or getattr(c, "settled", None): continue
        c.settled = True
        kn = st.known.get(simp(c.p == 0).get_id())
        if kn is None and not k_inplace and st.holds(c.p == 0) or kn is not None and kn[0]:
            st.assume(AND(c.cn == 0, c.ct == 0, c.ck == 0))
            for w in c.words:
                if w: st.assume(st.length(w) == 0)
        elif not st.eng.tk.inplace:
            if st.holds(c.p & 1 == 1): st.assume(c.ck >= 2)
            elif st.holds(AND(c.p & 1 == 0, c.p != 0)): st.assume(AND(c.ck == 1, c.ct == 0))

def gen_list(st, p, word, lay, k0, inplace):
    """the nodes of a non empty list with the given word, first node p"""
    items = st.expand(word)
    while not isinstance(items[0], Elem) and len(items) > 1:
        if st.decide(st.empty(items[0])): items = items[1:]
        else: break
    if inplace and not isinstance(items[0], Elem):
        a = items[0]; st.assume(NOT(st.empty(a)))
        e = Elem(p, st.fresh("data"), k0); r = st.atom("S", st.atoms[a].facts); st.inst(a, e)
        st.assume(st.atoms[a].len == st.atoms[r].len + 1); st.setexp(a, (e, r)); items = [e, r] + items[1:]
    fs = []; ls = []
    for it in items:
        if isinstance(it, Elem): fs.append(it.addr); ls.append(it.addr)
        else: fs.append(st.fresh("f")); ls.append(st.fresh("l"))
    fs.append(BV(0)); st.assume(fs[0] == p)
    if isinstance(items[0], Elem): st_replace(st, p, items[0].addr); p = items[0].addr
    for i, it in enumerate(items):
        pf = ls[i - 1] if i else ls[-1]
        if isinstance(it, Elem):
            base = p if i == 0 else it.addr
            o = st.mknode(base, fs[i + 1], pf, lay, data=it.data, idx=k0 if i == 0 else it.idx); st.assume(it.idx == k0)
            if i == 0 and inplace: m = st.eng.tk.mapoff(st.eng); o.skip = (m, m + 8 * st.eng.tk.n); o.skipall = True
            st.add(o)
        else: st.add(Seg(it, p if i == 0 else fs[i], pf, ls[i], fs[i + 1], lay))
    return p

class Path(Chunk):
    """what hangs at p at position pos, except what hangs at the cell at address at (position ipos)"""
    def __init__(s, p, pos, at, ipos, words, cn, ct, ck): s.p = p; s.pos = pos; s.at = at; s.ipos = ipos; s.words = words; s.cn = cn; s.ct = ct; s.ck = ck
    def same(s, st, o): return s.p.eq(o.p)
    def onfree(s, st, b): pass
    def fold(s, st, label):
        o = getobj(st, s.at); st.remove(s); st.remove(o)
        cn, ct, ck, words = fold_sub(st, o.fields[0][1], s.ipos, TRUE, label)
        for x, y in zip(s.words, words):
            if x and y: st.prove(OR(st.length(x) == 0, st.length(y) == 0), label + ": a key is stored at one place only")
        return simp(s.cn + cn), simp(s.ct + ct), simp(s.ck + ck), [x + y for x, y in zip(s.words, words)]
    def __repr__(s): return "Path(%s %s .. %s %s %s)" % (s.p, s.pos, s.at, s.ipos, s.words)

class TBlock(Chunk):
    """the right to give a block back to the allocator of the trie"""
    def __init__(s, base): s.base = base
    def same(s, st, o): return s.base.eq(o.base)
    def onfree(s, st, b): pass
    def __repr__(s): return "TBlock(%s)" % s.base

class TCell(Obj):
    """one pointer of a region: reached through the region only"""
    def __init__(s, addr, v): Obj.__init__(s, addr, 8, {0: (8, v)}, "tcell")
    def candidates(s, st, addr, size): return []
def st_replace(st, p, q):
    """p is another name of q"""
    if p.eq(q): return
    for fr in st.frames:
        for n, v in list(fr.env.items()):
            if isinstance(v, Val) and v.v.eq(p): fr.env[n] = Val(q, v.t)
    for o in st.heap:
        if isinstance(o, Obj):
            for off, (z, v) in list(o.fields.items()):
                if v is not None and v.eq(p): o.fields[off] = (z, q)

class Cells(Counted):
    """n pointers of which those not in holes have the given words and counts"""
    def __init__(s, base, n, pos, words, cn, ct, ck, zero=False, raw=False):
        s.base = base; s.n = n; s.pos = pos; s.words = [list(w) for w in words]; s.cn = cn; s.ct = ct; s.ck = ck; s.zero = zero; s.raw = raw
        s.holes = []; s.zlt = []; s.deep = None; s.lst = None
    def copy(s):
        c = Chunk.copy(s); c.words = [list(w) for w in s.words]; c.holes = list(s.holes); c.zlt = list(s.zlt); return c
    def same(s, st, o): return s.base.eq(o.base)
    def onfree(s, st, b): pass
    def inside(s, st, addr):
        d = simp(addr - s.base); c = num(d)
        if c is not None: return d if c < 8 * s.n and c % 8 == 0 else None
        lb = leafids(s.base)
        if lb <= leafids(addr) and not (leafids(d) & lb) and st.holds(AND(ULT(d, BV(8 * s.n)), d & 7 == 0)): return d
        return None
    def index(s, st, d):
        c = num(d)
        if c is not None: return BV(c // 8)
        for o in st.ghost.get("obs", ()):
            g = s.pos.digit(o) if s.pos is not None else None
            if g is not None:
                z = simp(d - 8 * g)
                if num(z) == 0 or st.holds(d == 8 * g): return g
        return simp(z3.LShR(d, BV(3)))
    def canon(s, st, addr):
        if s.deep: return None
        d = s.inside(st, addr)
        if d is None: return None
        for idx, cb in s.holes:
            if cb.eq(simp(addr)): return cb
        i = s.index(st, d)
        if num(i) is None: s.rezero(st)
        for idx, cb in list(s.holes):
            if i.eq(idx): return cb
            if num(i) is not None and num(idx) is not None: continue
            if st.decide(i == idx): return cb
        return None
    def rezero(s, st):
        """cells set to null one by one are a null region again"""
        if len(s.holes) != s.n or any(num(i) is None for i, _ in s.holes): return
        os = [getobj(st, cb) for _, cb in s.holes]
        if any(o.fields[0][1] is None or num(o.fields[0][1]) != 0 for o in os): return
        for o in os: st.remove(o)
        s.holes = []; s.zero = True; s.raw = False
    def candidates(s, st, addr, size):
        b, c = splitc(addr)
        r = direct(st, s.words, b, c, size)
        if r: return r
        for i, w in enumerate(s.words):
            if s.pos is not None and any(isinstance(e, Elem) and b.eq(e.addr) for e in w):
                g = s.pos.digit(st.ghost["obs"][i])
                if g is not None: return [(TRUE, ("cells", s, simp(s.base + 8 * g), simp(8 * g)))]
        if size != 8: return []
        d = s.inside(st, addr)
        if d is not None: return [(TRUE, ("cells", s, addr, d))]
        return []
    def unfold(s, st, act):
        if s.deep: s.plug(st)
        addr, d = act[2], act[3]
        s.extract(st, s.index(st, d), simp(addr))
    def extract(s, st, idx, addr=None):
        """takes the cell out; returns its object"""
        obs = st.ghost.get("obs", ()); addr = simp(s.base + 8 * idx) if addr is None else addr
        if s.raw: o = TCell(addr, None)
        elif s.zero or any(st.holds(ULT(idx, b)) for b in s.zlt): o = TCell(addr, BV(0))
        else:
            pos, alive = s.pos.child(st, idx)
            C = []
            for i, ob in enumerate(obs):
                w = s.words[i]; g = s.pos.digit(ob)
                if not w: C.append([]); continue
                if g is None and (len(w) > 1 or isinstance(w[0], Elem)): raise Unsupported("member word at an unknown position")
                if g is not None and g.eq(idx): C.append(w); s.words[i] = []; continue
                if g is not None and (len(w) > 1 or isinstance(w[0], Elem)):
                    if st.decide(g == idx): C.append(w); s.words[i] = []
                    else: C.append([])
                    continue
                f = st.atoms[w[0]].facts; R = st.atom("R", f); c = st.atom("C", f); r, cl = (st.atoms[x].len for x in (R, c))
                either(st, w[0], R, c)
                if g is not None: st.assume(AND(OR(r == 0, g != idx), OR(cl == 0, g == idx)))
                st.setexp(w[0], (R, c)); s.words[i] = [R]; C.append([c])
            cn, ct, ck = s.take(st, "c")
            p = st.fresh("p")
            o = TCell(addr, p)
            mk_sub(st, p, pos, alive, C, cn, ct, ck)
        st.add(o); s.holes.append((idx, addr))
        if len(s.holes) == s.n and not s.raw and all(num(i) is not None for i, _ in s.holes):
            s.none(st)
        return o
    def none(s, st):
        """nothing outside the holes"""
        st.assume(AND(s.cn == 0, s.ct == 0, s.ck == 0))
        for w in s.words: st.assume(st.length(w) == 0)
        s.cn = s.ct = BV(0); s.ck = z3.IntVal(0); s.words = [[] for _ in s.words]
    def settle(s, st):
        if s.zero: return
        if any(st.holds(UGE(b, BV(s.n))) for b in s.zlt): s.zero = True; s.none(st)
    def plug(s, st):
        """the cell somewhere below has become null: the region is complete again"""
        lp = s.deep[0]; o = getobj(st, lp)
        if o is None or num(o.fields[0][1]) != 0: raise Unsupported("children of a node used while a leaf below is taken out")
        st.remove(o); s.deep = None
    def __repr__(s): return "Cells(%s %s %s cn=%s holes=%s%s)" % (s.base, s.pos, s.words, s.cn, s.holes, " zero" if s.zero else "")

# ------------------------------------------------------------------------------------------ folding
def fold_cells(st, c, pos, label):
    """consumes the region as the pointers of position pos: (cn, ct, ck, words)"""
    if c.deep: c.plug(st)
    c.settle(st)
    st.remove(c)
    if c.raw: st.fail(label + ": inner block fully initialised")
    if not c.zero and not pos.same(c.pos) and not (num(c.cn) == 0 and num(c.ct) == 0): st.fail(label + ": children stay below the same position", repr(c))
    if c.zero: cn = ct = BV(0); ck = z3.IntVal(0); words = [[] for _ in c.words]
    else: cn, ct, ck = c.cn, c.ct, c.ck; words = [list(w) for w in c.words]
    for idx, cb in reversed(c.holes):
        o = getobj(st, cb); v = o.fields[0][1]; st.remove(o)
        if v is None: st.fail(label + ": inner block fully initialised")
        if c.pos is None and num(idx) is None:
            for ob in st.ghost["obs"]:
                g = pos.digit(ob)
                if g is not None and st.holds(idx == g): idx = g; break
        p, alive = pos.child(st, idx)
        a, b, k, w = fold_sub(st, v, p, alive, label)
        cn = cn + a; ct = ct + b; ck = ck + k; words = [x + y for x, y in zip(words, w)]
    return simp(cn), simp(ct), simp(ck), words
EMPTY = lambda st: (BV(0), BV(0), z3.IntVal(0), [[] for _ in st.ghost["obs"]])
def fold_sub(st, v, pos, alive, label):
    eng = st.eng; k = eng.tk; lay = eng.tl; obs = st.ghost["obs"]; v = simp(v)
    if num(v) == 0: return EMPTY(st)
    for c in st.heap:
        if isinstance(c, Path) and c.p.eq(v):
            if not pos.same(c.pos): st.fail(label + ": children stay below the same position", repr(c))
            return c.fold(st, label)
        if isinstance(c, Sub) and (c.p.eq(v)):
            if pos.same(c.pos): st.remove(c); return c.cn, c.ct, c.ck, c.words
            if st.decide(v == 0): st.remove(c); st.assume(AND(c.cn == 0, c.ct == 0, c.ck == 0)); return EMPTY(st)
            if pos.d is not None and c.pos.d == pos.d:
                st.remove(c); st.prove(c.pos.q == pos.q, label + ": subtree stays at its position")
                if not z3.is_true(alive): st.prove(alive, label + ": subtree at a possible position")
                return c.cn, c.ct, c.ck, c.words
            c.unfold(st); break
    if st.decide(v == 0): return EMPTY(st)
    if not k.inplace and not st.decide(v & 1 == 0):
        base = simp(v - 1); c = find_cells(st, base); t = [x for x in st.heap if isinstance(x, TBlock) and x.base.eq(base)]
        if c is None or not t: st.fail(label + ": inner position is a block of the trie", str(v))
        st.remove(t[0]); st.prove(alive, label + ": inner block at a possible position")
        if pos.d is None or pos.d >= k.maxd: st.fail(label + ": depth of the trie", str(pos))
        cn, ct, ck, words = fold_cells(st, c, pos, label)
        st.prove(ck >= 2, label + ": an inner block leads to at least two different keys")
        return cn, simp(ct + 1), ck, words
    # a list of nodes with one key
    h = None
    for c in st.heap:
        if isinstance(c, Obj) and c.kind == "node" and c.base.eq(v): h = c
        if isinstance(c, Seg) and c.f.eq(v): h = c
    if h is None:
        for c in st.heap:
            if isinstance(c, Obj) and c.kind == "node" and st.holds(c.base == v): h = c; v = c.base
            if isinstance(c, Seg) and st.holds(AND(c.f == v, NOT(st.empty(c.atom)))): h = c
    if h is None: st.fail(label + ": link to something that is not stored", str(v))
    kids = None
    if k.inplace:
        if isinstance(h, Seg): v = h.f; h, _ = st.unfold_front(h); kids = None
        m = k.mapoff(eng)
        kc = find_cells(st, simp(v + m))
        if kc is None:
            vals = []
            for j in range(k.n):
                f = h.fields.get(m + 8 * j)
                if f is None or f[0] != 8 or f[1] is None: st.fail(label + ": child pointers of a first node are set", str(v))
                vals.append(f[1])
    same = unchanged_list(st, h, kc) if k.inplace and kc is not None and kc.lst else None
    if same: w, k0, n = same; first = []
    else:
        w = fold_list(st, v, lay, label); w = clean(st, w); first = [x for x in st.expand(w)]
        k0 = None; n = st.length(w)
    for x in first:
        if isinstance(x, Elem): k0 = x.idx; break
    if k0 is None:
        k0 = st.fresh("key")
        e = Elem(v, st.fresh("d"), k0)
        for x in first:
            if st.holds(NOT(st.empty(x))): st.inst(x, e); break
        else: st.fail(label + ": empty list stored")
    st.prove(AND(pos.member(k0), alive), label + ": a node is stored at the position of its key")
    if not same: prove_all(st, w, lambda e: e.idx == k0, label + ": nodes of a list have one key")
    if k.inplace:
        if kc is not None: kids = fold_cells(st, kc, pos, label)
        else:
            kids = EMPTY(st)
            for j, x in enumerate(vals):
                p, al = pos.child(st, BV(j)); a, b, c_, ww = fold_sub(st, x, p, al, label)
                kids = [kids[0] + a, kids[1] + b, kids[2] + c_, [y + z for y, z in zip(kids[3], ww)]]
    else: kids = EMPTY(st)
    words = []
    for i, o in enumerate(obs):
        kw = clean(st, kids[3][i])
        sh = st.atoms[w[0]].attr.get(("obs", i)) if len(w) == 1 and not isinstance(w[0], Elem) else None
        if sh is not None: lw = [sh]
        elif st.decide(k0 == o): lw = w
        else: lw = []
        if lw and kw: st.prove(OR(st.length(lw) == 0, st.length(kw) == 0), label + ": a key is stored at one place only"); 
        if sh is None and lw and kw: kw = []
        words.append(lw + kw)
    return simp(n + kids[0]), simp(kids[1]), simp(kids[2] + 1), words
def unchanged_list(st, h, kc):
    """the list is exactly as it was found: its word, key and length"""
    fields, sg, word, k0, n = kc.lst
    for off, (z, x) in fields.items():
        f = h.fields.get(off)
        if f is None or f[0] != z or not f[1].eq(x): return None
    if len(h.fields) != len(fields): return None
    for c in st.heap:
        if isinstance(c, Seg) and c.atom == sg.atom and all(x.eq(y) for x, y in ((c.f, sg.f), (c.pf, sg.pf), (c.l, sg.l), (c.nl, sg.nl))):
            st.remove(c); st.remove(h); return word, k0, n
    return None
def find_cells(st, base):
    for c in st.heap:
        if isinstance(c, Cells) and c.base.eq(simp(base)): return c
    return None

# ------------------------------------------------------------------------------------------ loops
class LeafLoop(LoopBase):
    """a read only search from a node down to a leaf: the node looked at is the first one, or any node below it that is
    reached through the pointer kept"""
    @classmethod
    def matches(cls, eng, st, fr, lp):
        k = eng.tk
        if not k.inplace: return
        m = k.mapoff(eng)
        for v, t in ptr_locals(fr, lp):
            x = locv(fr, v)
            if isinstance(t.to, TPtr) or num(x) == 0: continue
            c = find_cells(st, simp(x + m))
            if c is None or c.deep: continue
            i = cls(); i.cur = v; i.node = x; i.depth = len(st.frames); i.lp = lp
            yield i; return
    def region(s, st, leaf): return find_cells(st, simp(leaf + BV(st.eng.tk.mapoff(st.eng))))
    def nullcells(s, st, leaf, lo, hi):
        c = s.region(st, leaf)
        for j in range(lo, hi):
            for idx, cb in c.holes:
                if num(idx) == j: o = getobj(st, cb); break
            else: o = c.extract(st, BV(j))
            p = o.fields[0][1]
            if num(p) != 0: st.assume(p == 0)
    def isnull(s, st, leaf, lo, hi):
        c = s.region(st, leaf)
        if c is None: return lo >= hi
        for j in range(lo, hi):
            for idx, cb in c.holes:
                if num(idx) == j:
                    if not st.holds(getobj(st, cb).fields[0][1] == 0): return False
                    break
            else: return False
        return True
    def enter(s, eng, st):
        fr = st.frames[-1]; k = eng.tk; n = k.n
        c = s.region(st, s.node)
        if c.holes:
            pos = c.pos; cn, ct, ck, words = fold_cells(st, c, pos, "children of the removed node")
            c = st.add(Cells(c.base, k.n, pos, [clean(st, w) for w in words], cn, ct, ck))
        entry = {v: locv(fr, v) for v, t in list(int_locals(fr, s.lp)) + list(ptr_locals(fr, s.lp))}
        s.leafv = [v for v, t in ptr_locals(fr, s.lp) if not isinstance(t.to, TPtr) and entry[v] is not None and entry[v].eq(s.node)]
        s.letv = [v for v, t in ptr_locals(fr, s.lp) if isinstance(t.to, TPtr) and entry[v] is not None]
        s.ints = [v for v, t in int_locals(fr, s.lp) if entry[v] is not None]
        ent = []
        for v in s.ints:
            x = entry[v]; w = x.size(); a = snum(x)
            ent.append((v + " up to the last", TRUE if a is not None and -1 <= a < n else None))
            ent.append((v + " from the first", TRUE if a is not None and 0 <= a <= n else None))
            ent.append((v + ": pointers above are null", TRUE if a is not None and a >= n - 1 else None))
            ent.append((v + ": pointers below are null", TRUE if a is not None and a <= 0 else None))
        keep = s.houdini_enter(eng, st, ent)
        s.havoc_locals(st, fr, s.lp)
        s.w0 = len(st.writes)
        if st.decide(z3.Bool(st.freshname("at_root"))):
            leaf = s.node
            for v in s.letv: fr.env[v] = Val(entry[v], fr.func.locals[v])
            s.let = {v: entry[v] for v in s.letv}; s.hd = c.pos.depth()
        else:
            I = []; O = []
            for i, w in enumerate(c.words):
                w = clean(st, w)
                if not w: I.append([]); O.append([]); continue
                if len(w) > 1 or isinstance(w[0], Elem): raise Unsupported("member word below the removed node")
                f = st.atoms[w[0]].facts; x = st.atom("O", f); y = st.atom("I", f)
                either(st, w[0], x, y); st.setexp(w[0], (x, y)); O.append([x]); I.append([y])
            cn, ct, ck = c.take(st, "h"); c.words = O
            hd = st.fresh("depth"); d0 = c.pos.depth(); st.assume(AND(UGT(hd, d0), ULE(hd, BV(k.maxd))))
            leaf = st.fresh("leaf"); lp = st.fresh("let"); st.add(TCell(lp, leaf))
            st.assume(leaf != 0); pp = c.pos
            sub = mk_sub(st, leaf, Pos(k, None, pred=(lambda x: pp.member(x)), hd=hd), TRUE, I, cn, ct, ck)
            c.deep = (lp, hd); sub.unfold(st)
            for v in s.letv: fr.env[v] = Val(lp, fr.func.locals[v])
            s.let = {v: lp for v in s.letv}; s.hd = hd
        for v in s.leafv: fr.env[v] = Val(leaf, fr.func.locals[v])
        s.leaf = leaf; s.val = {}
        for v in s.ints:
            if v + " up to the last" not in keep and v + " from the first" not in keep: continue
            t = fr.func.locals[v]; w = 8 * t.size
            lo = 0 if v + " from the first" in keep else -1; hi = n - 1 if v + " up to the last" in keep else n
            for a in range(lo, hi + 1):
                if a == hi or st.decide(locv(fr, v) == BV(a, w)): break
            if a == hi: st.assume(locv(fr, v) == BV(a, w))
            fr.env[v] = Val(BV(a, w), t); s.val[v] = a
            if v + ": pointers above are null" in keep: s.nullcells(st, leaf, max(a + 1, 0), n)
            if v + ": pointers below are null" in keep: s.nullcells(st, leaf, 0, min(max(a, 0), n))
        s.keep = keep
    def check(s, eng, st):
        fr = st.frames[-1]; n = eng.tk.n
        if any(x[0] != "stack" for x in st.writes[s.w0:]): raise Unsupported("search for a leaf that writes")
        cur = s.leaf; let = None; steps = 0
        x = locv(fr, s.cur)
        while not (x.eq(cur) or st.holds(x == cur)):
            c = s.region(st, cur)
            hit = None
            for idx, cb in (c.holes if c else ()):
                v = getobj(st, cb).fields[0][1]
                # the cell kept by the loop decides which child was taken
                if x.eq(v) or st.holds(x == v): hit = (v, cb)
            if hit is None: st.fail("loop invariant: the node looked at is below the removed one", str(x))
            st.prove(hit[0] != 0, "loop invariant: the node looked at exists"); cur, let = hit; steps += 1
        for v in s.leafv: st.prove(locv(fr, v) == cur, "loop invariant: the node looked at")
        for v in s.letv: st.prove(locv(fr, v) == (let if steps else s.let[v]), "loop invariant: the pointer kept leads to the node looked at")
        now = []; prog = []
        for v in s.ints:
            y = locv(fr, v); a = snum(y) if y is not None else None
            now.append((v + " up to the last", TRUE if a is not None and -1 <= a < n else None))
            now.append((v + " from the first", TRUE if a is not None and 0 <= a <= n else None))
            now.append((v + ": pointers above are null", TRUE if a is not None and s.isnull(st, cur, max(a + 1, 0), n) else None))
            now.append((v + ": pointers below are null", TRUE if a is not None and s.isnull(st, cur, 0, min(max(a, 0), n)) else None))
            if a is not None and v in s.val: prog.append(a < s.val[v] and v + ": pointers above are null" in s.keep or a > s.val[v] and v + ": pointers below are null" in s.keep)
        s.houdini_check(eng, st, now)
        if not steps and not any(prog): st.fail("loop makes progress (termination)", "neither a lower node nor another child")
        STATS.obl += 1; STATS.discharged += 1; eng.count(eng.label(st, "loop makes progress (termination)"))

class DescentLoop(LoopBase):
    """goes down from a pointer along the digits of the key of the operation, past lists with other keys: the place
    looked at is the first one, or any place below it that the key leads to"""
    @classmethod
    def matches(cls, eng, st, fr, lp):
        k = eng.tk
        if not k.inplace or "obs" not in st.ghost: return
        key = st.ghost["obs"][0]
        cls.look(st, fr, lp)
        subs = [c for c in st.heap if isinstance(c, Sub) and c.pos.d is not None and num(c.p) is None and c.words[0]]
        for v, t in ptr_locals(fr, lp):
            x = locv(fr, v)
            for c in subs:
                at = [o.base for o in st.heap if isinstance(o, TCell) and o.fields[0][1] is not None and o.fields[0][1].eq(c.p)]
                if len(at) != 1: continue
                if x.eq(at[0] if isinstance(t.to, TPtr) else c.p) and st.holds(c.pos.member(key)):
                    i = cls(); i.p = c.p; i.at = at[0]; i.depth = len(st.frames); i.lp = lp
                    yield i; return
    @staticmethod
    def look(st, fr, lp):
        """the pointers looked at are taken out of their blocks, even if the loop did not read them yet"""
        for v, t in ptr_locals(fr, lp):
            x = locv(fr, v)
            if not isinstance(t.to, TPtr) or x is None or num(x) is not None: continue
            if any(isinstance(o, TCell) and o.base.eq(x) for o in st.heap): continue
            for c in st.heap:
                if isinstance(c, Cells) and st.holds(ULT(simp(x - c.base), BV(8 * c.n))) and st.holds((x - c.base) & 7 == 0): st.load(x, 8); break
    def laws(s, k, entry, v, t, n):
        """values an integer may have n steps further down"""
        x = entry[v]; w = x.size(); n = z3.Extract(w - 1, 0, n) if w < 64 else n
        return [("%s changes by %d" % (v, c), simp(x + c * n)) for c in (-k.bits, 0, 1, -1, k.bits)] + [
            (v + " shifted left", simp(x << (k.bits * n))), (v + " shifted right", simp(z3.LShR(x, k.bits * n)))]
    def enter(s, eng, st):
        fr = st.frames[-1]; k = eng.tk; key = st.ghost["obs"][0]
        c = [x for x in st.heap if isinstance(x, Sub) and x.p.eq(s.p)][0]; d0 = c.pos.d
        entry = {v: locv(fr, v) for v, t in list(int_locals(fr, s.lp)) + list(ptr_locals(fr, s.lp))}
        s.entry = entry; s.d0 = d0; s.w0 = len(st.writes); s.word = c.words[0]
        s.curv = [v for v, t in ptr_locals(fr, s.lp) if not isinstance(t.to, TPtr) and entry[v].eq(s.p)]
        s.letv = [v for v, t in ptr_locals(fr, s.lp) if isinstance(t.to, TPtr) and entry[v].eq(s.at)]
        s.ints = [(v, t) for v, t in int_locals(fr, s.lp)]
        ent = [(n, TRUE) for v, t in s.ints for n, x in s.laws(k, entry, v, t, BV(0))]
        keep = s.houdini_enter(eng, st, ent + [("pointer " + v, TRUE) for v in s.curv + s.letv])
        if st.decide(z3.Bool(st.freshname("at_first"))):
            s.cur = s.p; s.cell = s.at; s.hd = BV(d0)
            others = {v for v, t in int_locals(fr, s.lp)} | set(s.curv) | set(s.letv)
            s.havoc_locals(st, fr, s.lp, keep=others)
            for v in others:
                names = ["pointer " + v] if v in s.curv + s.letv else [n for n, x in s.laws(k, entry, v, None, BV(0))]
                if not any(n in keep for n in names):
                    fr.env[v] = Val(st.fresh(v.replace("#", "_"), entry[v].size()), fr.func.locals[v])
            return
        s.havoc_locals(st, fr, s.lp)
        hd = st.fresh("depth"); st.assume(AND(UGT(hd, BV(d0)), ULE(hd, BV(k.maxd)))); s.hd = hd
        st.remove(c); O = []; I = []
        for i, w in enumerate(c.words):
            if i == 0 or not w: I.append(w); O.append([]); continue
            if len(w) > 1 or isinstance(w[0], Elem): raise Unsupported("member word off the path")
            f = st.atoms[w[0]].facts; x = st.atom("O", f); y = st.atom("I", f)
            either(st, w[0], x, y); st.setexp(w[0], (x, y)); O.append([x]); I.append([y])
        cn, ct, ck = c.take(st, "h")
        cur = st.fresh("cur"); at = st.fresh("cell"); st.assume(AND(at != 0, ULT(at, BV(1 << 62)), at & 7 == 0)); st.add(TCell(at, cur))
        ipos = SPos(k, hd, z3.LShR(key, BV(k.top + k.bits) - k.bits * hd))
        st.add(Path(s.p, c.pos, at, ipos, O, c.cn, c.ct, c.ck)); mk_sub(st, cur, ipos, TRUE, I, cn, ct, ck)
        s.cur = cur; s.cell = at
        for v in s.curv:
            if "pointer " + v in keep: fr.env[v] = Val(cur, fr.func.locals[v])
        for v in s.letv:
            if "pointer " + v in keep: fr.env[v] = Val(at, fr.func.locals[v])
        for v, t in s.ints:
            for n, x in s.laws(k, entry, v, t, hd - d0):
                if n in keep: fr.env[v] = Val(x, t); break
    def check(s, eng, st):
        fr = st.frames[-1]; k = eng.tk; key = st.ghost["obs"][0]
        if any(x[0] != "stack" for x in st.writes[s.w0:]): raise Unsupported("search that writes")
        # the place looked at now
        s.look(st, fr, s.lp); hit = None
        for o in st.heap:
            if not isinstance(o, TCell) or o.base.eq(s.cell): continue
            v = o.fields[0][1]
            for c in st.heap:
                if isinstance(c, Sub) and v is not None and c.p.eq(v) and c.words[0] == s.word: hit = (o.base, c)
        if hit is None: st.fail("loop invariant: the search goes on where the key leads to")
        at, c = hit
        st.prove(c.pos.depth() == s.hd + 1, "loop makes progress (termination)"); st.prove(ULE(c.pos.depth(), BV(k.maxd)), "loop invariant: depth of the trie")
        st.prove(c.pos.member(key), "loop invariant: the search goes on where the key leads to")
        now = []
        for v, t in s.ints:
            y = locv(fr, v)
            for n, x in s.laws(k, s.entry, v, t, s.hd + 1 - s.d0): now.append((n, y == x if y is not None else None))
        for v, g in [(v, c.p) for v in s.curv] + [(v, at) for v in s.letv]:
            y = locv(fr, v); now.append(("pointer " + v, y == g if y is not None else None))
        s.houdini_check(eng, st, now)

def head_names(fr):
    """variables of the first test of the loop"""
    for j in range(fr.ip, min(fr.ip + 6, len(fr.func.code))):
        ins = fr.func.code[j]
        if ins.op != "br": continue
        out = set(); todo = [ins.a]
        while todo:
            n = todo.pop()
            if isinstance(n, c_ast.ID): out.add(n.name)
            todo += [c for _, c in n.children()]
        return out
    return set()

class ScanLoop(LoopBase):
    """a counter runs over the pointers of an inner block while at most one of them, a node, is not null"""
    @classmethod
    def matches(cls, eng, st, fr, lp):
        k = eng.tk
        if k.inplace: return
        if any(True for _ in ptr_locals(fr, lp)): return
        tested = head_names(fr)
        for v, t in sorted(int_locals(fr, lp), key=lambda y: y[0] not in tested):
            x = locv(fr, v)
            if x is None or num(x) != 0: continue
            for pv, pt in fr.func.locals.items():
                y = locv(fr, pv)
                if y is None or not isinstance(pt, TPtr): continue
                c = find_cells(st, y)
                if c is None or c.raw or c.zero or c.n != k.n: continue
                # the counter is the one the loop tests
                i = cls(); i.v = v; i.base = c.base; i.depth = len(st.frames); i.lp = lp
                yield i; break
    def cell(s, st, idx):
        c = find_cells(st, s.base)
        for j, cb in c.holes:
            if j.eq(idx) or st.holds(j == idx): return getobj(st, cb)
        return None
    def cands(s, fr, found, f):
        out = []
        for v, t in int_locals(fr, s.lp):
            if v == s.v: continue
            x = locv(fr, v)
            if x is None: continue
            out.append((v + " is the number found", x == BV(found, x.size())))
            if f is not None: out.append((v + " is where it was found", x == conv(f, U64, t)))
            if f is None and v in s.start: out.append((v + " unchanged while none is found", x == s.start[v]))
        return out
    def enter(s, eng, st):
        fr = st.frames[-1]; k = eng.tk; n = k.n; t = fr.func.locals[s.v]
        c = find_cells(st, s.base)
        s.start = {v: locv(fr, v) for v, _ in int_locals(fr, s.lp) if v != s.v and locv(fr, v) is not None}
        names = [v + " is where it was found" for v, _ in int_locals(fr, s.lp) if v != s.v]
        keep = s.houdini_enter(eng, st, s.cands(fr, 0, None) + [(x, TRUE) for x in names])
        s.havoc_locals(st, fr, s.lp)
        i = conv(locv(fr, s.v), t, U64); st.assume(ULE(i, BV(n))); s.i = i; s.w0 = len(st.writes)
        found = 0; f = None
        if not st.decide(z3.Bool(st.freshname("none_found"))):
            found = 1
            for j, cb in c.holes:
                if st.decide(z3.Bool(st.freshname("found_here"))): f = j; st.assume(ULT(j, i)); o = getobj(st, cb); break
            else:
                f = st.fresh("found"); st.assume(ULT(f, i))
                for j, cb in c.holes: st.assume(f != j)
                o = c.extract(st, f)
            p = o.fields[0][1]; st.assume(AND(p != 0, p & 1 == 0))
        for j, cb in c.holes:
            if f is not None and j.eq(f): continue
            st.assume(IMP(ULT(j, i), getobj(st, cb).fields[0][1] == 0))
        c.zlt.append(i)
        st.assume(IMP(UGE(i, BV(n)), AND(c.cn == 0, c.ct == 0, c.ck == 0)))
        for w in c.words:
            if w: st.assume(IMP(UGE(i, BV(n)), st.length(w) == 0))
        now = dict(s.cands(fr, found, f))
        for x in keep:
            if x in now: st.assume(now[x])
        s.found = found; s.f = f; s.keep = keep
    def check(s, eng, st):
        fr = st.frames[-1]; k = eng.tk; t = fr.func.locals[s.v]
        if any(x[0] != "stack" for x in st.writes[s.w0:]): raise Unsupported("scan that writes")
        i = conv(locv(fr, s.v), t, U64)
        st.prove(i == s.i + 1, "loop makes progress (termination)"); st.prove(ULE(i, BV(k.n)), "loop invariant: counter within the block")
        o = s.cell(st, s.i)
        if o is None: st.fail("loop invariant: every pointer of the block is looked at")
        p = o.fields[0][1]; found = s.found; f = s.f
        if not st.decide(p == 0):
            if found: st.fail("loop invariant: at most one child found")
            st.prove(p & 1 == 0, "loop invariant: the child found is a node"); found = 1; f = s.i
        now = s.cands(fr, found, f)
        if f is None: now += [(v + " is where it was found", TRUE) for v, _ in int_locals(fr, s.lp) if v != s.v]
        else: now += [(v + " unchanged while none is found", TRUE) for v in s.start]
        s.houdini_check(eng, st, now)

# ------------------------------------------------------------------------------------------ contracts of the allocator
def alloc_apply(eng, st, a):
    t = st.ghost["ctx"]
    st.prove(a[0].v == t.alloc, "inner blocks come from the allocator of the trie")
    b = st.fresh("block"); st.assume(AND(b != 0, ULT(b, BV(1 << 62)), b & 7 == 0))
    for c in st.heap:
        if isinstance(c, TBlock): st.assume(c.base != b)
    n = eng.tk.n; st.add(TBlock(b)); st.add(Cells(b, n, None, [[] for _ in st.ghost["obs"]], BV(0), BV(0), z3.IntVal(0), raw=True))
    st.ghost["nblk"] = st.ghost.get("nblk", 0) + 1
    st.writes.append(("alloc", None, 0))
    return Val(b, VOIDP)
def free_apply(eng, st, a):
    t = st.ghost["ctx"]
    st.prove(a[0].v == t.alloc, "inner blocks go back to the allocator of the trie")
    for c in list(st.heap):
        if isinstance(c, TBlock) and (c.base.eq(a[1].v) or st.holds(c.base == a[1].v)):
            r = find_cells(st, c.base); st.remove(c)
            r.settle(st); drop_cells(st, r, "freed block")
            st.writes.append(("alloc", None, 0)); return None
    st.fail("a block is given back exactly once", "%s is not a block held" % a[1].v)
def drop_cells(st, r, label):
    """the memory of the region is given up: nothing may be stored in what was not taken out of it"""
    st.remove(r)
    if not r.zero and not r.raw: st.prove(AND(r.cn == 0, r.ct == 0), label + ": no object is lost")
    for idx, cb in r.holes:
        o = getobj(st, cb)
        if o is not None: st.remove(o)

def memset0(c, st, p, n):
    """memset of a whole fresh region"""
    if c.raw and not c.holes and c.base.eq(simp(p)) and num(n) == 8 * c.n: c.raw = False; c.zero = True; c.pos = None; return True
    return False
Cells.dozero = memset0

def E(k):
    def mk(u):
        e = Engine(u); e.tk = k; e.unroll_plan = k.inplace; e.tl = Layout(u, k.node, k.idx); e.tl.aligned = not k.inplace; e.nodep = TPtr(u.structs[k.node])
        e.templates = [LeafLoop, DescentLoop] if k.inplace else [ScanLoop]
        if not k.inplace:
            e.contracts["tommy_allocator_alloc"] = Contract(alloc_apply); e.contracts["tommy_allocator_free"] = Contract(free_apply)
        return e
    return mk

def mk_trie(e, st, k, member=False):
    t = Ctx(); t.k = k; ts = e.u.structs[k.struct]; t.ts = ts; t.base = st.fresh("trie")
    t.key = st.fresh("k"); t.other = st.fresh("K"); st.ghost["obs"] = [t.key, t.other]
    st.assume(t.key != t.other)
    for x in (t.key, t.other): st.assume(z3.LShR(x, BV(32)) == 0)
    key = t.key; oth = t.other
    f = lambda e_: e_.idx == key
    t.Wo = st.atom("WK", (lambda e_: e_.idx == oth,))
    o = Obj(t.base, ts.size, {}, "obj", k.struct); bo, bt = ts.fields["bucket"]; o.skip = (bo, bo + bt.size); o.skipall = True
    if bt.size != 8 * k.nb: raise Unsupported("another number of buckets")
    t.count = st.fresh("count"); t.blocks = BV(0) if k.inplace else st.fresh("blocks"); st.assume(AND(ULT(t.count, BV(1 << 57)), ULT(t.blocks, BV(1 << 61))))
    g = lambda n: ts.fields[n][0]
    o.fields[g("count")] = (8, t.count); t.alloc = None
    if not k.inplace: t.alloc = st.fresh("alloc"); o.fields[g("node_count")] = (8, t.blocks); o.fields[g("alloc")] = (8, t.alloc)
    t.o = st.add(o)
    if member:
        a = st.atom("A", (f,)); b = st.atom("Z", (f,)); t.x = Elem(st.fresh("member"), st.fresh("mdata"), t.key)
        st.assume(AND(t.x.addr != 0, ULT(t.x.addr, BV(1 << 62)), t.x.addr & 7 == 0)); t.W = [a, t.x, b]; t.rest = [a, b]
    else: t.W = [st.atom("Wk", (f,))]
    ck = z3.Int("keys"); st.assume(ck >= 0)
    c = Cells(simp(t.base + bo), k.nb, Root(k), [t.W, [t.Wo]], t.count, t.blocks, ck); st.add(c); t.c = c
    return t
def mk_new(e, st, t):
    lay = e.tl; n = st.fresh("node"); o = Obj(n, lay.size, {}, "node", t.k.node); o.lay = lay
    st.assume(n & 7 == 0); st.add(o); t.node = n; return n
def wf(st, t, want, dn, label="trie", out=()):
    k = t.k; o = getobj(st, t.base)
    if o is None: st.fail(label + ": container struct")
    g = lambda n: st.objload(o, t.ts.fields[n][0], 8)
    settle_subs(st)
    c = find_cells(st, simp(t.base + t.ts.fields["bucket"][0]))
    cn, ct, ck, words = fold_cells(st, c, c.pos, label)
    prove_word(st, words[0], want, label + ": nodes with the key, in insertion order")
    prove_word(st, words[1], [t.Wo], label + ": nodes with any other key are unaffected")
    st.prove(g("count") == t.count + BV(dn), label + ": count changes exactly as documented")
    st.prove(cn == g("count"), label + ": count equals the number of stored nodes")
    if not k.inplace:
        st.prove(g("alloc") == t.alloc, label + ": allocator is kept")
        st.prove(ct == g("node_count"), label + ": number of inner blocks reported equals the blocks held")
        for x in st.heap:
            if isinstance(x, TBlock): st.fail(label + ": every block held is part of the trie", repr(x))
    # what is left: the node taken out, with whatever its pointers contain
    for x in list(st.heap):
        if isinstance(x, Cells): x.settle(st); drop_cells(st, x, label)
    for x in list(st.heap):
        if isinstance(x, Sub):
            if not st.decide(x.p == 0): st.fail(label + ": no object is lost", repr(x))
    for x in st.heap:
        if isinstance(x, Path): st.fail(label + ": no object is lost", repr(x))
    left = nodes_left(st)
    for x in left:
        if isinstance(x, Obj) and any(x.base.eq(a) or st.holds(x.base == a) for a in out): continue
        st.fail(label + ": no node is lost", repr(x))
    for a in out:
        if not any(isinstance(x, Obj) and (x.base.eq(a) or st.holds(x.base == a)) for x in left): st.fail(label + ": removed node is handed over")

PR = {"trie": {"C09", "C10", "C20"}, "trie_inplace": {"C11", "C20"}}
def T_init(k):
    def setup(e, st):
        t = Ctx(); t.k = k; t.ts = e.u.structs[k.struct]; t.base = st.fresh("trie"); st.add(Obj(t.base, t.ts.size, {}, "obj", k.struct)); t.alloc = st.fresh("alloc")
        return [ptr(t.base)] + ([] if k.inplace else [ptr(t.alloc)]), t
    def post(st, ret, t):
        o = getobj(st, t.base); g = lambda n: st.objload(o, t.ts.fields[n][0], 8); bo = t.ts.fields["bucket"][0]
        for j in range(k.nb): st.prove(st.objload(o, bo + 8 * j, 8) == 0, "empty trie")
        st.prove(g("count") == 0, "empty trie: count")
        if not k.inplace: st.prove(AND(g("node_count") == 0, g("alloc") == t.alloc), "empty trie: no inner blocks, allocator kept")
    return Task(k.fn("init"), k.fn("init"), setup, post, PR[k.name], E(k))
def T_insert(k):
    def setup(e, st):
        t = mk_trie(e, st, k); n = mk_new(e, st, t); t.d = st.fresh("newdata")
        return [ptr(t.base), Val(n, e.nodep), ptr(t.d), Val(t.key, U64)], t
    def post(st, ret, t): wf(st, t, t.W + [Elem(t.node, t.d, t.key)], 1)
    return Task(k.fn("insert"), k.fn("insert"), setup, post, PR[k.name], E(k), deadline=300)
def first_of(st, w):
    """the first element of a word; None if it is empty"""
    w = norm(st, w)
    if not w: return None, []
    if isinstance(w[0], Elem): return w[0], w[1:]
    return w[0], w[1:]
def T_bucket(k, fn):
    def setup(e, st):
        t = mk_trie(e, st, k); return [ptr(t.base), Val(t.key, U64)], t
    def post(st, ret, t):
        no_writes(st); settle_subs(st)
        it, _ = first_of(st, t.W)
        if it is None: st.prove(ret.v == 0, "nothing is found only if there is no node with the key"); return
        if not isinstance(it, Elem):
            # the first node is known by where the list starts
            fn_ = [c for c in st.heap if isinstance(c, Seg) and c.atom == it]
            if not fn_: st.fail("search reaches the nodes with the key", str(it))
            if fn == "search": st.fail("search reads the object of the node", str(it))
            st.prove(ret.v == fn_[0].f, "the first of the nodes with the key is found"); return
        st.prove(ret.v == (it.data if fn == "search" else it.addr), "the first of the nodes with the key is found")
    return Task(k.fn(fn), k.fn(fn), setup, post, PR[k.name], E(k), deadline=200)
def T_remove(k, ex):
    fn = k.fn("remove_existing" if ex else "remove")
    def setup(e, st):
        t = mk_trie(e, st, k, member=ex)
        return [ptr(t.base), Val(t.x.addr, e.nodep) if ex else Val(t.key, U64)], t
    def post(st, ret, t):
        if ex: st.prove(ret.v == t.x.data, "the object of the member is returned"); wf(st, t, t.rest, -1, out=[t.x.addr]); return
        settle_subs(st); it, rest = first_of(st, t.W)
        if it is None: st.prove(ret.v == 0, "nothing is removed only if there is no node with the key"); wf(st, t, [], 0); return
        if not isinstance(it, Elem): st.fail("the first node with the key is removed", str(it))
        st.prove(ret.v == it.data, "the first node with the key is removed"); wf(st, t, rest, -1, out=[it.addr])
    return Task(fn, fn, setup, post, PR[k.name], E(k), deadline=400)
def T_plain(k, fn, what):
    def setup(e, st):
        t = mk_trie(e, st, k); t.z = e.tl.size; return [ptr(t.base)], t
    def post(st, ret, t): no_writes(st); st.prove(ret.v == what(t), "reports exactly what is stored")
    return Task(k.fn(fn), k.fn(fn), setup, post, {"C20"}, E(k))
TASKS = []
for K_ in (TRIE, INPL):
    TASKS += [T_init(K_), T_insert(K_), T_bucket(K_, "bucket"), T_bucket(K_, "search"), T_remove(K_, False), T_remove(K_, True), T_plain(K_, "count", lambda t: t.count)]
TASKS += [T_plain(TRIE, "memory_usage", lambda t: t.count * BV(32) + t.blocks * BV(64)), T_plain(INPL, "memory_usage", lambda t: t.count * BV(t.z))]

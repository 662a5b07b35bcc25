"""C07, C08 (and the tree part of C18, C20): contracts of the AVL tree"""
from tables import *
from task import Task
from spec_list import ptr
from spec_hash import T as Ctx, no_writes

TAG = "tommy_node_struct"; HMAX = 1 << 8
KEY = z3.Function("key", B64, z3.IntSort())          # the total preorder given by the comparison: key of an object
def Z0(): return BV(0)
def hmax(a, b): return ITE(UGE(a, b), a, b)
def hdiff(a, b): return ITE(UGE(a, b), a - b, b - a)

class Member:
    def __init__(s, e): s.e = e
    def dload(s, st, off, size): return s.e.data
    def dstore(s, st, off, size, v): raise Unsupported("object of a member changed")
class RootHeight:
    """recorded height of the root of a tree: readable without looking into the tree"""
    def __init__(s, t): s.t = t
    def dload(s, st, off, size): return s.t.h
    def dstore(s, st, off, size, v):
        s.t.unfold(st, None); st.store(s.t.p + off, size, v)
class TREE(Chunk):
    """balanced tree with root p (0 if empty), height h, and the elements of word in order"""
    def __init__(s, p, h, word): s.p = p; s.h = h; s.word = list(word)
    def copy(s):
        c = Chunk.copy(s); c.word = list(s.word); return c
    def candidates(s, st, addr, size):
        b, c = splitc(addr); lay = st.eng.tl
        if not (0 <= c <= lay.size - size): return []
        if c == lay.index and size == 8: return [(AND(s.h != 0, b == s.p), ("direct", RootHeight(s), c))]
        out = [(AND(s.h != 0, b == s.p), ("tree", s))]
        # the object of a member is known wherever in the tree it is
        if c == lay.data and size == 8: out += [(b == e.addr, ("direct", Member(e), c)) for e in s.word if isinstance(e, Elem)]
        return out
    def sepfacts(s, st, o):
        el = [e.addr for e in s.word if isinstance(e, Elem)]
        if isinstance(o, Obj): return [IMP(s.h != 0, s.p != o.base)] + [a != o.base for a in el]
        if isinstance(o, TREE): return [IMP(AND(s.h != 0, o.h != 0), s.p != o.p)] + [a != e.addr for a in el for e in o.word if isinstance(e, Elem)]
        return []
    def unfold(s, st, act):
        for c in st.heap:
            if isinstance(c, TREE) and c.p.eq(s.p): s = c
        lay = st.eng.tl
        items = st.expand(s.word); n = len(items); k = None
        for i, it in enumerate(items):
            if i == n - 1: k = i; break
            if isinstance(it, Elem):
                if st.decide(s.p == it.addr): k = i; break
            elif st.decide(z3.Bool("root_in_%s" % it)): k = i; break
        if k is None: st.fail("memory access", "node of an empty tree")
        it = items[k]
        st.remove(s)
        if isinstance(it, Elem):
            e = it; st.assume(s.p == e.addr); l, r = items[:k], items[k + 1:]
        else:
            a = st.atoms[it]; st.assume(NOT(st.empty(it)))
            e = Elem(s.p, st.fresh("data"), BV(0)); x = st.atom("L", a.facts); y = st.atom("R", a.facts)
            st.inst(it, e)
            st.assume(a.len == st.atoms[x].len + st.atoms[y].len + 1)
            st.setexp(it, (x, e, y)); l, r = items[:k] + [x], [y] + items[k + 1:]
        pl = st.fresh("left"); pr = st.fresh("right")
        if st.decide(z3.Bool("even_%s" % s.p)): hl = hr = simp(s.h - 1)
        elif st.decide(z3.Bool("left_higher_%s" % s.p)): hl = simp(s.h - 1); hr = simp(s.h - 2); st.assume(UGE(s.h, BV(2)))
        else: hl = simp(s.h - 2); hr = simp(s.h - 1); st.assume(UGE(s.h, BV(2)))
        o = Obj(s.p, lay.size, {}, "node", TAG); o.lay = lay
        o.fields[lay.prev] = (8, pl); o.fields[lay.next] = (8, pr); o.fields[lay.data] = (8, e.data); o.fields[lay.index] = (8, s.h)
        st.add(o); mk_tree(st, pl, hl, l); mk_tree(st, pr, hr, r)
    def same(s, st, o): return isinstance(o, TREE) and o.p.eq(s.p) and o.h.eq(s.h) and [repr(x) for x in o.word] == [repr(x) for x in s.word]
    def __repr__(s): return "TREE(%s h=%s %s)" % (s.p, s.h, s.word)
def mk_tree(st, p, h, word):
    c = TREE(p, h, word)
    # a balanced tree of height 93 has more nodes than there are addresses
    st.assume(AND((h == 0) == (p == 0), ULT(h, BV(HMAX)), ULT(p, BV(1 << 62))))
    st.assume((h == 0) == (st.length(word) == 0))
    return st.add(c)

def fold_tree(st, p, label, exact=True):
    """consumes the balanced tree with root p: (height, word)"""
    lay = st.eng.tl
    for c in st.heap:
        if isinstance(c, TREE) and (c.p.eq(p) or st.holds(c.p == p)): st.remove(c); return c.h, c.word
    if st.decide(p == 0): return BV(0), []
    for c in st.heap:
        if isinstance(c, Obj) and c.kind == "node" and (c.base.eq(p) or st.decide(c.base == p)):
            st.remove(c)
            e = Elem(c.base, st.objload(c, lay.data, 8), BV(0))
            hl, wl = fold_tree(st, st.objload(c, lay.prev, 8), label); hr, wr = fold_tree(st, st.objload(c, lay.next, 8), label)
            h = st.objload(c, lay.index, 8)
            st.prove(ULE(hdiff(hl, hr), BV(1)), label + ": subtrees differ in height by at most one")
            st.prove(h == hmax(hl, hr) + 1, label + ": recorded height is exact")
            return h, wl + [e] + wr
    for c in st.heap:
        if isinstance(c, TREE) and st.decide(c.p == p): st.remove(c); return c.h, c.word
    st.fail(label + ": link to a node that is not part of the tree", str(p))
def drop_empty(st):
    for c in list(st.heap):
        if isinstance(c, TREE) and st.decide(c.h == 0): st.remove(c)
def nothing_left(st, label, keep=()):
    drop_empty(st)
    for c in st.heap:
        if isinstance(c, TREE) or isinstance(c, Obj) and c.kind == "node" and not any(c.base.eq(k) or st.holds(c.base == k) for k in keep): st.fail(label + ": no node is lost", repr(c))

def same_tree(st, p, word, label):
    h, w = fold_tree(st, p, label); prove_word(st, w, word, label + ": the same objects in the same order"); return h

# --------------------------------------------------------------------------------- comparison
def mk_order(st, arg, kind="node"):
    """comparison function; when it compares with the fixed search argument, the argument has a key of its own"""
    f = st.fresh("cmp"); k = z3.Int(st.freshname("K"))
    def h(s, a):
        s.ghost["ncmp"] = simp(s.ghost.get("ncmp", BV(0)) + 1)
        x, y = a[0].v, a[1].v
        kx = k if arg is not None and (x.eq(arg) or s.holds(x == arg)) else KEY(x)
        c = s.fresh("order", 32); ky = KEY(y)
        s.assume(AND((c < 0) == (kx < ky), (c == 0) == (kx == ky)))
        return Val(c, I32)
    st.fptr = dict(st.fptr); st.fptr[f.get_id()] = (h, f)
    return f, k
def below(k):
    f = lambda e: KEY(e.data) < k
    return f
def split_word(st, k, found):
    """a strictly increasing sequence seen from a key: smaller elements, the one with the key if any, larger elements"""
    lo, hi = (lambda e: KEY(e.data) < k), (lambda e: KEY(e.data) > k)
    a = st.atom("A", (lo,)); b = st.atom("Z", (hi,))
    if not found: return [a, b], None, a, b
    x = Elem(st.fresh("member"), st.fresh("mdata"), BV(0)); st.assume(KEY(x.data) == k); st.assume(AND(x.addr != 0, ULT(x.addr, BV(1 << 62))))
    return [a, x, b], x, a, b
def classify(st, word, k, label):
    """the split of a word at key k: (smaller, x or None, larger)"""
    w = norm(st, word); lo = []; hi = []; x = None
    for it in w:
        if isinstance(it, Elem):
            if x is None and not hi and st.holds(KEY(it.data) < k): lo.append(it)
            elif st.holds(KEY(it.data) > k): hi.append(it)
            elif x is None and not hi and st.decide(KEY(it.data) == k): x = it
            elif st.holds(KEY(it.data) < k) and x is None and not hi: lo.append(it)
            else: st.fail(label + ": elements are in increasing order", str(w))
        elif not hi and x is None and holds_all(st, it, lambda e: KEY(e.data) < k): lo.append(it)
        elif holds_all(st, it, lambda e: KEY(e.data) > k): hi.append(it)
        else: st.fail(label + ": elements are in increasing order", str(w))
    return lo, x, hi

# --------------------------------------------------------------------------------- contracts
def subtree(st, p, label):
    """the tree at p in the heap, folded and removed"""
    return fold_tree(st, p, label)
def new_tree(st, word, lo, hi):
    p = st.fresh("root"); h = st.fresh("height"); st.assume(AND(UGE(h, lo), ULE(h, hi)))
    mk_tree(st, p, h, word); return p, h
def root_obj(st, p):
    for c in st.heap:
        if isinstance(c, Obj) and c.kind == "node" and c.base.eq(p): return c
    o, off = st.resolve(p, 8, "root"); return o
def balance_apply(eng, st, a):
    lay = eng.tl; p = a[0].v; o = root_obj(st, p)
    e = Elem(o.base, st.objload(o, lay.data, 8), BV(0))
    two_even = even_children(st, st.objload(o, lay.prev, 8), st.objload(o, lay.next, 8))
    hl, wl = fold_tree(st, st.objload(o, lay.prev, 8), "precondition of balance"); hr, wr = fold_tree(st, st.objload(o, lay.next, 8), "precondition of balance")
    m = st.ghost.get("bmeasure")
    if m is not None: st.prove(OR(ULE(hdiff(hl, hr), BV(2)), ULT(hmax(hl, hr), m)), "rebalancing terminates: the recursion works on lower trees, or on trees off by at most two")
    st.remove(root_obj(st, p))
    if st.decide(ULE(hdiff(hl, hr), BV(1))):
        # nothing to do but to record the height
        mk_tree(st, st.objload(o, lay.prev, 8), hl, wl); mk_tree(st, st.objload(o, lay.next, 8), hr, wr); st.add(o); st.objstore(o, lay.index, 8, simp(hmax(hl, hr) + 1))
        return Val(o.base, eng.nodep)
    mx = simp(hmax(hl, hr)); q, h = new_tree(st, wl + [e] + wr, mx, simp(mx + 1))
    if two_even: st.assume(h == mx + 1)
    st.assume(h != 0)
    st.writes.append(("tree", None, 0))
    return Val(q, eng.nodep)
def even_children(st, l, r):
    """do the subtrees differ by two, and the two subtrees of the higher one have the same height?"""
    t = st.copy(); lay = st.eng.tl; kids = []
    for p in (l, r):
        o = [c for c in t.heap if isinstance(c, Obj) and c.kind == "node" and c.base.eq(p)]
        if o:
            u = t.copy(); a, _ = fold_tree(u, u.objload(o[0], lay.prev, 8), "height"); b, _ = fold_tree(u, u.objload(o[0], lay.next, 8), "height"); kids.append((a, b))
        else: kids.append(None)
    hl, _ = fold_tree(t, l, "height"); hr, _ = fold_tree(t, r, "height")
    if kids[0] and st.holds(AND(hl == hr + 2, kids[0][0] == kids[0][1])): return True
    return bool(kids[1] and st.holds(AND(hr == hl + 2, kids[1][0] == kids[1][1])))
def move_apply(eng, st, a):
    p, r = a[0].v, a[1].v
    h1, w1 = fold_tree(st, p, "precondition of move_right"); h2, w2 = fold_tree(st, r, "precondition of move_right")
    m = st.ghost.get("measure")
    if m is not None: st.prove(ULT(h1, m), "recursion terminates: lower tree")
    q, h = new_tree(st, w1 + w2, BV(0), BV(HMAX - 1)); st.writes.append(("tree", None, 0))
    return Val(q, eng.nodep)
def enter_rec(st, h):
    m = st.ghost.get("measure")
    if m is not None: st.prove(ULT(h, m), "recursion terminates: lower tree")
def charge(st, h):
    """comparisons made by a call on a tree of height h"""
    n = st.fresh("ncmp"); st.assume(ULE(n, h)); st.ghost["ncmp"] = simp(st.ghost.get("ncmp", BV(0)) + n)
def insert_apply(eng, st, a):
    t = st.ghost["ctx"]; p, let = a[1].v, a[2].v
    st.prove(a[0].v == t.cmp, "the comparison of the tree is used")
    h, w = fold_tree(st, p, "precondition of insert_node"); enter_rec(st, h)
    n = st.load(let, 8); o = root_obj(st, n); lay = eng.tl
    d = st.objload(o, lay.data, 8)
    st.prove(AND(st.objload(o, lay.prev, 8) == 0, st.objload(o, lay.next, 8) == 0, st.objload(o, lay.index, 8) == 1), "precondition of insert_node: the new node is a leaf")
    lo, x, hi = classify(st, w, KEY(d), "precondition of insert_node"); charge(st, h)
    if x is not None:
        q, hh = new_tree(st, w, h, h); st.store(let, 8, x.addr)
    else:
        st.remove(root_obj(st, n)); q, hh = new_tree(st, lo + [Elem(o.base, d, BV(0))] + hi, BV(1), BV(HMAX - 1))
    st.writes.append(("tree", None, 0))
    return Val(q, eng.nodep)
def remove_apply(eng, st, a):
    t = st.ghost["ctx"]; p, data, let = a[1].v, a[2].v, a[3].v
    st.prove(AND(a[0].v == t.cmp, data == t.arg), "the comparison of the tree and the argument are used")
    h, w = fold_tree(st, p, "precondition of remove_node"); enter_rec(st, h)
    lo, x, hi = classify(st, w, t.k, "precondition of remove_node"); charge(st, h)
    if x is not None:
        st.store(let, 8, x.addr); take_out(st, x)
        q, hh = new_tree(st, lo + hi, BV(0), BV(HMAX - 1))
    else: q, hh = new_tree(st, w, h, h)
    st.writes.append(("tree", None, 0))
    return Val(q, eng.nodep)
def take_out(st, x):
    lay = st.eng.tl; o = Obj(x.addr, lay.size, {}, "node", TAG); o.lay = lay
    o.fields[lay.prev] = (8, st.fresh("junk")); o.fields[lay.next] = (8, st.fresh("junk")); o.fields[lay.data] = (8, x.data); o.fields[lay.index] = (8, st.fresh("junk")); st.add(o)
def search_apply(eng, st, a):
    t = st.ghost["ctx"]; p, data = a[1].v, a[2].v
    st.prove(AND(a[0].v == t.cmp, data == t.arg), "the given comparison and argument are used")
    h, w = fold_tree(st, p, "precondition of search_node"); enter_rec(st, h)
    lo, x, hi = classify(st, w, t.k, "precondition of search_node"); charge(st, h)
    mk_tree(st, p, h, w)
    return Val(x.addr if x is not None else BV(0), eng.nodep)
def foreach_apply(eng, st, a):
    t = st.ghost["ctx"]; p = a[0].v
    st.prove(AND(a[1].v == t.func, *([a[2].v == t.farg] if len(a) > 2 else [])), "the given function and argument are used")
    h, w = fold_tree(st, p, "precondition of foreach_node"); enter_rec(st, h)
    R = norm(st, st.ghost["R"]); w = norm(st, w)
    prove_word(st, R[:len(w)], w, "iteration in order"); st.ghost["R"] = R[len(w):]
    return None

# ------------------------------------------------------------------------------------- loops
class TreeDown(LoopBase):
    """a cursor goes down the tree: the object searched for, if stored, is in the subtree at the cursor"""
    @classmethod
    def matches(cls, eng, st, fr, lp):
        if getattr(st.ghost.get("ctx"), "k", None) is None or not hasattr(st.ghost["ctx"], "x"): return
        for v, t in ptr_locals(fr, lp):
            x = locv(fr, v)
            for c in st.heap:
                if isinstance(c, TREE) and (c.p.eq(x) or st.holds(c.p == x)):
                    i = cls(); i.cur = v; i.tree = c; i.depth = len(st.frames); i.lp = lp; yield i; break
    def enter(s, eng, st):
        fr = st.frames[-1]; t = st.ghost["ctx"]
        c = [c for c in st.heap if isinstance(c, TREE) and c.p.eq(s.tree.p)][0]
        lo, x, hi = classify(st, c.word, t.k, "tree"); s.x = x; k = t.k
        st.remove(c); s.havoc_locals(st, fr, s.lp)
        s.h = st.fresh("h"); st.assume(ULE(s.h, c.h)); p = st.fresh("cursor"); fr.env[s.cur] = Val(p, fr.func.locals[s.cur])
        A = st.atom("A", (lambda e: KEY(e.data) < k,)); Z = st.atom("Z", (lambda e: KEY(e.data) > k,))
        s.n0 = st.ghost.get("ncmp", BV(0)); n = st.fresh("ncmp"); s.h0 = c.h
        st.assume(AND(ULE(n, s.n0 + c.h - s.h), UGE(n, s.n0), ULE(s.n0, BV(1 << 20)))); st.ghost["ncmp"] = n
        mk_tree(st, p, s.h, [A] + ([x] if x is not None else []) + [Z])
        s.writes = [w for w in st.writes if w[0] != "stack"]; s.frame_start(eng, st, [c for c in st.heap if isinstance(c, TREE) and c.p.eq(p)])
    def check(s, eng, st):
        fr = st.frames[-1]; t = st.ghost["ctx"]
        if len([w for w in st.writes if w[0] != "stack"]) != len(s.writes): st.fail("loop invariant: nothing is modified on the way down", str(st.writes[-1]))
        h, w = fold_tree(st, locv(fr, s.cur), "loop invariant: subtree")
        st.prove(ULT(h, s.h), "loop makes progress (termination)")
        lo, x, hi = classify(st, w, t.k, "loop invariant: subtree")
        if (x is None) != (s.x is None) or x is not None and not st.holds(x.addr == s.x.addr): st.fail("loop invariant: the object searched for is in the subtree", str(w))
        st.prove(ULE(st.ghost["ncmp"], s.n0 + s.h0 - h), "loop invariant: one comparison for each level")
        drop_empty(st)
        for c in [c for c in st.heap if isinstance(c, TREE) or isinstance(c, Obj) and c.kind == "node"]:
            if not any(f is c for _, f in s.frame): st.remove(c)      # the part of the tree left behind, unmodified
        s.frame_check(eng, st)
class TreeEach(LoopBase):
    """a cursor goes down the right side while everything before its subtree has been visited"""
    @classmethod
    def matches(cls, eng, st, fr, lp):
        if "R" not in st.ghost: return
        for v, t in ptr_locals(fr, lp):
            x = locv(fr, v)
            for c in st.heap:
                if isinstance(c, TREE) and (c.p.eq(x) or st.holds(c.p == x)):
                    i = cls(); i.cur = v; i.tree = c; i.depth = len(st.frames); i.lp = lp; yield i; break
    def enter(s, eng, st):
        fr = st.frames[-1]
        c = [c for c in st.heap if isinstance(c, TREE) and c.p.eq(s.tree.p)][0]
        R = norm(st, st.ghost["R"]); w = norm(st, c.word)
        prove_word(st, R[:len(w)], w, "iteration in order")
        st.remove(c); s.havoc_locals(st, fr, s.lp); s.rest = R[len(w):]
        s.h = st.fresh("h"); st.assume(ULE(s.h, c.h)); p = st.fresh("cursor"); fr.env[s.cur] = Val(p, fr.func.locals[s.cur])
        S = st.atom("S", common_facts(st, w)); st.ghost["R"] = [S] + s.rest
        mk_tree(st, p, s.h, [S]); s.frame_start(eng, st, [c for c in st.heap if isinstance(c, TREE) and c.p.eq(p)])
    def check(s, eng, st):
        fr = st.frames[-1]
        h, w = fold_tree(st, locv(fr, s.cur), "loop invariant: subtree")
        st.prove(ULT(h, s.h), "loop makes progress (termination)")
        prove_word(st, norm(st, st.ghost["R"]), norm(st, w) + norm(st, s.rest), "loop invariant: every object before the subtree has been visited")
        drop_empty(st); left = s.frame_check(eng, st)
        for c in left:
            if isinstance(c, TREE) or isinstance(c, Obj) and c.kind == "node": st.fail("loop invariant: no node is lost", repr(c))

CONTRACTS = {"tommy_tree_balance": (balance_apply, 1), "tommy_tree_move_right": (move_apply, 2), "tommy_tree_insert_node": (insert_apply, 3), "tommy_tree_remove_node": (remove_apply, 4),
  "tommy_tree_search_node": (search_apply, 3), "tommy_tree_foreach_node": (foreach_apply, 2), "tommy_tree_foreach_arg_node": (foreach_apply, 3)}
def E(u):
    e = Engine(u); e.templates = [TreeDown, TreeEach]
    e.tl = Layout(u, TAG); e.nodep = TPtr(u.structs[TAG])
    for n, (f, k) in CONTRACTS.items():
        fn = u.funcs.get(n)
        if fn is not None and len(fn.params) == k: e.contracts[n] = Contract(f)
    return e
def E0(u):
    e = E(u); del e.contracts["tommy_tree_balance"]; e.maxrec = 7; return e

def mk_node_tree(st, eng, hl, hr, higher=None):
    lay = eng.tl; p = st.fresh("root"); d = st.fresh("data"); pl = st.fresh("left"); pr = st.fresh("right")
    o = Obj(p, lay.size, {}, "node", TAG); o.lay = lay
    o.fields[lay.prev] = (8, pl); o.fields[lay.next] = (8, pr); o.fields[lay.data] = (8, d); o.fields[lay.index] = (8, st.fresh("junk"))
    st.add(o); w = []; kids = None
    for q, h, n in ((pl, hl, "L"), (pr, hr, "R")):
        c = mk_tree(st, q, h, [st.atom("W" + n)]); w.append(list(c.word))
        if n == higher: c.unfold(st, None); x = getobj(st, q); f = lambda off: [c.h for c in st.heap if isinstance(c, TREE) and c.p.eq(st.objload(x, off, 8))][0]; kids = (f(lay.prev), f(lay.next))
    return p, w[0] + [Elem(p, d, BV(0))] + w[1], kids
def T_balance(kind):
    def setup(e, st):
        t = Ctx(); hl = st.fresh("hl"); hr = st.fresh("hr")
        for h in (hl, hr): st.assume(ULT(h, BV(HMAX - 8)))
        if kind == "even": st.assume(ULE(hdiff(hl, hr), BV(1)))
        elif kind == "left": hl = simp(hr + 2)
        elif kind == "right": hr = simp(hl + 2)
        elif kind == "farleft": st.assume(UGT(hl, simp(hr + 2)))
        else: st.assume(UGT(hr, simp(hl + 2)))
        t.p, t.word, t.kids = mk_node_tree(st, e, hl, hr, {"left": "L", "right": "R"}.get(kind))
        t.hl = hl; t.hr = hr
        if kind[:3] == "far": st.ghost["bmeasure"] = simp(hmax(hl, hr))
        o = getobj(st, t.p); t.pl = st.objload(o, e.tl.prev, 8); t.pr = st.objload(o, e.tl.next, 8)
        return [Val(t.p, e.nodep)], t
    def post(st, ret, t):
        m = hmax(t.hl, t.hr); lay = st.eng.tl
        if kind == "even":
            st.prove(ret.v == t.p, "a balanced node stays the root"); o = getobj(st, t.p)
            st.prove(AND(st.objload(o, lay.prev, 8) == t.pl, st.objload(o, lay.next, 8) == t.pr), "a balanced node keeps its subtrees")
        h = same_tree(st, ret.v, t.word, "balanced tree"); nothing_left(st, "balanced tree")
        st.prove(AND(UGE(h, m), ULE(h, m + 1), h != 0, h == m + 1 if kind == "even" else TRUE), "height after rebalancing")
        if t.kids: st.prove(IMP(t.kids[0] == t.kids[1], h == m + 1), "height after rebalancing")
    return Task("tommy_tree_balance [%s]" % {"even": "balanced", "left": "left higher by 2", "right": "right higher by 2", "farleft": "left higher by more", "farright": "right higher by more"}[kind], "tommy_tree_balance", setup, post, {"C08", "C07"}, E if kind[:3] == "far" else E0, deadline=200)
def T_move():
    def setup(e, st):
        t = Ctx(); a = st.atom("W1"); b = st.atom("W2"); t.word = [a, b]; t.h1 = st.fresh("h1"); t.h2 = st.fresh("h2")
        p = st.fresh("p"); q = st.fresh("q"); mk_tree(st, p, t.h1, [a]); mk_tree(st, q, t.h2, [b]); st.ghost["measure"] = t.h1
        st.assume(AND(ULT(t.h1, BV(HMAX - 8)), ULT(t.h2, BV(HMAX - 8))))
        return [Val(p, e.nodep), Val(q, e.nodep)], t
    def post(st, ret, t):
        h = same_tree(st, ret.v, t.word, "joined tree"); nothing_left(st, "joined tree")
    return Task("tommy_tree_move_right", "tommy_tree_move_right", setup, post, {"C07", "C08"}, E, deadline=200)
def T_insert_node(found):
    def setup(e, st):
        t = Ctx(); lay = e.tl; t.arg = None; t.cmp, _ = mk_order(st, None)
        t.d = st.fresh("newdata"); t.word, t.x, A, Z = split_word(st, KEY(t.d), found); t.h = st.fresh("h"); p = st.fresh("root"); mk_tree(st, p, t.h, t.word)
        st.assume(ULT(t.h, BV(HMAX - 8)))
        n = st.fresh("node"); o = Obj(n, lay.size, {}, "node", TAG); o.lay = lay; t.n = n
        for f, v in ((lay.prev, BV(0)), (lay.next, BV(0)), (lay.data, t.d), (lay.index, BV(1))): o.fields[f] = (8, v)
        st.add(o); let = st.fresh("let"); st.add(Obj(let, 8, {0: (8, n)}, "obj")); t.let = let; t.want = [A, Elem(n, t.d, BV(0)), Z]
        st.ghost["measure"] = t.h
        return [ptr(t.cmp), Val(p, e.nodep), ptr(let)], t
    def post(st, ret, t):
        l = st.objload(getobj(st, t.let), 0, 8); st.prove(ULE(st.ghost.get("ncmp", BV(0)), t.h), "no more comparisons than the height")
        if t.x is not None:
            st.prove(l == t.x.addr, "the stored object with the key is reported"); h = same_tree(st, ret.v, t.word, "tree"); st.prove(h == t.h, "tree: unchanged")
            nothing_left(st, "tree", [t.n])
        else:
            st.prove(l == t.n, "the new node is stored"); h = same_tree(st, ret.v, t.want, "tree")
            nothing_left(st, "tree")
    return Task("tommy_tree_insert_node [key %s]" % ("present" if found else "absent"), "tommy_tree_insert_node", setup, post, {"C07", "C08"}, E, deps={"C20"}, deadline=200)
def T_remove_node(found):
    def setup(e, st):
        t = Ctx(); t.arg = st.fresh("arg"); t.cmp, t.k = mk_order(st, t.arg)
        t.word, t.x, A, Z = split_word(st, t.k, found); t.h = st.fresh("h"); p = st.fresh("root"); mk_tree(st, p, t.h, t.word); t.want = [A, Z]
        st.assume(ULT(t.h, BV(HMAX - 8))); let = st.fresh("let"); t.l0 = st.fresh("l0"); st.add(Obj(let, 8, {0: (8, t.l0)}, "obj")); t.let = let
        st.ghost["measure"] = t.h
        return [ptr(t.cmp), Val(p, e.nodep), ptr(t.arg), ptr(let)], t
    def post(st, ret, t):
        l = st.objload(getobj(st, t.let), 0, 8); st.prove(ULE(st.ghost.get("ncmp", BV(0)), t.h), "no more comparisons than the height")
        h = same_tree(st, ret.v, t.want, "tree")
        if t.x is not None:
            st.prove(l == t.x.addr, "exactly the object with the key is taken out")
            for c in st.heap:
                if isinstance(c, Obj) and c.kind == "node" and (c.base.eq(t.x.addr) or st.holds(c.base == t.x.addr)): st.prove(st.objload(c, st.eng.tl.data, 8) == t.x.data, "removed node keeps its object"); break
            else: st.fail("removed node is handed over")
            nothing_left(st, "tree", [t.x.addr])
        else: st.prove(l == t.l0, "nothing is reported if there is no such key"); nothing_left(st, "tree")
    return Task("tommy_tree_remove_node [key %s]" % ("present" if found else "absent"), "tommy_tree_remove_node", setup, post, {"C07", "C08"}, E, deps={"C20"}, deadline=200)
def T_search_node(found):
    def setup(e, st):
        t = Ctx(); t.arg = st.fresh("arg"); t.cmp, t.k = mk_order(st, t.arg)
        t.word, t.x, A, Z = split_word(st, t.k, found); t.h = st.fresh("h"); t.p = st.fresh("root"); mk_tree(st, t.p, t.h, t.word); st.ghost["measure"] = t.h
        return [ptr(t.cmp), Val(t.p, e.nodep), ptr(t.arg)], t
    def post(st, ret, t):
        no_writes(st); st.prove(ret.v == (t.x.addr if t.x is not None else BV(0)), "the object with the key is found, nothing only if there is none")
        st.prove(ULE(st.ghost.get("ncmp", BV(0)), t.h), "no more comparisons than the height")
    return Task("tommy_tree_search_node [key %s]" % ("present" if found else "absent"), "tommy_tree_search_node", setup, post, {"C07", "C08"}, E)

# whole tree
def mk_whole(e, st, word):
    t = Ctx(); ts = e.u.structs["tommy_tree_struct"]; t.ts = ts; t.base = st.fresh("tree"); o = Obj(t.base, ts.size, {}, "obj", "tommy_tree_struct")
    t.root = st.fresh("root"); t.h = st.fresh("h"); t.word = word; t.cmp = None
    st.assume(ULT(t.h, BV(HMAX - 8)))
    t.count = st.fresh("count"); st.assume(t.count == st.length(word))
    g = lambda n: ts.fields[n][0]
    o.fields[g("root")] = (8, t.root); o.fields[g("count")] = (8, t.count); t.o = o; st.add(o)
    mk_tree(st, t.root, t.h, word)
    return t
def setcmp(t, f): t.cmp = f; t.o.fields[t.ts.fields["cmp"][0]] = (8, f)
def wf(st, t, want, dcount, label="tree", keep=()):
    o = getobj(st, t.base); g = lambda n: st.objload(o, t.ts.fields[n][0], 8)
    same_tree(st, g("root"), want, label); nothing_left(st, label, keep)
    if t.cmp is not None: st.prove(g("cmp") == t.cmp, label + ": comparison is kept")
    st.prove(g("count") == t.count + BV(dcount), label + ": count equals the number of stored objects")
def T_insert(found):
    def setup(e, st):
        d = st.fresh("newdata"); w, x, A, Z = split_word(st, KEY(d), found); t = mk_whole(e, st, w); f, _ = mk_order(st, None); setcmp(t, f); t.arg = None
        t.x = x; t.d = d; lay = e.tl; n = st.fresh("node"); o = Obj(n, lay.size, {}, "node", TAG); o.lay = lay; st.add(o); t.n = n; t.want = [A, Elem(n, d, BV(0)), Z]
        return [ptr(t.base), Val(n, e.nodep), ptr(d)], t
    def post(st, ret, t):
        if t.x is not None: st.prove(ret.v == t.x.data, "the object already stored is returned"); wf(st, t, t.word, 0, keep=[t.n])
        else: st.prove(ret.v == t.d, "the new object is returned"); wf(st, t, t.want, 1)
        st.prove(ULE(st.ghost.get("ncmp", BV(0)), t.h), "no more comparisons than the height")
    return Task("tommy_tree_insert [key %s]" % ("present" if found else "absent"), "tommy_tree_insert", setup, post, {"C07", "C08", "C20"}, E)
def T_remove(found, fn="tommy_tree_remove"):
    ex = fn.endswith("existing")
    def setup(e, st):
        arg = st.fresh("arg"); f, k = mk_order(st, arg)
        w, x, A, Z = split_word(st, k, found); t = mk_whole(e, st, w); setcmp(t, f); t.arg = arg; t.k = k; t.x = x; t.want = [A, Z]
        if ex: st.assume(AND(x.data == arg, KEY(x.data) == k, x.data != 0)); return [ptr(t.base), Val(x.addr, e.nodep)], t
        return [ptr(t.base), ptr(arg)], t
    def post(st, ret, t):
        st.prove(ret.v == (t.x.data if t.x is not None else BV(0)), "the object with the key is returned, nothing only if there is none")
        wf(st, t, t.want, -1 if t.x is not None else 0, keep=[t.x.addr] if t.x is not None else [])
        st.prove(ULE(st.ghost.get("ncmp", BV(0)), t.h), "no more comparisons than the height")
    return Task(fn + ("" if ex else " [key %s]" % ("present" if found else "absent")), fn, setup, post, {"C07", "C08", "C20"}, E)
def T_search(found, fn):
    def setup(e, st):
        arg = st.fresh("arg"); f, k = mk_order(st, arg)
        w, x, A, Z = split_word(st, k, found); t = mk_whole(e, st, w); t.arg = arg; t.k = k; t.x = x
        if fn == "tommy_tree_search": setcmp(t, f); a = [ptr(t.base), ptr(arg)]
        else: t.cmp = f; a = [ptr(t.base), ptr(f), ptr(arg)]
        return a, t
    def post(st, ret, t):
        no_writes(st); st.prove(ret.v == (t.x.data if t.x is not None else BV(0)), "the object with the key is found, nothing only if there is none")
        st.prove(ULE(st.ghost.get("ncmp", BV(0)), t.h), "no more comparisons than the height")
    return Task(fn + " [key %s]" % ("present" if found else "absent"), fn, setup, post, {"C07", "C08"}, E)
def T_init():
    def setup(e, st):
        t = Ctx(); t.ts = e.u.structs["tommy_tree_struct"]; t.base = st.fresh("tree"); st.add(Obj(t.base, t.ts.size, {}, "obj")); t.cmp = st.fresh("cmp"); t.count = BV(0); return [ptr(t.base), ptr(t.cmp)], t
    def post(st, ret, t): wf(st, t, [], 0)
    return Task("tommy_tree_init", "tommy_tree_init", setup, post, {"C07", "C08", "C20"}, E)
def T_plain(fn, what):
    def setup(e, st):
        t = mk_whole(e, st, [st.atom("W")]); t.z = e.tl.size; return [ptr(t.base)], t
    def post(st, ret, t): no_writes(st); st.prove(ret.v == what(t), "reports exactly what is stored")
    return Task(fn, fn, setup, post, {"C20"}, E)
def mk_func(st, t, witharg):
    """a function that takes every object over together with its node; objects arrive in the order of R"""
    t.func = st.fresh("func"); t.farg = st.fresh("farg") if witharg else None
    def h(s, a):
        if witharg: s.prove(a[0].v == t.farg, "the argument is passed on")
        d = a[-1].v
        R = norm(s, s.ghost["R"])
        if not R: s.fail("nothing but the stored objects is visited")
        if not isinstance(R[0], Elem): s.fail("iteration visits the objects in order", str(R))
        s.prove(d == R[0].data, "iteration visits every stored object, in order"); s.ghost["R"] = R[1:]
        o = [c for c in s.heap if isinstance(c, Obj) and c.kind == "node" and (c.base.eq(R[0].addr) or s.holds(c.base == R[0].addr))]
        if len(o) != 1: s.fail("visited object is stored")
        s.remove(o[0])          # from now on it is not to be accessed
        return Val(BV(0), VOIDP)
    st.fptr = dict(st.fptr); st.fptr[t.func.get_id()] = (h, t.func)
def T_foreach(fn, witharg, node):
    def setup(e, st):
        W = st.atom("W")
        if node:
            t = Ctx(); t.h = st.fresh("h"); t.p = st.fresh("root"); mk_tree(st, t.p, t.h, [W]); st.ghost["measure"] = t.h; t.rest = st.atom("REST"); st.ghost["R"] = [W, t.rest]
        else: t = mk_whole(e, st, [W]); st.ghost["R"] = [W]; t.rest = None
        mk_func(st, t, witharg)
        return ([Val(t.p, e.nodep)] if node else [ptr(t.base)]) + [ptr(t.func)] + ([ptr(t.farg)] if witharg else []), t
    def post(st, ret, t):
        no_writes(st, "iteration modifies nothing"); prove_word(st, st.ghost["R"], [t.rest] if t.rest else [], "every object is visited exactly once"); nothing_left(st, "iteration")
    return Task(fn, fn, setup, post, {"C18", "C07"}, E)
class HeightLemma(Task):
    """a balanced tree of height h has at least N(h) = 1 + N(h-1) + N(h-2) nodes, hence at most 1.45 log2(n + 2) levels (induction on the height)"""
    def __init__(s): Task.__init__(s, "lemma: height is logarithmic", "tommy_tree_balance", None, None, {"C08"}, E)
    def run(s, eng):
        from math import log2
        r = Result(s.name); N = [0, 1]; eng.curfn = s.name
        def ob(c, what):
            STATS.obl += 1
            if not c: raise Fail(s.name, what, None, "refuted")
            STATS.discharged += 1; eng.count(s.name + " " + what)
        while N[-1] < 1 << 58: N.append(1 + N[-1] + N[-2])
        l, rr, hl, hr, h = z3.Ints("l r hl hr h")
        for k in range(2, len(N)):
            f = lambda hh, n: z3.And([z3.Implies(hh == j, n >= N[j]) for j in (k - 1, k - 2)])
            v = z3.Solver(); v.add(z3.Or(z3.And(hl == k - 1, hr == k - 1), z3.And(hl == k - 1, hr == k - 2), z3.And(hl == k - 2, hr == k - 1)), f(hl, l), f(hr, rr), l + rr + 1 < N[k])
            ob(v.check() == z3.unsat, "induction step"); ob(k <= 1.45 * log2(N[k] + 2), "logarithmic bound")
        ob(len(N) - 1 < HMAX - 8, "height of any tree that fits in memory")
        r.ok = True; return r
TASKS = [HeightLemma()] + [T_balance(k) for k in ('even', 'left', 'right', 'farleft', 'farright')] + [T_move()] + [f(b) for f in (T_insert_node, T_remove_node, T_search_node, T_insert, T_remove) for b in (True, False)]
TASKS += [T_remove(True, "tommy_tree_remove_existing"), T_init()] + [T_search(b, f) for f in ("tommy_tree_search", "tommy_tree_search_compare") for b in (True, False)]
TASKS += [T_plain("tommy_tree_count", lambda t: t.count), T_plain("tommy_tree_memory_usage", lambda t: t.count * BV(t.z))]
TASKS += [T_foreach("tommy_tree_foreach_node", False, True), T_foreach("tommy_tree_foreach_arg_node", True, True), T_foreach("tommy_tree_foreach", False, False), T_foreach("tommy_tree_foreach_arg", True, False)]

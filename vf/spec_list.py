"""C01: contracts of the list operations"""
from lib import *

def lay(eng):
    if not hasattr(eng, "lay"): eng.lay = Layout(eng.u, "tommy_node_struct")
    return eng.lay
def ptr(v, t=VOIDP): return Val(v, t)

def cell(st, name, val):
    b = st.fresh(name); st.add(Obj(b, 8, {0: (8, val)}, "cell")); return b

def no_more_nodes(st, label="no node is lost or duplicated"):
    left = nodes_left(st)
    if left: st.fail(label, "left over: %s" % left)
    STATS.obl += 1; STATS.discharged += 1; st.eng.count(st.eng.label(st, label))

def take_node(st, base, data=None, idx=None, label="node"):
    o = getobj(st, base)
    if o is None: st.fail(label + " still owned")
    L = o.lay
    if data is not None: st.prove(st.objload(o, L.data, 8) == data, label + ": data")
    if idx is not None: st.prove(st.objload(o, L.index, 8) == idx, label + ": index untouched")
    st.remove(o)

def std(eng, st):
    L = lay(eng)
    h, a = mk_list(st, "W", L)
    l = cell(st, "list", h)
    return L, h, a, l
def cellval(st, l):
    o = getobj(st, l)
    return st.objload(o, 0, 8)
def end_list(st, ctx, want, label="the list is the expected sequence"):
    w = fold_list(st, cellval(st, ctx["l"]), ctx["L"], "resulting list")
    prove_word(st, w, want, label)
    no_more_nodes(st)

def F_init(eng):
    def setup(e, st):
        l = cell(st, "list", st.fresh("junk")); return [ptr(l)], dict(l=l, L=lay(e))
    def post(st, ret, ctx): st.prove(cellval(st, ctx["l"]) == 0, "empty after init")
    return [("tommy_list_init", setup, post)]

def ins(fn, where, nonempty=None, argshape="lnd", empty=False):
    def setup(e, st):
        L, h, a, l = std(e, st)
        if nonempty: st.assume(NOT(st.empty(a)))
        if empty: st.assume(st.empty(a))
        n, o = mk_node(st, "node", L)
        d = st.fresh("data")
        ctx = dict(L=L, l=l, a=a, n=n, d=d, d0=o.fields[L.data][1], i=o.fields[L.index][1])
        args = {"lnd": [ptr(l), ptr(n), ptr(d)], "ln": [ptr(l), ptr(n)], "hn": [ptr(h), ptr(n)]}[argshape]
        return args, ctx
    def post(st, ret, ctx):
        x = Elem(ctx["n"], ctx["d"] if argshape == "lnd" else ctx["d0"], ctx["i"])
        want = [ctx["a"], x] if where == "tail" else [x, ctx["a"]] if where == "head" else [x]
        end_list(st, ctx, want)
    return (fn, setup, post)

def member(e, st):
    L = lay(e)
    h = st.fresh("head"); t = st.fresh("tail"); l1 = st.fresh("p"); n2 = st.fresh("n")
    n = st.fresh("node")
    a = st.atom("A"); b = st.atom("B")
    o = st.mknode(n, n2, l1, L); st.add(o)
    st.add(Seg(a, h, t, l1, n, L)); st.add(Seg(b, n2, n, t, BV(0), L))
    l = cell(st, "list", h)
    return dict(L=L, l=l, h=h, a=a, b=b, n=n, d=o.fields[L.data][1], i=o.fields[L.index][1])

def F_remove():
    def setup(e, st):
        c = member(e, st); return [ptr(c["l"]), ptr(c["n"])], c
    def post(st, ret, c):
        st.prove(ret.v == c["d"], "returns the object of the removed node")
        take_node(st, c["n"], c["d"], c["i"], "removed node")
        end_list(st, c, [c["a"], c["b"]])
    return ("tommy_list_remove_existing", setup, post)

def F_concat():
    def setup(e, st):
        L, h, a, l = std(e, st)
        h2, b = mk_list(st, "X", L); l2 = cell(st, "list2", h2)
        return [ptr(l), ptr(l2)], dict(L=L, l=l, a=a, b=b)
    def post(st, ret, c): end_list(st, c, [c["a"], c["b"]], "concatenation of the two sequences")
    return ("tommy_list_concat", setup, post)

def F_query(fn, chk):
    def setup(e, st):
        L, h, a, l = std(e, st)
        return [ptr(l)], dict(L=L, l=l, h=h, a=a)
    def post(st, ret, c):
        chk(st, ret.v, c)
        end_list(st, c, [c["a"]], "the list is unchanged")
    return (fn, setup, post)

def ck_head(st, r, c):
    st.prove(r == c["h"], "head of the list")
def ck_tail(st, r, c):
    e = st.empty(c["a"])
    if st.decide(e): st.prove(r == 0, "tail of an empty list is null")
    else:
        # the last node found by walking forward
        w = st.copy(); word, fp, last = fold_seg(w, cellval(w, c["l"]), None, BV(0), c["L"])
        w.prove(r == last, "tail of the list")
def ck_empty(st, r, c): st.prove((r != 0) == st.empty(c["a"]), "emptiness agrees with the sequence")
def ck_count(st, r, c): st.prove(r == st.atoms[c["a"]].len, "count agrees with the sequence")

def E(u):
    e = Engine(u); e.templates = [WalkLoop]; return e
from task import Task
def _all():
    return F_init(None) + [
        ins("tommy_list_insert_first", "only", argshape="ln", empty=True),
        ins("tommy_list_insert_head_not_empty", "head", True, "ln"),
        ins("tommy_list_insert_tail_not_empty", "tail", True, "hn"),
        ins("tommy_list_insert_head", "head"), ins("tommy_list_insert_tail", "tail"),
        F_remove(), F_concat(),
        F_query("tommy_list_head", ck_head), F_query("tommy_list_tail", ck_tail),
        F_query("tommy_list_empty", ck_empty), F_query("tommy_list_count", ck_count)]
TASKS = [Task(fn, fn, su, po, {"C01"} | ({"C20"} if fn == "tommy_list_count" else set()), E) for fn, su, po in _all()]

"""C18: contracts of the iteration of lists and hashtables (the tree is in spec_tree)"""
from tables import *
from task import Task
from spec_list import lay, ptr, cell
import spec_hash as H, spec_lin as LN
from spec_hash import no_writes, T as Ctx

def mk_func(st, t, witharg, ordered):
    """a function that takes over the object and its node: neither may be accessed after its call"""
    t.func = st.fresh("func"); t.farg = st.fresh("farg") if witharg else None
    def h(s, a):
        if len(a) != (2 if witharg else 1): s.fail("the function is called with the right arguments")
        if witharg: s.prove(a[0].v == t.farg, "the argument is passed on")
        d = a[-1].v
        o = [c for c in s.heap if isinstance(c, Obj) and c.kind == "node"]
        if ordered:
            R = norm(s, s.ghost["R"])
            if not R: s.fail("nothing but the stored objects is visited")
            if not isinstance(R[0], Elem): s.fail("iteration visits the objects in order", str(R))
            s.prove(d == R[0].data, "iteration visits every stored object, in order"); s.ghost["R"] = R[1:]
            o = [c for c in o if c.base.eq(R[0].addr) or s.holds(c.base == R[0].addr)]
        else: o = [c for c in o if s.objload(c, c.lay.data, 8).eq(d) or s.holds(s.objload(c, c.lay.data, 8) == d)]
        if not o: s.fail("the function is called for stored objects not visited before, and with the object", "argument %s" % d)
        s.remove(o[0])
        return Val(BV(0), VOIDP)
    st.fptr = dict(st.fptr); st.fptr[t.func.get_id()] = (h, t.func)
def args(t, p): return [p, ptr(t.func)] + ([ptr(t.farg)] if t.farg is not None else [])
def all_visited(st):
    no_writes(st, "iteration modifies nothing")
    for c in list(st.heap):
        if isinstance(c, Slots) and not c.close(st): st.fail("every stored object is visited", "not every bucket is visited")
    for n in nodes_left(st): st.fail("every stored object is visited", repr(n))
    STATS.obl += 1; STATS.discharged += 1; st.eng.count(st.eng.label(st, "every stored object is visited exactly once"))
def T_list(fn, witharg):
    def setup(e, st):
        t = Ctx(); L = lay(e); h, a = mk_list(st, "W", L); t.l = cell(st, "list", h)
        st.ghost["R"] = [a]; mk_func(st, t, witharg, True); return args(t, ptr(t.l)), t
    def post(st, ret, t):
        all_visited(st); prove_word(st, st.ghost["R"], [], "every object is visited exactly once, front to back")
    return Task(fn, fn, setup, post, {"C18"}, E, consume=True)
def T_hash(k, fn, witharg):
    def setup(e, st):
        t = H.mk_table(e, st, k, sized=False); mk_func(st, t, witharg, False); return args(t, ptr(t.base)), t
    return Task(fn, fn, setup, lambda st, ret, t: all_visited(st), {"C18"}, E, consume=True)
def T_lin(fn, witharg):
    def setup(e, st):
        t = LN.mk_lin(e, st, sized=None); mk_func(st, t, witharg, False); return args(t, ptr(t.base)), t
    return Task(fn, fn, setup, lambda st, ret, t: all_visited(st), {"C18"}, E, consume=True)
def E(u):
    e = Engine(u); e.templates = [WalkLoop, RangeLoop]; return e
TASKS = []
for sfx, w in (("", False), ("_arg", True)):
    TASKS += [T_list("tommy_list_foreach" + sfx, w), T_hash(H.KT, "tommy_hashtable_foreach" + sfx, w), T_hash(H.KD, "tommy_hashdyn_foreach" + sfx, w), T_lin("tommy_hashlin_foreach" + sfx, w)]

"""Linear equalities modulo 2^64, and slicing of path conditions (both only ever make a proof cheaper)."""
import z3
M = (1 << 64) - 1
def lin(t, d=None, k=1):
    """term -> {leaf id: coefficient}, leaves"""
    if d is None: d = {}
    if z3.is_bv_value(t): d[0] = (d.get(0, (0, None))[0] + k * t.as_long()) & M, None; return d
    if z3.is_app(t):
        o = t.decl().kind()
        if o == z3.Z3_OP_BADD:
            for c in t.children(): lin(c, d, k)
            return d
        if o == z3.Z3_OP_BSUB:
            ch = t.children(); lin(ch[0], d, k)
            for c in ch[1:]: lin(c, d, -k)
            return d
        if o == z3.Z3_OP_BNEG: return lin(t.arg(0), d, -k)
        if o == z3.Z3_OP_BMUL and t.num_args() == 2 and z3.is_bv_value(t.arg(0)): return lin(t.arg(1), d, k * t.arg(0).as_long())
        if t.size() == 64:
            if o == z3.Z3_OP_BNOT: d[0] = (d.get(0, (0, None))[0] - k) & M, None; return lin(t.arg(0), d, -k)
            if o == z3.Z3_OP_CONCAT and t.num_args() == 2:
                # x << n
                a, b = t.children()
                if z3.is_bv_value(b) and b.as_long() == 0 and z3.is_app_of(a, z3.Z3_OP_EXTRACT) and a.params()[1] == 0 and a.arg(0).size() == 64: return lin(a.arg(0), d, k << b.size())
    i = t.get_id() + 1
    d[i] = (d.get(i, (0, t))[0] + k) & M, t
    return d
CACHE = {}
def eqform(c):
    r = CACHE.get(c.get_id())
    if r is None:
        out = []
        stack = [c]
        while stack:
            x = stack.pop()
            if z3.is_and(x): stack.extend(x.children())
            elif z3.is_eq(x) and z3.is_bv(x.arg(0)) and x.arg(0).size() == 64:
                d = lin(x.arg(0)); lin(x.arg(1), d, -1)
                out.append({i: v[0] for i, v in d.items() if v[0]})
        CACHE[c.get_id()] = r = (c, out)
    return r[1]
def lin_holds(pc, goal):
    """goal is an equality of 64 bit terms that follows from the equalities in pc by linear arithmetic mod 2^64"""
    if z3.is_and(goal): return all(lin_holds(pc, g) for g in goal.children())
    if not (z3.is_eq(goal) and z3.is_bv(goal.arg(0)) and goal.arg(0).size() == 64): return False
    g = lin(goal.arg(0)); lin(goal.arg(1), g, -1); g = {i: v[0] for i, v in g.items() if v[0]}
    subst = {}
    def apply(e):
        work = True
        while work:
            work = False
            for i in list(e):
                s = subst.get(i)
                if s is not None:
                    k = e.pop(i)
                    for j, v in s.items():
                        x = (e.get(j, 0) + k * v) & M
                        if x: e[j] = x
                        else: e.pop(j, None)
                    work = True
        return e
    rest = []
    for c in pc:
        for e0 in eqform(c):
            e = apply(dict(e0))
            piv = None
            for i, v in e.items():
                if i != 0 and v in (1, M): piv = i
            if piv is None: continue
            v = e.pop(piv)
            # piv * v + e = 0
            s = {j: ((-x) & M if v == 1 else x) for j, x in e.items()}
            subst[piv] = s
            for q in subst:
                if piv in subst[q]: subst[q] = apply(dict(subst[q]))
    g = apply(g)
    return not g
VARS = {}
def tvars(t):
    r = VARS.get(t.get_id())
    if r is None:
        seen = set(); out = set(); work = [t]
        while work:
            x = work.pop()
            i = x.get_id()
            if i in seen: continue
            seen.add(i)
            if z3.is_app(x):
                if x.num_args() == 0:
                    if x.decl().kind() == z3.Z3_OP_UNINTERPRETED: out.add(i)
                else:
                    if x.decl().kind() == z3.Z3_OP_UNINTERPRETED: out.add(-x.decl().hash() - 1)
                    work.extend(x.children())
        VARS[t.get_id()] = r = (t, frozenset(out))
    return r[1]
def slice_pc(pc, goal, rounds=1):
    """the assertions whose variables are connected to the goal"""
    V = set(tvars(goal)); out = None
    for r in range(rounds):
        out = [c for c in pc if tvars(c) <= V]
        W = set(V)
        for c in pc:
            t = tvars(c)
            if t & V and len(t) <= 3: W |= t
        V = W
    return [c for c in pc if tvars(c) <= V]

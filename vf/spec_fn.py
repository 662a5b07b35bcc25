"""C15, C16, C17: hash functions and bit helpers"""
from tables import *
from task import Task
from spec_list import ptr
from spec_hash import T as Ctx, no_writes

# ------------------------------------------------------------------ C17
def arg(w, dom=None):
    def setup(e, st):
        t = Ctx(); t.x = st.fresh("x", w)
        if dom is not None: st.assume(dom(t.x))
        return [Val(t.x, TInt("u%d" % w, w // 8, False) if False else (U64 if w == 64 else U32))], t
    return setup
def ret_as(ret, w):
    return conv(ret.v, ret.t, U64 if w == 64 else U32)
def T_ilog(w):
    def post(st, ret, t):
        r = ret_as(ret, w); st.prove(AND(ULT(r, BV(w, w)), z3.LShR(t.x, r) == 1), "the index of the most significant one bit"); no_writes(st)
    return Task("tommy_ilog2_u%d" % w, "tommy_ilog2_u%d" % w, arg(w, lambda x: x != 0), post, {"C17"})
def T_ctz(w):
    def post(st, ret, t):
        r = ret_as(ret, w); one = BV(1, w)
        st.prove(AND(ULT(r, BV(w, w)), z3.LShR(t.x, r) & one == one, t.x & ((one << r) - one) == 0), "the index of the least significant one bit"); no_writes(st)
    return Task("tommy_ctz_u%d" % w, "tommy_ctz_u%d" % w, arg(w, lambda x: x != 0), post, {"C17"})
def T_roundup(w):
    def post(st, ret, t):
        r = ret_as(ret, w); one = BV(1, w)
        st.prove(AND(r != 0, r & (r - one) == 0, UGE(r, t.x), ULT(z3.LShR(r, one), t.x)), "the smallest power of two not below the value"); no_writes(st)
    return Task("tommy_roundup_pow2_u%d" % w, "tommy_roundup_pow2_u%d" % w, arg(w, lambda x: AND(x != 0, ULE(x, BV(1 << (w - 1), w)))), post, {"C17"})
def T_haszero():
    def post(st, ret, t):
        r = ret_as(ret, 32); z = OR(*[z3.Extract(8 * i + 7, 8 * i, t.x) == 0 for i in range(4)])
        st.prove(r == ITE(z, BV(1, 32), BV(0, 32)), "one if and only if a byte is zero"); no_writes(st)
    return Task("tommy_haszero_u32", "tommy_haszero_u32", arg(32), post, {"C17"})

def T_inthash(w):
    fn = "tommy_inthash_u%d" % w
    def post(st, ret, t):
        no_writes(st)
        defs = list(st.ghost.get("defs", ())); order = {d[0].get_id(): i for i, d in enumerate(defs)}
        def named(x): return [y for y in leafsyms(x) if y.get_id() in order or y.eq(t.x)]
        # cut the computation at the values through which everything passes: steps of one variable
        steps = []; cur = ret_as(ret, w)
        while True:
            l = named(cur)
            if len(l) == 0: st.fail("no two keys have the same hash", "constant result %s" % cur)
            if len(l) == 1:
                if not cur.eq(l[0]): steps.append((l[0], cur))
                if l[0].eq(t.x): break
                cur = defs[order[l[0].get_id()]][1]; continue
            m = max((x for x in l if x.get_id() in order), key=lambda x: order[x.get_id()])
            cur = z3.substitute(cur, (m, defs[order[m.get_id()]][1]))
        steps.reverse()
        for k, (v, f) in enumerate(steps):
            a = z3.BitVec("key1@", w); b = z3.BitVec("key2@", w)
            fa = z3.substitute(f, (v, a)); fb = z3.substitute(f, (v, b)); STATS.obl += 1; STATS.queries += 1
            lab = st.eng.label(st, "step %d of %d maps different values to different values" % (k + 1, len(steps)))
            # linear modulo 2^w with an odd factor?
            g = lambda c: simp(z3.substitute(f, (v, BV(c, w)))).as_long()
            c0 = g(0); c1 = (g(1) - c0) % (1 << w); r = z3.unknown; m = None
            if c1 & 1:
                if arith.lin_holds([], f == simp(v * BV(c1, w) + BV(c0, w))): STATS.discharged += 1; STATS.lin += 1; st.eng.count(lab); continue
                s = z3.Solver(); s.set("timeout", 20000); s.add(f != v * BV(c1, w) + BV(c0, w)); r = s.check()
                if r != z3.unsat: r = z3.unknown
            if r == z3.unknown:
                s = z3.Solver(); s.set("timeout", 60000); s.add(a != b, fa == fb); r = s.check()
            if r == z3.unsat: STATS.discharged += 1; st.eng.count(lab); continue
            f_ = Fail(lab, str(f), None, "refuted" if r == z3.sat else "unknown")
            if r == z3.sat:
                m = s.model(); ks = [m.eval(a, True), m.eval(b, True)]
                # run the earlier steps backwards: a concrete pair of keys
                for u, h in reversed(steps[:k]):
                    n = []
                    for kv in ks:
                        s = z3.Solver(); s.set("timeout", 60000); s.add(h == kv)
                        if s.check() != z3.sat: raise f_
                        n.append(s.model().eval(u, True))
                    ks = n
                f_.cex = ["keys%d" % w] + ["%x" % x.as_long() for x in ks]; f_.detail += " keys %s" % f_.cex[1:]
            raise f_
    return Task(fn, fn, arg(w), post, {"C17"}, name_assign=(32, 64), deadline=400)

# ------------------------------------------------------------------ C15, C16
B8 = z3.BitVecSort(8); B32 = z3.BitVecSort(32)
class Bytes(Chunk):
    """the key: n readable bytes (and the terminator of a string), never writable"""
    def __init__(s, base, n, fn, string=False): s.base = base; s.n = n; s.fn = fn; s.string = string
    def rootterm(s): return s.base
    def candidates(s, st, addr, size):
        if not occurs(addr, s.base): return []
        off = simp(addr - s.base); end = simp(s.n + 1) if s.string else s.n
        return [(AND(ULE(off, end), ULE(BV(size), end - off)), ("direct", s, off))]
    def byte(s, st, i):
        i = simp(i); v = s.fn(i)
        if s.string: st.assume(AND(IMP(ULT(i, s.n), v != 0), IMP(i == s.n, v == 0)))
        return v
    def dload(s, st, off, size):
        v = [s.byte(st, off + k) for k in range(size)]
        return v[0] if size == 1 else simp(z3.Concat(*reversed(v)))
    def dstore(s, st, off, size, v): st.fail("writes nothing")
    def same(s, st, o): return s.base.eq(o.base)
    def __repr__(s): return "Bytes(%s %s)" % (s.base, s.n)

def rot(x, k): return z3.RotateLeft(x, k)
def mix(a, b, c, n=lambda x: x):
    a = n((a - c) ^ rot(c, 4)); c = n(c + b)
    b = n((b - a) ^ rot(a, 6)); a = n(a + c)
    c = n((c - b) ^ rot(b, 8)); b = n(b + a)
    a = n((a - c) ^ rot(c, 16)); c = n(c + b)
    b = n((b - a) ^ rot(a, 19)); a = n(a + c)
    c = n((c - b) ^ rot(b, 4)); b = n(b + a)
    return a, b, c
def final(a, b, c, n=lambda x: x):
    c = n((c ^ b) - rot(b, 14))
    a = n((a ^ c) - rot(c, 11))
    b = n((b ^ a) - rot(a, 25))
    c = n((c ^ b) - rot(b, 16))
    a = n((a ^ c) - rot(c, 4))
    b = n((b ^ a) - rot(a, 14))
    c = n((c ^ b) - rot(b, 24))
    return a, b, c
class Stages:
    """the reference computation with a name for every intermediate value, matched against the values the code computes"""
    def __init__(s): s.l = []
    def name(s, x):
        k = z3.BitVec("ref@%d" % len(s.l), 32); s.l.append((k, x)); return k
    def match(s, st):
        """facts (code value == reference value), each proved from the ones before; substitution of code values"""
        import random
        rnd = random.Random(7); defs = list(st.ghost.get("defs", ()))
        bod = {k.get_id(): (k, x) for k, x in defs}; leaf = {}
        def ev(x, env):
            for y in collect(x):
                if y.get_id() not in env:
                    z = y.num_args() and z3.is_bv(y) and y.size() == 8 and st.holds(y == 0)
                    env[y.get_id()] = (y, BV(0 if z else rnd.getrandbits(y.size()) or 1, y.size()))
            return simp(z3.substitute(x, *[env[y.get_id()] for y in collect(x)]))
        env = {}; val = {}
        for k, x in s.l: v = ev(x, env); env[k.get_id()] = (k, v); val.setdefault(v.as_long(), (k, x))
        sub = {}
        def full(x):
            for _ in range(40):
                ls = [y for y in leafsyms(x) if y.get_id() in bod]
                if not ls: return x
                x = z3.substitute(x, *[(y, sub.get(y.get_id(), bod[y.get_id()][1])) for y in ls])
            return x
        for k, x in defs:
            if k.size() != 32: continue
            b = full(x)
            try: v = ev(b, env).as_long()
            except z3.Z3Exception: continue
            h = val.get(v)
            if h is None: continue
            rk, rx = h; ok = simp(b).eq(simp(rx))
            if not ok:
                for pc in ((), st.pc):
                    q = z3.Solver(); q.set("timeout", 3000)
                    for c in pc: q.add(c)
                    q.add(b != rx); STATS.queries += 1
                    if q.check() == z3.unsat: ok = True; break
            STATS.obl += ok
            if ok: sub[k.get_id()] = rk; STATS.discharged += 1; st.eng.count(st.eng.label(st, "intermediate value of the reference"))
        return full
COLLECT = {}
def collect(x):
    """maximal uninterpreted leaves: constants and function applications"""
    r = COLLECT.get(x.get_id())
    if r is None: r = (x, collect1(x)); COLLECT[x.get_id()] = r
    return r[1]
def collect1(x):
    seen = set(); work = [x]; out = []
    while work:
        y = work.pop()
        if y.get_id() in seen: continue
        seen.add(y.get_id())
        if z3.is_app(y) and y.decl().kind() == z3.Z3_OP_UNINTERPRETED: out.append(y)
        else: work.extend(y.children())
    return out
F3 = [z3.Function("lookup3_" + n, B64, B32) for n in "abc"]
def word(k, pos, lim=4):
    """little endian word of the first lim bytes at pos"""
    r = BV(0, 32)
    for i in range(lim): r = r | (z3.ZeroExt(24, k.fn(simp(pos + i))) << (8 * i))
    return simp(z3.Concat(*[k.fn(simp(pos + i)) for i in reversed(range(4))])) if lim == 4 else simp(r)
def step(k, key, n):
    a, b, c = [f(k) for f in F3]; p = 12 * k
    return mix(n(a + word(key, p)), n(b + word(key, p + 4)), n(c + word(key, p + 8)), n)

class BlockLoop(LoopBase):
    """an iteration absorbs one block of 12 bytes; after k iterations the locals hold the reference state after k blocks"""
    @classmethod
    def matches(cls, eng, st, fr, lp):
        if not any(isinstance(c, Bytes) for c in st.heap) or "blocks" in st.ghost: return
        i = cls(); i.lp = lp; i.depth = len(st.frames); yield i
    @staticmethod
    def cells(st):
        """words of the local memory (arrays, structures, locals with their address taken)"""
        for o in st.heap:
            if isinstance(o, Obj) and o.kind == "stack":
                for off, (sz, v) in sorted(o.fields.items()):
                    if sz == 4 and v is not None: yield "%s@%s+%d" % (o.tag, o.base, off), o, off, v
    def cands(s, st, fr, k):
        out = []; key = s.keyc
        for v, o, off, x in s.cells(st):
            if v in s.cell0: out += [("%s holds %s" % (v, f), x == f(k)) for f in F3]
        for v, t in int_locals(fr, s.lp):
            x = locv(fr, v)
            if t.size == 4 and x is not None and s.entry.get(v) is not None:
                for f in F3: out.append(("%s holds %s" % (v, f), x == f(k)))
            x0 = s.entry.get(v)
            if x is None or x0 is None: continue
            for m in (12, -12, 1, 3):
                kk = k if t.size == 8 else z3.Extract(8 * t.size - 1, 0, k)
                out.append(("%s moves by %d" % (v, m), x == x0 + BV(m, 8 * t.size) * kk))
        for v, t in ptr_locals(fr, s.lp):
            if s.entry.get(v) is not None: out.append(("%s moves with the blocks" % v, locv(fr, v) == s.entry[v] + 12 * k))
        out.append(("blocks are inside the key", ULE(12 * k, key.n)))
        out.append(("something is left", OR(k == 0, ULT(12 * k, key.n))))
        return out
    def enter(s, eng, st):
        fr = st.frames[-1]; s.keyc = [c for c in st.heap if isinstance(c, Bytes)][0]
        s.entry = {v: locv(fr, v) for v, t in list(int_locals(fr, s.lp)) + list(ptr_locals(fr, s.lp))}
        s.cell0 = {v for v, o, off, x in s.cells(st)}
        keep = s.houdini_enter(eng, st, s.cands(st, fr, BV(0)))
        s.havoc_locals(st, fr, s.lp)
        k = st.fresh("k"); st.assume(ULT(k, BV(1 << 58))); s.k = k
        for n, c in s.cands(st, fr, k):
            if n in keep and "@" not in n: st.assume(c)
        # name the locals directly by what they hold
        for v, t in int_locals(fr, s.lp):
            for f in F3:
                if "%s holds %s" % (v, f) in keep: fr.env[v] = Val(f(k), t)
            for m in (12, -12, 1, 3):
                if "%s moves by %d" % (v, m) in keep: fr.env[v] = Val(simp(s.entry[v] + BV(m, 8 * t.size) * (k if t.size == 8 else z3.Extract(8 * t.size - 1, 0, k))), t)
        for v, t in ptr_locals(fr, s.lp):
            if "%s moves with the blocks" % v in keep: fr.env[v] = Val(simp(s.entry[v] + 12 * k), t)
        st.ghost["blocks"] = k
        s.frame_start(eng, st, [])
        for v, o, off, x in list(s.cells(st)):
            fs = [f(k) for f in F3 if "%s holds %s" % (v, f) in keep]
            if fs: o.fields[off] = (4, fs[-1])
            for f in fs[:-1]: st.assume(f == fs[-1])
    def check(s, eng, st):
        fr = st.frames[-1]; mem = {v: x for v, o, off, x in s.cells(st)}
        st.prove(ULE(12 * s.k + 12, s.keyc.n), "loop makes progress (termination)")
        s.frame_check(eng, st)
        # defining equation of the reference at this block
        g = Stages(); r = step(s.k, s.keyc, g.name); full = g.match(st)
        for f, x in zip(F3, r): st.assume(f(simp(s.k + 1)) == x)
        for k, x in g.l: st.assume(k == x)
        out = []
        for n, c in s.cands(st, fr, simp(s.k + 1)):
            if " holds " in n:
                v = n.split(" ")[0]; f = [f for f in F3 if str(f) in n][0]
                c = TRUE if full(mem[v] if v in mem else locv(fr, v)).eq(r[F3.index(f)]) else c
            out.append((n, c))
        s.houdini_check(eng, st, out)

def mk_key(st, t, string):
    n = st.fresh("n"); st.assume(ULT(n, BV(1 << 61))); base = st.fresh("key"); st.assume(AND(base != 0, ULT(base, BV(1 << 62))))
    fn = z3.Function("key_byte", B64, B8); t.key = Bytes(base, n, fn, string); st.add(t.key); t.n = n
    if string: st.assume(fn(n) == 0)
    return base
def init3(st, a, b, c):
    for f, x in zip(F3, (a, b, c)): st.assume(f(BV(0)) == x)
def tail(st, t):
    """reference state after the last bytes: K whole blocks, then rem bytes"""
    K = st.ghost.get("blocks", BV(0)); string = t.key.string
    small = arith.slice_pc([c for c in st.pc if not any(x.startswith("lookup3") for x in leafids(c))], t.n - 12 * K == 0, 3)
    q = z3.Solver(); q.set("timeout", 10000); q.add(*small)
    for rem in range(13):
        c = simp(t.n == 12 * K + rem)
        k = st.known.get(c.get_id())
        if k is not None and k[0] or q.check(NOT(c)) == z3.unsat: break
    else:
        for rem in range(13):
            if st.decide(simp(t.n == 12 * K + rem)): break
        else: st.fail("every block is absorbed")
    st.prove(AND(ULE(12 * K, t.n), rem < 12 if string else OR(K == 0, rem > 0)), "every block is absorbed, and no more")
    p = 12 * K; x = [f(simp(K)) for f in F3]
    return rem, [x[i] + word(t.key, p + 4 * i, max(0, min(4, rem - 4 * i))) for i in range(3)]
def T_hash(w):
    fn = "tommy_hash_u%d" % w
    def setup(e, st):
        t = Ctx(); iv = st.fresh("init", w); base = mk_key(st, t, False)
        i = BV(0xdeadbeef, 32) + z3.Extract(31, 0, t.n) + (iv if w == 32 else z3.Extract(31, 0, iv))
        init3(st, i, i, i if w == 32 else i + z3.Extract(63, 32, iv))
        return [Val(iv, U32 if w == 32 else U64), ptr(base), Val(t.n, U64)], t
    def post(st, ret, t):
        rem, x = tail(st, t); g = Stages()
        a, b, c = final(*[g.name(y) for y in x], g.name) if rem else x
        want = c if w == 32 else z3.Concat(b, c)
        same(st, ret_as(ret, w), want, g, "equals the lookup3 result"); no_writes(st)
    return Task(fn, fn, setup, post, {"C15"}, EF, deadline=380)
def T_strhash():
    fn = "tommy_strhash_u32"
    def setup(e, st):
        t = Ctx(); iv = st.fresh("init"); base = mk_key(st, t, True)
        i = BV(0xdeadbeef, 32) + z3.Extract(31, 0, iv)
        init3(st, i, i, i)
        return [Val(iv, U64), ptr(base)], t
    def post(st, ret, t):
        rem, x = tail(st, t)
        g = Stages()
        same(st, ret_as(ret, 32), final(*[g.name(y) for y in x], g.name)[2], g, "equals the documented string hash"); no_writes(st)
    return Task(fn, fn, setup, post, {"C16"}, EF, deadline=380)
def same(st, got, want, g, label):
    full = g.match(st); got = full(got)
    for k, x in g.l: st.assume(k == x)
    st.prove(simp(got == want), label)
def EF(u):
    e = Engine(u); e.templates = [BlockLoop]; e.name_assign = (32,); return e

class RefLemma(Task):
    """the reference used for C15 gives the values published with lookup3 (driver5)"""
    def __init__(s): Task.__init__(s, "lemma: lookup3 test values", "tommy_hash_u32", None, None, {"C15"}, EF)
    def run(s, eng):
        r = Result(s.name); eng.curfn = s.name; text = b"Four score and seven years ago"
        for d, c0, b0, wc, wb in ((b"", 0, 0, 0xdeadbeef, 0xdeadbeef), (b"", 0, 0xdeadbeef, 0xbd5b7dde, 0xdeadbeef), (b"", 0xdeadbeef, 0xdeadbeef, 0x9c093ccd, 0xbd5b7dde),
                                  (text, 0, 0, 0x17770551, 0xce7226e6), (text, 0, 1, 0xe3607cae, 0xbd371de4), (text, 1, 0, 0xcd628161, 0x6cbea4b3)):
            n = len(d); w = lambda p, lim: BV(int.from_bytes(d[p:p + lim], "little"), 32)
            x = [BV(0xdeadbeef, 32) + BV(n, 32) + BV(c0, 32)] * 3; x[2] = x[2] + BV(b0, 32); p = 0
            while n - p > 12: x = list(mix(*[x[i] + w(p + 4 * i, 4) for i in range(3)])); p += 12
            if n: x = list(final(*[x[i] + w(p + 4 * i, max(0, min(4, n - p - 4 * i))) for i in range(3)]))
            STATS.obl += 1
            if num(simp(x[2])) != wc or num(simp(x[1])) != wb: raise Fail(s.name, "published value of %r" % d, None, "refuted")
            STATS.discharged += 1; eng.count(s.name)
        r.ok = True; return r
TASKS = [T_ilog(32), T_ilog(64), T_ctz(32), T_ctz(64), T_roundup(32), T_roundup(64), T_haszero(), T_inthash(32), T_inthash(64), T_hash(32), T_hash(64), T_strhash(), RefLemma()]

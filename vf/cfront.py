"""Front end: reads /repo's C code (gcc -E, pycparser), lays out types for x86-64 and lowers every
function to a flat list of instructions.  Nothing of the function bodies is dropped: every statement and
expression is kept as its AST; only calls and short-circuit operators are hoisted into explicit
instructions (evaluation order is the one of the source, left to right)."""
import os, re, subprocess, copy
from pycparser import c_parser, c_ast

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VF_REPO", "/repo")

class Unsupported(Exception):
    pass

# ----------------------------------------------------------------------------- types
class T: pass
class TVoid(T):
    size = 1; align = 1
    def __repr__(self): return "void"
class TInt(T):
    def __init__(s, size, signed): s.size = size; s.align = size; s.signed = signed
    def __repr__(s): return ("i" if s.signed else "u") + str(s.size * 8)
class TPtr(T):
    size = 8; align = 8; signed = False
    def __init__(s, to): s.to = to
    def __repr__(s): return repr(s.to) + "*"
class TArr(T):
    def __init__(s, el, n): s.el = el; s.n = n
    @property
    def size(s): return s.el.size * (s.n or 0)
    @property
    def align(s): return s.el.align
    def __repr__(s): return "%r[%s]" % (s.el, s.n)
class TFunc(T):
    size = 1; align = 1
    def __init__(s, ret, params): s.ret = ret; s.params = params
    def __repr__(s): return "func"
class TStruct(T):
    def __init__(s, tag): s.tag = tag; s.fields = None; s.size = None; s.align = None; s.union = False
    def __repr__(s): return "struct " + str(s.tag)
    def layout(s, fl, union=False):
        off = 0; al = 1; s.fields = {}; s.union = union; mx = 0
        for n, t in fl:
            a = t.align; al = max(al, a)
            if union: off = 0
            off = (off + a - 1) // a * a
            s.fields[n] = (off, t)
            off += t.size; mx = max(mx, off)
        s.align = al; s.size = (mx + al - 1) // al * al

VOID = TVoid(); I32 = TInt(4, True); U32 = TInt(4, False); I64 = TInt(8, True); U64 = TInt(8, False)
CHAR = TInt(1, True); UCHAR = TInt(1, False); BOOL = TInt(1, False)
VOIDP = TPtr(VOID)

BASE = {
    ("char",): CHAR, ("signed", "char"): CHAR, ("unsigned", "char"): UCHAR, ("short",): TInt(2, True),
    ("unsigned", "short"): TInt(2, False), ("int",): I32, ("unsigned",): U32, ("unsigned", "int"): U32,
    ("signed",): I32, ("signed", "int"): I32, ("long",): I64, ("unsigned", "long"): U64, ("long", "int"): I64,
    ("unsigned", "long", "int"): U64, ("long", "long"): I64, ("unsigned", "long", "long"): U64,
    ("long", "long", "int"): I64, ("unsigned", "long", "long", "int"): U64, ("void",): VOID, ("_Bool",): BOOL,
    ("short", "int"): TInt(2, True), ("unsigned", "short", "int"): TInt(2, False), ("long", "unsigned", "int"): U64,
    ("long", "unsigned"): U64, ("short", "unsigned"): TInt(2, False), ("signed","long"): I64,
}

class Func:
    def __init__(s, name):
        s.name = name; s.params = []; s.ret = VOID; s.locals = {}; s.code = []; s.file = ""; s.line = 0
        s.addr_taken = set(); s.loops = {}; s.memlocals = set()

class Instr:
    __slots__ = ("op", "a", "b", "c", "line", "idx")
    def __init__(s, op, a=None, b=None, c=None, line=0):
        s.op = op; s.a = a; s.b = b; s.c = c; s.line = line
    def __repr__(s): return "%s@%s" % (s.op, s.line)

class Unit:
    def __init__(s):
        s.typedefs = {}; s.structs = {}; s.enums = {}; s.funcs = {}; s.protos = {}; s.globals = {}

def preprocess(extra=()):
    src = os.path.join(REPO, "tommyds", "tommy.c")
    cmd = ["gcc", "-E", "-nostdinc", "-I" + os.path.join(HERE, "inc"), "-I" + os.path.join(REPO, "tommyds"),
           "-I" + REPO, "-D__inline=inline", "-D__attribute__(x)=", "-D__restrict=restrict", "-D__extension__=",
           "-D__inline__=inline", "-D__restrict__=restrict", "-D__const=const"] + list(extra) + [src]
    r = subprocess.run(cmd, capture_output=True, text=True)
    if r.returncode: raise Unsupported("preprocessor: " + r.stderr[-400:])
    return r.stdout

def load():
    text = preprocess()
    try:
        ast = c_parser.CParser().parse(text, "tommy.c")
    except Exception as e:
        raise Unsupported("parse: %s" % e)
    u = Unit()
    b = Builder(u)
    errs = {}
    for ext in ast.ext:
        if isinstance(ext, c_ast.FuncDef):
            b.proto(ext.decl)
    for ext in ast.ext:
        if isinstance(ext, c_ast.FuncDef):
            try:
                u.funcs[ext.decl.name] = b.func(ext)
            except Unsupported as e:
                errs[ext.decl.name] = str(e)
        elif isinstance(ext, c_ast.Typedef):
            u.typedefs[ext.name] = b.typ(ext.type)
        elif isinstance(ext, c_ast.Decl):
            b.topdecl(ext)
    u.errs = errs
    u.builder = b
    return u

class Builder:
    def __init__(s, u): s.u = u
    # --- types
    def typ(s, n):
        if isinstance(n, c_ast.TypeDecl): return s.typ(n.type)
        if isinstance(n, c_ast.Typename): return s.typ(n.type)
        if isinstance(n, c_ast.IdentifierType):
            names = tuple(n.names)
            if len(names) == 1 and names[0] in s.u.typedefs: return s.u.typedefs[names[0]]
            if names in BASE: return BASE[names]
            k = tuple(sorted(names))
            for b, t in BASE.items():
                if tuple(sorted(b)) == k: return t
            raise Unsupported("type %s" % (names,))
        if isinstance(n, c_ast.PtrDecl): return TPtr(s.typ(n.type))
        if isinstance(n, c_ast.ArrayDecl):
            return TArr(s.typ(n.type), s.const(n.dim) if n.dim is not None else None)
        if isinstance(n, c_ast.FuncDecl):
            ps = []
            if n.args:
                for p in n.args.params:
                    if isinstance(p, c_ast.EllipsisParam): continue
                    ps.append(s.typ(p.type))
            return TFunc(s.typ(n.type), [p for p in ps if not isinstance(p, TVoid)])
        if isinstance(n, (c_ast.Struct, c_ast.Union)):
            tag = n.name or ("anon%d" % id(n))
            st = s.u.structs.get(tag)
            if st is None:
                st = s.u.structs[tag] = TStruct(tag)
            if n.decls is not None and st.fields is None:
                st.layout([(d.name, s.typ(d.type)) for d in n.decls], isinstance(n, c_ast.Union))
            return st
        if isinstance(n, c_ast.Enum):
            if n.values:
                v = 0
                for e in n.values.enumerators:
                    if e.value is not None: v = s.const(e.value)
                    s.u.enums[e.name] = v; v += 1
            return U32
        raise Unsupported("type node %s" % type(n).__name__)

    def const(s, n):
        v = s.tryconst(n)
        if v is None: raise Unsupported("not a constant")
        return v

    def tryconst(s, n):
        if isinstance(n, c_ast.Constant):
            if n.type == "char" : return ord(eval(n.value)) if len(n.value) > 2 else None
            if n.type in ("string", "float", "double"): return None
            return parse_int(n.value)[0]
        if isinstance(n, c_ast.UnaryOp):
            if n.op == "sizeof":
                if isinstance(n.expr, c_ast.Typename): return s.typ(n.expr).size
                return None
            v = s.tryconst(n.expr)
            if v is None: return None
            return {"-": lambda: -v, "+": lambda: v, "~": lambda: ~v, "!": lambda: int(not v)}.get(n.op, lambda: None)()
        if isinstance(n, c_ast.BinaryOp):
            a = s.tryconst(n.left)
            if n.op == "&&" and a == 0: return 0
            if n.op == "||" and a: return 1
            b = s.tryconst(n.right)
            if a is None or b is None: return None
            try:
                return {"+": lambda: a + b, "-": lambda: a - b, "*": lambda: a * b, "/": lambda: a // b, "%": lambda: a % b,
                    "<<": lambda: a << b, ">>": lambda: a >> b, "==": lambda: int(a == b), "!=": lambda: int(a != b),
                    "<": lambda: int(a < b), ">": lambda: int(a > b), "<=": lambda: int(a <= b), ">=": lambda: int(a >= b),
                    "&": lambda: a & b, "|": lambda: a | b, "^": lambda: a ^ b, "&&": lambda: int(bool(a and b)),
                    "||": lambda: int(bool(a or b))}[n.op]()
            except Exception:
                return None
        if isinstance(n, c_ast.TernaryOp):
            c = s.tryconst(n.cond)
            if c is None: return None
            return s.tryconst(n.iftrue if c else n.iffalse)
        if isinstance(n, c_ast.Cast):
            t = s.typ(n.to_type)
            if not isinstance(t, TInt): return None
            v = s.tryconst(n.expr)
            if v is None: return None
            v &= (1 << (8 * t.size)) - 1
            if t.signed and v >> (8 * t.size - 1): v -= 1 << (8 * t.size)
            return v
        if isinstance(n, c_ast.ID) and n.name in s.u.enums: return s.u.enums[n.name]
        return None

    def proto(s, d):
        pass
    def topdecl(s, d):
        if d.name is None:
            s.typ(d.type); return
        t = s.typ(d.type)
        if isinstance(t, TFunc): s.u.protos[d.name] = t
        else: s.u.globals[d.name] = (t, d.init)

    # --- functions
    def func(s, fd):
        f = Func(fd.decl.name)
        f.file = str(fd.decl.coord.file); f.line = fd.decl.coord.line
        ft = s.typ(fd.decl.type); f.ret = ft.ret
        s.u.protos[f.name] = ft
        L = Lower(s, f)
        if fd.decl.type.args:
            for p in fd.decl.type.args.params:
                t = s.typ(p.type)
                if isinstance(t, TVoid): continue
                if isinstance(t, TArr): t = TPtr(t.el)
                if isinstance(t, TFunc): t = TPtr(t)
                un = L.declare(p.name, t); f.params.append((un, t))
        L.stmt(fd.body)
        L.emit(Instr("ret", None, line=fd.coord.line))
        L.finish()
        return f

def parse_int(v):
    m = re.match(r"^(0[xX][0-9a-fA-F]+|0[bB][01]+|\d+)([uUlL]*)$", v)
    if not m: raise Unsupported("constant " + v)
    txt, suf = m.group(1), m.group(2).lower()
    if txt.lower().startswith("0x"): n = int(txt, 16); dec = False
    elif txt.lower().startswith("0b"): n = int(txt, 2); dec = False
    elif len(txt) > 1 and txt[0] == "0": n = int(txt, 8); dec = False
    else: n = int(txt); dec = True
    uns = "u" in suf; lng = "l" in suf
    cands = []
    if not lng:
        if not uns: cands.append(I32)
        if uns or not dec: cands.append(U32)
    if not uns: cands.append(I64)
    if uns or not dec: cands.append(U64)
    for t in cands:
        lim = 1 << (8 * t.size - (1 if t.signed else 0))
        if n < lim: return n, t
    return n, U64

class Lower:
    def __init__(s, b, f):
        s.b = b; s.f = f; s.scopes = [{}]; s.labels = {}; s.code = []; s.brk = []; s.cont = []; s.tmp = 0; s.n = {}
        s.line = f.line
    def emit(s, i):
        if not i.line: i.line = s.line
        i.idx = len(s.code); s.code.append(i); return i
    def newlabel(s):
        s.tmp += 1
        return "L%d" % s.tmp
    def put(s, l): s.labels[l] = len(s.code)
    def declare(s, name, t):
        k = s.n.get(name, 0); s.n[name] = k + 1
        un = name if k == 0 else "%s#%d" % (name, k)
        s.scopes[-1][name] = un; s.f.locals[un] = t
        if isinstance(t, (TArr, TStruct)): s.f.memlocals.add(un)
        return un
    def lookup(s, name):
        for sc in reversed(s.scopes):
            if name in sc: return sc[name]
        return None
    def temp(s, t=None):
        s.tmp += 1
        un = "$t%d" % s.tmp
        s.f.locals[un] = t
        return un

    # ---- expressions: rename ids; hoist calls and short circuits
    def has_call(s, n):
        if isinstance(n, c_ast.FuncCall):
            if isinstance(n.name, c_ast.ID) and n.name.name.startswith("__builtin_"):
                return any(s.has_call(a) for a in (n.args.exprs if n.args else []))
            return True
        return any(s.has_call(c) for _, c in n.children())
    def has_sc(s, n):
        if isinstance(n, c_ast.BinaryOp) and n.op in ("&&", "||"): return True
        if isinstance(n, (c_ast.TernaryOp, c_ast.ExprList)) and not (isinstance(n, c_ast.ExprList)): return True
        return any(s.has_sc(c) for _, c in n.children())

    def expr(s, n):
        """returns an AST without user calls and short circuits"""
        if isinstance(n, c_ast.ID):
            un = s.lookup(n.name)
            if un is not None: return c_ast.ID(un, n.coord)
            return n
        if isinstance(n, c_ast.Constant): return n
        if isinstance(n, c_ast.FuncCall):
            if isinstance(n.name, c_ast.ID) and s.lookup(n.name.name) is None and n.name.name.startswith("__builtin_"):
                if n.name.name == "__builtin_expect": return s.expr(n.args.exprs[0])
                if n.name.name == "__builtin_unreachable":
                    return c_ast.FuncCall(n.name, None, n.coord)
                return c_ast.FuncCall(n.name, c_ast.ExprList([s.expr(a) for a in n.args.exprs]), n.coord)
            return s.call(n, True)
        if isinstance(n, c_ast.BinaryOp) and n.op in ("&&", "||"):
            v = s.b.tryconst(n)
            if v is not None: return c_ast.Constant("int", str(v), n.coord)
            t = s.temp(I32)
            lt, lf, le = s.newlabel(), s.newlabel(), s.newlabel()
            s.cond(n, lt, lf)
            s.put(lt); s.emit(Instr("expr", c_ast.Assignment("=", c_ast.ID(t), c_ast.Constant("int", "1")))); s.emit(Instr("jmp", le))
            s.put(lf); s.emit(Instr("expr", c_ast.Assignment("=", c_ast.ID(t), c_ast.Constant("int", "0"))))
            s.put(le)
            return c_ast.ID(t, n.coord)
        if isinstance(n, c_ast.TernaryOp):
            v = s.b.tryconst(n.cond)
            if v is not None: return s.expr(n.iftrue if v else n.iffalse)
            if not s.has_call(n) and not s.has_sc(n.cond) and not s.side(n.iftrue) and not s.side(n.iffalse) and not s.memread(n.iftrue) and not s.memread(n.iffalse):
                return c_ast.TernaryOp(s.expr(n.cond), s.expr(n.iftrue), s.expr(n.iffalse), n.coord)
            t = s.temp(None)
            lt, lf, le = s.newlabel(), s.newlabel(), s.newlabel()
            s.cond(n.cond, lt, lf)
            other = c_ast.TernaryOp(c_ast.Constant("int", "1"), n.iftrue, n.iffalse)
            s.put(lt); e = s.expr(n.iftrue); s.emit(Instr("tset", t, e, n, line=s.line)); s.emit(Instr("jmp", le))
            s.put(lf); e = s.expr(n.iffalse); s.emit(Instr("tset", t, e, n, line=s.line))
            s.put(le)
            return c_ast.ID(t, n.coord)
        if isinstance(n, c_ast.ExprList):
            for e in n.exprs[:-1]: s.effect(e)
            return s.expr(n.exprs[-1])
        if isinstance(n, c_ast.UnaryOp):
            if n.op == "sizeof":
                if isinstance(n.expr, c_ast.Typename): return n
                return c_ast.UnaryOp("sizeof", s.rename(n.expr), n.coord)
            if n.op == "&":
                e = s.expr(n.expr)
                if isinstance(e, c_ast.ID): s.f.memlocals.add(e.name)
                return c_ast.UnaryOp("&", e, n.coord)
            return c_ast.UnaryOp(n.op, s.expr(n.expr), n.coord)
        if isinstance(n, c_ast.BinaryOp): return c_ast.BinaryOp(n.op, s.expr(n.left), s.expr(n.right), n.coord)
        if isinstance(n, c_ast.Assignment):
            r = s.expr(n.rvalue); l = s.expr(n.lvalue)
            return c_ast.Assignment(n.op, l, r, n.coord)
        if isinstance(n, c_ast.Cast): return c_ast.Cast(n.to_type, s.expr(n.expr), n.coord)
        if isinstance(n, c_ast.StructRef): return c_ast.StructRef(s.expr(n.name), n.type, n.field, n.coord)
        if isinstance(n, c_ast.ArrayRef): return c_ast.ArrayRef(s.expr(n.name), s.expr(n.subscript), n.coord)
        raise Unsupported("expression %s" % type(n).__name__)

    def rename(s, n):
        n = copy.deepcopy(n)
        def go(x):
            for k, c in x.children():
                if isinstance(c, c_ast.ID):
                    un = s.lookup(c.name)
                    if un is not None: c.name = un
                else: go(c)
        if isinstance(n, c_ast.ID):
            un = s.lookup(n.name)
            if un is not None: n.name = un
        go(n)
        return n
    def side(s, n):
        if isinstance(n, c_ast.Assignment) or (isinstance(n, c_ast.UnaryOp) and n.op in ("++", "--", "p++", "p--")): return True
        if isinstance(n, c_ast.FuncCall): return s.has_call(n)
        return any(s.side(c) for _, c in n.children())
    def memread(s, n):
        if isinstance(n, (c_ast.ArrayRef, c_ast.StructRef)) or (isinstance(n, c_ast.UnaryOp) and n.op == "*"): return True
        return any(s.memread(c) for _, c in n.children())

    def call(s, n, want):
        fn = n.name
        if isinstance(fn, c_ast.UnaryOp) and fn.op == "*": fn = fn.expr
        fe = s.expr(fn)
        args = [s.expr(a) for a in (n.args.exprs if n.args else [])]
        t = s.temp(None) if want else None
        s.emit(Instr("call", fe, args, t, line=(n.coord.line if n.coord else s.line)))
        return c_ast.ID(t, n.coord) if want else None

    def effect(s, n):
        if n is None: return
        if isinstance(n, c_ast.FuncCall) and not (isinstance(n.name, c_ast.ID) and n.name.name.startswith("__builtin_")):
            s.call(n, False); return
        if isinstance(n, c_ast.ExprList):
            for e in n.exprs: s.effect(e)
            return
        if isinstance(n, c_ast.Cast) and isinstance(n.to_type, c_ast.Typename):
            if isinstance(s.b.typ(n.to_type), TVoid): s.effect(n.expr); return
        if isinstance(n, c_ast.Assignment) and n.op == "=" and isinstance(n.rvalue, c_ast.FuncCall) and isinstance(n.lvalue, c_ast.ID):
            pass
        e = s.expr(n)
        if isinstance(e, (c_ast.ID, c_ast.Constant)): return
        s.emit(Instr("expr", e))

    def cond(s, n, lt, lf):
        v = s.b.tryconst(n)
        if v is not None:
            s.emit(Instr("jmp", lt if v else lf)); return
        if isinstance(n, c_ast.BinaryOp) and n.op == "&&":
            m = s.newlabel(); s.cond(n.left, m, lf); s.put(m); s.cond(n.right, lt, lf); return
        if isinstance(n, c_ast.BinaryOp) and n.op == "||":
            m = s.newlabel(); s.cond(n.left, lt, m); s.put(m); s.cond(n.right, lt, lf); return
        if isinstance(n, c_ast.UnaryOp) and n.op == "!":
            s.cond(n.expr, lf, lt); return
        if isinstance(n, c_ast.ExprList):
            for e in n.exprs[:-1]: s.effect(e)
            s.cond(n.exprs[-1], lt, lf); return
        if isinstance(n, c_ast.FuncCall) and isinstance(n.name, c_ast.ID) and n.name.name == "__builtin_expect":
            s.cond(n.args.exprs[0], lt, lf); return
        e = s.expr(n)
        s.emit(Instr("br", e, lt, lf))

    # ---- statements
    def stmt(s, n):
        if n is None: return
        if getattr(n, "coord", None): s.line = n.coord.line
        k = type(n).__name__
        if k == "Compound":
            s.scopes.append({})
            for x in (n.block_items or []): s.stmt(x)
            s.scopes.pop()
        elif k == "DeclList":
            for d in n.decls: s.stmt(d)
        elif k == "Decl":
            if n.name is None: s.b.typ(n.type); return
            if "static" in (n.storage or []) and "const" not in (n.quals or []) :
                raise Unsupported("static local")
            t = s.b.typ(n.type)
            if isinstance(t, TFunc): return
            if isinstance(t, TArr) and t.n is None and isinstance(n.init, c_ast.InitList): t = TArr(t.el, len(n.init.exprs))
            if isinstance(n.init, c_ast.InitList):
                vals = [s.expr(e) for e in n.init.exprs]
                un = s.declare(n.name, t)
                s.emit(Instr("decl", un))
                s.emit(Instr("init", un, vals))
            elif n.init is not None:
                e = s.expr(n.init)
                un = s.declare(n.name, t)
                s.emit(Instr("decl", un))
                s.emit(Instr("expr", c_ast.Assignment("=", c_ast.ID(un), e)))
            else:
                un = s.declare(n.name, t)
                s.emit(Instr("decl", un))
        elif k == "If":
            lt, lf, le = s.newlabel(), s.newlabel(), s.newlabel()
            s.cond(n.cond, lt, lf)
            s.put(lt); s.stmt(n.iftrue)
            if n.iffalse is not None:
                s.emit(Instr("jmp", le)); s.put(lf); s.stmt(n.iffalse); s.put(le)
            else: s.put(lf)
        elif k == "While":
            lh, lb, le = s.newlabel(), s.newlabel(), s.newlabel()
            s.put(lh); s.cond(n.cond, lb, le); s.put(lb)
            s.brk.append(le); s.cont.append(lh); s.stmt(n.stmt); s.brk.pop(); s.cont.pop()
            s.emit(Instr("jmp", lh)); s.put(le)
        elif k == "DoWhile":
            lh, lc, le = s.newlabel(), s.newlabel(), s.newlabel()
            s.put(lh); s.brk.append(le); s.cont.append(lc); s.stmt(n.stmt); s.brk.pop(); s.cont.pop()
            s.put(lc); s.cond(n.cond, lh, le); s.put(le)
        elif k == "For":
            s.scopes.append({})
            lh, lb, lc, le = s.newlabel(), s.newlabel(), s.newlabel(), s.newlabel()
            if n.init is not None:
                if isinstance(n.init, c_ast.DeclList): s.stmt(n.init)
                else: s.effect(n.init)
            s.put(lh)
            if n.cond is not None: s.cond(n.cond, lb, le)
            s.put(lb); s.brk.append(le); s.cont.append(lc); s.stmt(n.stmt); s.brk.pop(); s.cont.pop()
            s.put(lc); s.effect(n.next); s.emit(Instr("jmp", lh)); s.put(le)
            s.scopes.pop()
        elif k == "Return":
            e = s.expr(n.expr) if n.expr is not None else None
            s.emit(Instr("ret", e))
        elif k == "Break": s.emit(Instr("jmp", s.brk[-1]))
        elif k == "Continue": s.emit(Instr("jmp", s.cont[-1]))
        elif k == "Goto": s.emit(Instr("jmp", "user:" + n.name))
        elif k == "Label":
            s.put("user:" + n.name); s.stmt(n.stmt)
        elif k == "Switch":
            e = s.expr(n.cond); le = s.newlabel()
            cases = []; default = le; body = []
            items = n.stmt.block_items if isinstance(n.stmt, c_ast.Compound) else [n.stmt]
            s.scopes.append({})
            sw = s.emit(Instr("switch", e))
            s.brk.append(le)
            def item(x):
                nonlocal default
                if isinstance(x, c_ast.Case):
                    l = s.newlabel(); cases.append((s.b.const(x.expr), l)); s.put(l)
                    for y in x.stmts or []: item(y)
                elif isinstance(x, c_ast.Default):
                    l = s.newlabel(); default = l; s.put(l)
                    for y in x.stmts or []: item(y)
                else: s.stmt(x)
            for x in items or []: item(x)
            s.brk.pop(); s.scopes.pop()
            s.put(le); sw.b = cases; sw.c = default
        elif k == "EmptyStatement": pass
        elif k in ("Pragma", "StaticAssert"): pass
        else: s.effect(n)

    def finish(s):
        # resolve labels
        code = s.code
        R = lambda l: s.labels[l]
        for i in code:
            if i.op == "jmp": i.a = R(i.a)
            elif i.op == "br": i.b = R(i.b); i.c = R(i.c)
            elif i.op == "switch": i.b = [(v, R(l)) for v, l in i.b]; i.c = R(i.c)
        n = len(code)
        # thread jumps: a jump to a jump
        def target(x, d=0):
            while x < n and code[x].op == "jmp" and d < 50 and code[x].a != x: x = code[x].a; d += 1
            return x
        def succ(k):
            i = code[k]
            if i.op == "jmp": return [i.a]
            if i.op == "br": return [i.b, i.c]
            if i.op == "switch": return [l for _, l in i.b] + [i.c]
            if i.op == "ret": return []
            return [k + 1]
        s.f.code = code; s.f.succ = succ
        # loops: back edges in DFS
        color = [0] * (n + 1); back = []
        st = [(0, iter(succ(0)))]; color[0] = 1
        while st:
            u, it = st[-1]
            for v in it:
                if v >= n: continue
                if color[v] == 1: back.append((u, v))
                elif color[v] == 0:
                    color[v] = 1; st.append((v, iter(succ(v)))); break
            else:
                color[u] = 2; st.pop()
        pred = {}
        for k in range(n):
            for v in succ(k): pred.setdefault(v, []).append(k)
        loops = {}
        for u, h in back:
            body = loops.setdefault(h, {h})
            work = [u]
            while work:
                x = work.pop()
                if x in body: continue
                body.add(x)
                work.extend(p for p in pred.get(x, []) if color[p])
        s.f.loops = {}
        for h, body in loops.items():
            mod = set()
            for k in body:
                i = code[k]
                if i.op == "decl": mod.add(i.a)
                elif i.op == "tset": mod.add(i.a); assigned(i.b, mod)
                elif i.op == "call":
                    if i.c: mod.add(i.c)
                    for a in i.b: assigned(a, mod)
                elif i.op == "init": mod.add(i.a)
                elif i.op in ("expr", "br", "switch"): assigned(i.a, mod)
            s.f.loops[h] = dict(body=body, mod=mod, line=code[h].line)

def assigned(n, out):
    if n is None or not hasattr(n, "children"): return
    if isinstance(n, c_ast.Assignment) and isinstance(n.lvalue, c_ast.ID): out.add(n.lvalue.name)
    if isinstance(n, c_ast.UnaryOp) and n.op in ("++", "--", "p++", "p--") and isinstance(n.expr, c_ast.ID): out.add(n.expr.name)
    for _, c in n.children(): assigned(c, out)

if __name__ == "__main__":
    u = load()
    print(len(u.funcs), u.errs)
    for f in u.funcs.values():
        print(f.name, f.file.split("/")[-1], f.line, len(f.code), {h: (l["line"], sorted(l["mod"])) for h, l in f.loops.items()})

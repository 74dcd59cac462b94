"""Objects of the compiler (types, trees, literals) on the concrete heap, built from and read back as descriptions.

A sub-object the function under proof only handles through its own functions is opaque: it has an identity and no fields, and
the functions on it (copy, equals, size, ...) are used by contract.  Running a function on every top-level shape with opaque
children is the induction step over the depth of the structure."""
import z3
import absx, absmap
from engine import *
from cast import TU

DT = ["VOID", "CHAR", "INT", "UNSIGNED_INT", "LONG", "UNSIGNED_LONG", "LONGLONG", "UNSIGNED_LONGLONG", "POINTER", "ARRAY", "STRUCT", "ENUM",
      "FUNCTION", "TYPEDEF"]
INTS = DT[1:8]
SUB = {"POINTER": "dpointer", "ARRAY": "darray", "STRUCT": "dstruct", "ENUM": "denum", "FUNCTION": "dfunction", "TYPEDEF": "dtypedef"}
SIZE = {"CHAR": 1, "INT": 4, "UNSIGNED_INT": 4, "LONG": 8, "UNSIGNED_LONG": 8, "LONGLONG": 8, "UNSIGNED_LONGLONG": 8, "POINTER": 8, "ENUM": 4}
SIGNED = {"CHAR", "INT", "LONG", "LONGLONG", "ENUM"}

def rec(ex, recname, /, **f):
    b = ex.heap.new(ex.tu.size_align(recname)[0]); o = ex.heap.objs[b]
    o.rec = recname; o.fields = dict(f)
    return P(b, 0)
def opaque(ex, kind, ident):
    b = ex.heap.new(None); ex.heap.objs[b].tag = ["opq", kind, ident]; return P(b, 0)
def isopq(ex, p):
    return isinstance(p, P) and p.b != 0 and p.b in ex.heap.objs and isinstance(ex.heap.objs[p.b].tag, list) and ex.heap.objs[p.b].tag[0] == "opq"
def opq(ex, p): 
    return ex.obj(p.b, "object").tag[2]
def strid(ex, p):
    """content of a string: id of an abstract one, text of a concrete one"""
    if isinstance(p, GPtr): return ("s", cstr(ex, p))
    o = ex.obj(p.b, "string")
    if isinstance(o.tag, list) and o.tag[0] == "str": return o.tag[1]
    return ("s", cstr(ex, p))
def new_ctext(ex, s):
    """concrete C string on the heap"""
    b = ex.heap.new(len(s) + 1); o = ex.heap.objs[b]
    o.elems = {i: (c if c < 128 else c - 256) for i, c in enumerate(s.encode("latin-1"))}; o.elems[len(s)] = 0
    return P(b, 0)

def install(e):
    """containers, strings and opaque objects by contract"""
    absx.install(e); absmap.install(e)
    o = e.overrides
    def cp(ex, t, x):
        if not isinstance(t, GPtr) or not isinstance(t.data, dict): raise Structural("copy of a list of unknown element type")
        return ex.call(t.data["copy_object"], [x], None)
    def dl(ex, t, x):
        if not isinstance(t, GPtr) or not isinstance(t.data, dict): raise Structural("release of a list of unknown element type")
        ex.call(t.data["delete_object"], [x], None)
    o["@copy"] = cp; o["@delete"] = dl
    def strcmp(ex, a):
        x, y = strid(ex, a[0]), strid(ex, a[1])
        if isz(x) or isz(y):
            if not (isz(x) and isz(y)): raise Structural("comparison of a symbolic and a concrete string")
            r = ex.fresh("strcmp") if ex.eng.mode == "int" else ex.fresh("strcmp", z3.BitVecSort(32))
            ex.assume((r == 0) == (x == y)); return r
        return 0 if x == y else 1
    o["strcmp"] = strcmp
    def opq_copy(kind):
        def f(ex, a):
            if not isopq(ex, a[0]): return NotImplemented
            p = opaque(ex, kind, opq(ex, a[0])); ex.heap.objs[p.b].tag.append("copy"); return p
        return f
    def opq_del(ex, a):
        if not isopq(ex, a[0]): return NotImplemented
        ob = ex.obj(a[0].b, "released object"); ob.alive = False
    for k, c, d in (("dtype", "dtype_copy", "delete_dtype"), ("srt", "srt_copy", "delete_srt"), ("ast", "ast_copy", "delete_ast"),
                    ("iliteral", "iliteral_copy", "delete_iliteral"), ("sliteral", "sliteral_copy", "delete_sliteral")):
        o[c] = opq_copy(k); o[d] = opq_del
    def dtype_equals(ex, a):
        if isopq(ex, a[0]) and isopq(ex, a[1]):
            x, y = opq(ex, a[0]), opq(ex, a[1])
            if isz(x) or isz(y): return ex.ieq(x, y)
            return int(x == y)
        if isopq(ex, a[0]) or isopq(ex, a[1]): raise Structural("comparison of an opaque and a known type")
        return NotImplemented
    o["dtype_equals"] = dtype_equals
    def new_error(ex, a): return opaque(ex, "error", "error")
    def delete_error(ex, a): ex.obj(a[0].b, "error").alive = False
    o["new_error"] = new_error; o["delete_error"] = delete_error
    def fprintf(ex, a): return 0
    o["fprintf"] = fprintf

# ---------------------------------------------------------------- types
def dt(ex, d):
    """description -> DType on the heap.  Forms: ("INT",), ("opq", id), ("POINTER", d), ("ARRAY", d, n), ("STRUCT", name, [(name, d, off)] or None,
    nbytes, align), ("ENUM", name, [(name, val)] or None), ("FUNCTION", [(name or None, d)], d), ("TYPEDEF", d); None: absent (socket)"""
    if d is None: return NULL
    if d[0] == "opq": return opaque(ex, "dtype", d[1])
    k = d[0]; E = ex.tu.enums
    p = rec(ex, "DType", type=E["DTYPE_" + k], dpointer=NULL, darray=NULL, dstruct=NULL, denum=NULL, dfunction=NULL, dtypedef=NULL)
    o = ex.heap.objs[p.b]
    if k == "POINTER": o.fields["dpointer"] = rec(ex, "DPointer", to_dtype=dt(ex, d[1]))
    elif k == "TYPEDEF": o.fields["dtypedef"] = rec(ex, "DTypedef", defined_dtype=dt(ex, d[1]))
    elif k == "ARRAY": o.fields["darray"] = rec(ex, "DArray", of_dtype=dt(ex, d[1]), size=d[2])
    elif k == "STRUCT":
        m = NULL if d[2] is None else absx.new_vec(ex, [rec(ex, "DStructMember", name=st(ex, n), dtype=dt(ex, x), memory_offset=off) for n, x, off in d[2]], G(ex, "t_dstructmember"))
        o.fields["dstruct"] = rec(ex, "DStruct", name=st(ex, d[1]), members=m, nbytes=d[3], alignment=d[4])
    elif k == "ENUM":
        m = NULL if d[2] is None else absx.new_vec(ex, [rec(ex, "DEnumMember", name=st(ex, n), value=v) for n, v in d[2]], G(ex, "t_denummember"))
        o.fields["denum"] = rec(ex, "DEnum", name=st(ex, d[1]), members=m)
    elif k == "FUNCTION":
        m = absx.new_vec(ex, [rec(ex, "DParam", name=st(ex, n), dtype=dt(ex, x)) for n, x in d[1]], G(ex, "t_dparam"))
        o.fields["dfunction"] = rec(ex, "DFunction", params=m, return_dtype=dt(ex, d[2]))
    return p
def st(ex, s):
    if s is None: return NULL
    if isinstance(s, P): return s
    return absx.new_str(ex, s)
def G(ex, name): return ex.glob(name)

class Rd:
    """reads an object graph back into a description, collecting the heap objects that make it up"""
    def __init__(s, ex): s.ex = ex; s.foot = []
    def f(s, p, r, nm):
        ex = s.ex
        o = ex.obj(p.b, f"{r}.{nm}")
        v = o.fields.get(nm, UNINIT)
        ex.oblige(f"{r}.{nm} is initialised", v is not UNINIT, "post")
        return v
    def own(s, p): s.foot.append(p.b)
    def vec(s, p, fn):
        if isn(p): return None
        s.own(p)
        return [fn(x) for x in absx.vec(s.ex, p)[1]]
    def str(s, p):
        if isn(p): return None
        if isinstance(p, P): s.own(p)
        return strid(s.ex, p)
    def dt(s, p):
        ex = s.ex
        if isn(p): return None
        s.own(p)
        if isopq(ex, p): ex.obj(p.b, "type"); return ("opq", opq(ex, p))
        t = s.f(p, "DType", "type")
        if not isinstance(t, int): raise Structural("symbolic type kind")
        k = next((n for n in DT if ex.tu.enums["DTYPE_" + n] == t), None)
        ex.oblige("type kind is valid", k is not None, "post")
        for n, fl in SUB.items():
            v = s.f(p, "DType", fl)
            ex.oblige(f"a type of kind {k} has exactly the parts of that kind", isn(v) == (n != k), "post")
        sub = ex.heap.objs[p.b].fields.get(SUB.get(k))
        if sub is not None: s.own(sub)
        if k == "POINTER": return (k, s.dt(s.f(sub, "DPointer", "to_dtype")))
        if k == "TYPEDEF": return (k, s.dt(s.f(sub, "DTypedef", "defined_dtype")))
        if k == "ARRAY": return (k, s.dt(s.f(sub, "DArray", "of_dtype")), s.f(sub, "DArray", "size"))
        if k == "STRUCT":
            def mem(m):
                s.own(m)
                return (s.str(s.f(m, "DStructMember", "name")), s.dt(s.f(m, "DStructMember", "dtype")), s.f(m, "DStructMember", "memory_offset"))
            return (k, s.str(s.f(sub, "DStruct", "name")), s.vec(s.f(sub, "DStruct", "members"), mem), s.f(sub, "DStruct", "nbytes"), s.f(sub, "DStruct", "alignment"))
        if k == "ENUM":
            def mem(m):
                s.own(m); return (s.str(s.f(m, "DEnumMember", "name")), s.f(m, "DEnumMember", "value"))
            return (k, s.str(s.f(sub, "DEnum", "name")), s.vec(s.f(sub, "DEnum", "members"), mem))
        if k == "FUNCTION":
            def par(m):
                s.own(m); return (s.str(s.f(m, "DParam", "name")), s.dt(s.f(m, "DParam", "dtype")))
            return (k, s.vec(s.f(sub, "DFunction", "params"), par), s.dt(s.f(sub, "DFunction", "return_dtype")))
        return (k,)
    # trees
    def il(s, p):
        if isn(p): return None
        s.own(p)
        if isopq(s.ex, p): s.ex.obj(p.b, "literal"); return ("opq", opq(s.ex, p))
        return tuple(s.f(p, "IntegerLiteral", n) for n in ("type", "signed_value", "unsigned_value"))
    def sl(s, p):
        if isn(p): return None
        s.own(p)
        if isopq(s.ex, p): s.ex.obj(p.b, "literal"); return ("opq", opq(s.ex, p))
        v = s.f(p, "StringLiteral", "value"); n = s.f(p, "StringLiteral", "size")
        if not isinstance(n, int): raise Structural("string literal of symbolic size")
        s.own(v)
        o = s.ex.obj(v.b, "string literal")
        return (n, tuple(s.ex.eread(P(v.b, i), "char") for i in range(n)))
    def srt(s, p):
        ex = s.ex
        if isn(p): return None
        s.own(p)
        if isopq(ex, p): ex.obj(p.b, "tree"); return ("opq", opq(ex, p))
        t = s.f(p, "Srt", "type")
        return ("SRT", name_of(ex, "SRT_", t), s.dt(s.f(p, "Srt", "dtype")), s.str(s.f(p, "Srt", "ident_name")), s.f(p, "Srt", "sliteral_id"),
                s.il(s.f(p, "Srt", "iliteral")), s.sl(s.f(p, "Srt", "sliteral")), s.vec(s.f(p, "Srt", "children"), s.srt))
    def ast(s, p):
        ex = s.ex
        if isn(p): return None
        s.own(p)
        if isopq(ex, p): ex.obj(p.b, "tree"); return ("opq", opq(ex, p))
        t = s.f(p, "Ast", "type")
        return ("AST", name_of(ex, "AST_", t), s.str(s.f(p, "Ast", "ident_name")), s.il(s.f(p, "Ast", "iliteral")), s.sl(s.f(p, "Ast", "sliteral")),
                s.vec(s.f(p, "Ast", "children"), s.ast))
def isn(p): return isinstance(p, P) and isinstance(p.b, int) and p.b == 0
def name_of(ex, pre, v):
    if isz(v): return v
    for k, x in ex.tu.enums.items():
        if k.startswith(pre) and x == v: return k[len(pre):]
    return ("?", v)
def same(ex, a, b):
    """equality of two descriptions as a formula (or bool)"""
    if isinstance(a, (tuple, list)) or isinstance(b, (tuple, list)):
        if not (isinstance(a, (tuple, list)) and isinstance(b, (tuple, list))) or len(a) != len(b): return False
        fs = []
        for x, y in zip(a, b):
            r = same(ex, x, y)
            if r is False: return False
            if r is not True: fs.append(r)
        return z3.And(*fs) if fs else True
    if isz(a) or isz(b):
        if a is None or b is None or isinstance(a, str) or isinstance(b, str): return False
        if isz(a) and isz(b) and a.eq(b): return True
        return ex.ieq(a, b)
    return a == b
def dt_read(ex, p): 
    r = Rd(ex); d = r.dt(p); return d, r.foot
def srt_read(ex, p):
    r = Rd(ex); d = r.srt(p); return d, r.foot
def mksrt(ex, kind, dtype, children=(), ident=None, sid=-1, il=None, sl=None):
    """Srt node; dtype: description or None; children: pointers"""
    return rec(ex, "Srt", type=ex.tu.enums["SRT_" + kind] if isinstance(kind, str) else kind, dtype=dt(ex, dtype), ident_name=st(ex, ident), sliteral_id=sid,
               iliteral=il if il is not None else NULL, sliteral=sl if sl is not None else NULL, children=absx.new_vec(ex, list(children), G(ex, "t_srt")))
def mkast(ex, kind, children=(), ident=None, il=None, sl=None):
    return rec(ex, "Ast", type=ex.tu.enums["AST_" + kind] if isinstance(kind, str) else kind, ident_name=st(ex, ident), iliteral=il if il is not None else NULL,
               sliteral=sl if sl is not None else NULL, children=absx.new_vec(ex, list(children), G(ex, "t_ast")))

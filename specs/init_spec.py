"""Contracts of initialisers: which part of the object each written or missing value goes to (resolver), and the bytes or stores it becomes (code generator).

An aggregate has any number of elements or members (its element and member lists are symbolic); a part of an initialiser is translated by contract, which is the
induction over the depth of the type."""
import z3, os
import absx, runner, objs
from objs import *
import imm_spec as M
import resolve_spec as R
zi = lambda v: v if isz(v) else z3.IntVal(int(v))
TRUSTED = M.TRUSTED
RF = R.FILES + [f for f in ["src/resolver/declaration.c", "src/resolver/external.c", "src/resolver/utils.c", "src/resolver/resolver.c", "src/error/errint.c"] if f not in R.FILES]
_rtu = None
def rtu():
    global _rtu
    if _rtu is None: _rtu = TU([f for f in RF if os.path.exists(os.path.join(runner.REPO, f))])
    return _rtu
# ---------------------------------------------------------------- lists of any length
def symvec(ex, n, at):
    b = ex.heap.new(None); ex.heap.objs[b].tag = ["symvec", n, at]; return P(b, 0)
def installsym(e):
    o = e.overrides; v_at, v_size = o["vector_at"], o["vector_size"]
    def sv(ex, p):
        ob = ex.obj(p.b, "list"); return ob.tag if isinstance(ob.tag, list) and ob.tag[0] == "symvec" else None
    def size(ex, a): s = sv(ex, a[0]); return v_size(ex, a) if s is None else s[1]
    def at(ex, a): s = sv(ex, a[0]); return v_at(ex, a) if s is None else s[2](ex, a[1])
    o["vector_at"] = at; o["vector_size"] = size
    def nbytes(ex, a): return ex.ghost["size"](opq(ex, a[0])) if isopq(ex, a[0]) and "size" in ex.ghost else NotImplemented
    o["dtype_nbytes"] = nbytes
def lazy(ex, make, n, what):
    """elements of a list of length n, made when first taken; the same index gives the same object"""
    made = []
    def at(ex, i):
        i = zi(i); ex.oblige(f"only existing {what} are taken", z3.And(i >= 0, i < n), "pre")
        for j, p in made:
            if z3.simplify(i - j).eq(z3.IntVal(0)): return p
        p = make(i); made.append((i, p)); return p
    at.made = made
    at.index = lambda p: next((j for j, q in made if isinstance(p, P) and p.b == q.b), None)
    return at
def tell(ex, w): ex.eng.reach.append((w, list(ex.pc)))
class Arr:
    """an array type with n elements of one opaque type"""
    def __init__(s, ex, agg=False):
        s.ex = ex; s.n = ex.fresh("n"); ex.assume(z3.And(s.n >= 1, s.n < 2**24)); s.nb = ex.fresh("nb"); ex.assume(z3.And(s.nb >= 1, s.nb < 2**24, s.n * s.nb < 2**30))
        s.e = opaque(ex, "dtype", "element"); ex.heap.objs[s.e.b].fields["type"] = ex.tu.enums["DTYPE_STRUCT" if agg else "DTYPE_INT"]
        ex.ghost["size"] = lambda d: s.nb; ex.ghost["agg"] = lambda d: agg
        s.p = rec(ex, "DType", type=ex.tu.enums["DTYPE_ARRAY"], dpointer=NULL, darray=rec(ex, "DArray", of_dtype=s.e, size=s.n), dstruct=NULL, denum=NULL, dfunction=NULL, dtypedef=NULL)
        s.total = s.n * s.nb; s.named = None
    def start(s, i): return i * s.nb
    def size(s, i): return s.nb
    def istype(s, p, i): return isinstance(p, P) and p.b == s.e.b
class Str:
    """a struct type with n members; named: the type seen has no members, the tag table has them"""
    def __init__(s, ex, named=False):
        s.ex = ex; s.n = ex.fresh("n"); ex.assume(z3.And(s.n >= 1, s.n < 2**24)); I = z3.IntSort()
        s.OFF, s.SZ, s.AG = z3.Function("OFF", I, I), z3.Function("SZ", I, I), z3.Function("AG", I, z3.BoolSort()); s.total = ex.fresh("total")
        ex.assume(z3.And(s.OFF(0) == 0, s.total >= 1, s.total < 2**30)); s.types = []
        def member(i):
            t = opaque(ex, "dtype", ("T", i)); k = ex.fresh("kind"); ex.heap.objs[t.b].fields["type"] = k; ex.assume(k == z3.If(s.AG(i), ex.tu.enums["DTYPE_STRUCT"], ex.tu.enums["DTYPE_INT"]))
            s.types.append((i, t))
            ex.assume(z3.And(s.OFF(i) >= 0, s.SZ(i) >= 1, z3.Implies(i + 1 < s.n, s.OFF(i + 1) >= s.OFF(i) + s.SZ(i)), z3.Implies(i + 1 == s.n, s.total >= s.OFF(i) + s.SZ(i)), s.OFF(i) + s.SZ(i) <= s.total))
            return rec(ex, "DStructMember", name=st(ex, "m"), dtype=t, memory_offset=s.OFF(i))
        s.at = lazy(ex, member, s.n, "members")
        ex.ghost["size"] = lambda d: s.SZ(d[1]); ex.ghost["agg"] = lambda d: s.AG(d[1])
        def typ(members): return rec(ex, "DType", type=ex.tu.enums["DTYPE_STRUCT"], dpointer=NULL, darray=NULL, dstruct=rec(ex, "DStruct", name=st(ex, "s"), members=members, nbytes=s.total, alignment=8), denum=NULL, dfunction=NULL, dtypedef=NULL)
        s.full = typ(symvec(ex, s.n, s.at)); s.p = typ(NULL) if named else s.full; s.named = named
    def start(s, i): return z3.If(i < s.n, s.OFF(i), s.total)
    def size(s, i): return s.SZ(i)
    def istype(s, p, i):
        for j, t in s.types:
            if isinstance(p, P) and p.b == t.b: return j == i
        return False
def tagsearch(ex, agg, tp):
    def f(ex, a):
        ex.oblige("the members of a struct are looked up by its tag in the current scope", a[0] == tp and strid(ex, a[1]) == "s" and agg.named is not None, "post"); return agg.full
    ex.eng.overrides["tagtable_search"] = f
def loops(ex):
    """every loop of the initialiser functions gets the same contract (told apart by when they run)"""
    m = {}
    def walk(x, k):
        if x is None: return
        if x.kind in ("ForStmt", "WhileStmt", "DoStmt"): m[x.id] = k
        for c in x.inner: walk(c, k)
    for fn in ex.tu.funcs:
        if fn in ex.eng.overrides or ex.tu.funcs[fn] is None: continue
        if "initializer" in fn: walk(ex.tu.funcs[fn], 0)
    return m
# ---------------------------------------------------------------- code generator
def mk():
    e = M.mk("int"); installsym(e); return e
def mkbv(): return M.mk("bv")
def gen(ex, dtype, kids, local, off, sp=None):
    s = {}
    s["sp"] = rec(ex, "SymbolTable", symbol_map=opaque(ex, "map", "m"), outer_scope=opaque(ex, "symboltable", "outer") if local else NULL, memory_nbytes=0); s["tp"] = opaque(ex, "tagtable", "tp")
    s["srt"] = rec(ex, "Srt", type=ex.tu.enums["SRT_INIT"], dtype=NULL, ident_name=NULL, sliteral_id=-1, iliteral=NULL, sliteral=NULL, children=kids)
    s["g"] = rec(ex, "Immcgen", srt=s["srt"], symbol_table=s["sp"], tag_table=s["tp"], expr_reg_suffix=0, expr_reg=NULL, next_reg_id=20, initialized_dtype=dtype, initialized_offset=off, continue_label_id=3, break_label_id=4, return_label_id=0, case_label_values=absx.new_vec(ex, [], G(ex, "t_pair")), default_label_id=7, label_id=40)
    return s
def data(ex, c):
    """bytes a piece of data takes: ("zero", n) or ("value", n, literal) or ("str", literal)"""
    E = ex.tu.enums; f = ex.obj(c.b, "code").fields
    if f["type"] != E["IMMC_DATA"]: return None
    d = ex.obj(f["data"].b, "data").fields
    nm = next(k for k, v in E.items() if k.startswith("IMMC_DATA_") and v == d["type"])[10:]
    if nm == "STR": return ("str", d["sliteral"])
    l = ex.obj(d["iliteral"].b, "literal").fields; t = next(k for k, v in E.items() if k.startswith("INTEGER_") and v == l["type"]); v = l["unsigned_value"] if "UNSIGNED" in t else l["signed_value"]
    return ("zero", v) if nm == "ZERO" else ("value", M.NB[nm], v)
def h_aggregate(kind, local):
    def h(ex):
        g = ex.ghost; agg = Arr(ex) if kind == "array" else Str(ex, kind == "tagged struct"); n = agg.n; OFF0 = ex.fresh("offset"); ex.assume(z3.And(OFF0 > 0, OFF0 < 2**30, OFF0 >= agg.total))
        kid = lazy(ex, lambda i: rec(ex, "Srt", type=ex.tu.enums["SRT_INIT"], dtype=NULL, ident_name=NULL, sliteral_id=-1, iliteral=NULL, sliteral=NULL, children=opaque(ex, "list", "parts")), n, "parts of the initialiser")
        s = gen(ex, agg.p, symvec(ex, n, kid), local, OFF0); f = ex.heap.objs[s["g"].b].fields; tagsearch(ex, agg, s["tp"])
        fresh = {v for v, o in ex.heap.objs.items()}
        def child(ex, a):
            cur = f["srt"]
            if isinstance(cur, P) and cur.b == s["srt"].b: ex.oblige("the initialiser is not translated twice", g.setdefault("top", 0) == 0, "post"); g["top"] = 1; return NotImplemented
            i = kid.index(cur)
            if i is None: ex.oblige("only parts of the initialiser are translated", False, "post")
            ex.oblige("a part is given the type of the element or member it initialises", agg.istype(f["initialized_dtype"], i), "post")
            if local: ex.oblige("a part is stored where its element or member lies", zi(f["initialized_offset"]) == OFF0 - agg.start(i), "post"); f["initialized_offset"] = OFF0 - agg.start(i) - agg.size(i)
            ex.oblige("a part is translated in the scope of the node", f["symbol_table"] == s["sp"] and f["tag_table"] == s["tp"], "post")
            f["initialized_dtype"] = opaque(ex, "dtype", "any"); m = rec(ex, "Immc", type=ex.tu.enums["IMMC_INST"], inst=NULL, data=NULL, label=NULL); ex.heap.objs[m.b].tag = ["part", i]
            return absx.new_vec(ex, [m], G(ex, "t_immc"))
        g["child"] = child
        def codes():
            c = [o for b, o in ex.heap.objs.items() if b not in fresh and o.alive and isinstance(o.tag, list) and o.tag[0] == "vec" and isinstance(o.tag[2], GPtr) and o.tag[2].name == "t_immc"]
            if len(c) != 1: raise Structural("the code built so far is not one list")
            return c[0].tag[1]
        def read(c): 
            t = ex.heap.objs[c.b].tag if isinstance(c, P) else c
            return t if isinstance(t, (list, tuple)) else data(ex, c)
        def inv(c):
            i = c.i("i"); r = [("the index is inside the list", z3.And(i >= 0, i <= n))]
            if "I" not in g: r.append(("nothing comes before the first part", z3.And(z3.BoolVal(codes() == []), i == 0)))
            if local and kind == "array": r.append(("the place of the next element", zi(f["initialized_offset"]) == OFF0 - agg.start(i)))
            return r
        def havoc(c):
            i = ex.fresh("i"); c.L.cell("i").v = i; g["I"] = i; codes()[:] = [("up to", i)]; f["initialized_dtype"] = opaque(ex, "dtype", "any")
            if local: f["initialized_offset"] = ex.fresh("offset")
        def step(c):
            k = g["I"]; cs = [read(x) for x in codes()]; ok = len(cs) >= 2 and cs[0][0] == "up to" and cs[1][0] == "part" and all(x[0] == "zero" for x in cs[2:])
            ex.oblige("an iteration adds the code of exactly one part, then padding", ok, "inv"); ex.oblige("the parts are added in order", z3.And(cs[1][1] == k, c.i("i") == k + 1), "inv")
            if local: ex.oblige("stores leave padding alone", len(cs) == 2, "inv")
            else:
                pad = z3.IntVal(0)
                for x in cs[2:]: ex.oblige("padding has a positive length", zi(x[1]) > 0, "post"); pad = pad + zi(x[1])
                ex.oblige("each element or member starts at its own offset, and the object has its size", agg.start(k) + agg.size(k) + pad == agg.start(k + 1), "post")
            tell(ex, "part")
        def exit_(c): g["done"] = g["I"] == n
        ex.loop_map = loops(ex); ex.eng.loopspecs = {0: dict(inv=inv, havoc=havoc, step=step, exit=exit_, ptr=lambda c, x: x.v, dec=lambda c: n - c.i("i"))}
        r = ex.call(FnVal("immcgen_generate_immcode"), [s["g"]], None); cs = absx.vec(ex, r)[1]
        ex.oblige("every element or member is initialised", z3.And(z3.BoolVal(len(cs) == 1 and isinstance(cs[0], tuple)), g.get("done", z3.BoolVal(False))), "post")
        if local: ex.oblige("the place behind the object is where it ends", zi(f["initialized_offset"]) == OFF0 - agg.total, "post")
        ex.oblige("the generator is back at its node", f["srt"] == s["srt"], "post"); tell(ex, "all")
    return h
LT = {"INT": (32, 1), "UNSIGNED_INT": (32, 0), "LONG": (64, 1), "UNSIGNED_LONG": (64, 0), "LONGLONG": (64, 1), "UNSIGNED_LONGLONG": (64, 0), "CHAR": (8, 1), "ENUM": (32, 1), "POINTER": (64, 0)}
LITS = ["INT", "UNSIGNED_INT", "LONG", "UNSIGNED_LONG", "LONGLONG", "UNSIGNED_LONGLONG"]
D = lambda k: ("POINTER", ("INT",)) if k == "POINTER" else ("ENUM", "e1", None) if k == "ENUM" else (k,)
def cv(v, k):
    n, sg = LT[k]; x = z3.Extract(n - 1, 0, v)
    return v if n == 64 else (z3.SignExt(64 - n, x) if sg else z3.ZeroExt(64 - n, x))
def h_global_scalar(k):
    def h(ex):
        lt = LITS[ex.choose(6)]; v = cv(ex.fresh("v", z3.BitVecSort(64)), lt); un = LT[lt][1] == 0
        il = rec(ex, "IntegerLiteral", type=ex.tu.enums["INTEGER_" + lt], signed_value=z3.BitVecVal(0, 64) if un else v, unsigned_value=v if un else z3.BitVecVal(0, 64))
        if not un: pass
        t = mksrt(ex, "ILITERAL_EXPR", D(lt), il=il); cur = lt
        for x in range(ex.choose(3 if runner.TIER == "thorough" else 2)):
            c = list(LT)[ex.choose(9)]; t = mksrt(ex, "CAST_EXPR", D(c), [t]); v = cv(v, c); cur = c
        if cur != k: t = mksrt(ex, "CAST_EXPR", D(k), [t])
        s = gen(ex, dt(ex, D(k)), absx.new_vec(ex, [t], G(ex, "t_srt")), False, -1); ex.ghost["child"] = lambda ex, a: NotImplemented
        cs = absx.vec(ex, ex.call(FnVal("immcgen_generate_immcode"), [s["g"]], None))[1]; d = data(ex, cs[0]) if len(cs) == 1 else None
        ex.oblige("one value is emitted", d is not None and d[0] == "value", "post"); n = 8 * SIZE[k]
        ex.oblige("the value has the size of the object", d[1] * 8 == n, "post")
        w = d[2] if isz(d[2]) else z3.BitVecVal(d[2], 64)
        ex.oblige("the value is the constant converted to the type of the object", z3.Extract(n - 1, 0, w) == z3.Extract(n - 1, 0, cv(v, k)), "post"); tell(ex, k)
    return h
def h_local_scalar(k, form):
    def h(ex):
        d = D(k); off = ex.fresh("offset"); ex.assume(z3.And(off > 0, off < 2**30)); kids = []
        if form == "expr": p = mksrt(ex, "IDENT_EXPR", d, ident="x")
        else: p = mksrt(ex, "ILITERAL_EXPR", d, il=rec(ex, "IntegerLiteral", type=ex.tu.enums["INTEGER_INT"], signed_value=37, unsigned_value=0))
        sp = rec(ex, "SymbolTable", symbol_map=opaque(ex, "map", "m"), outer_scope=opaque(ex, "symboltable", "outer"), memory_nbytes=0)
        w = M.W(ex, mksrt(ex, "INIT", None, [p]), initialized_dtype=dt(ex, d), initialized_offset=off, symbol_table=sp); w.sp = sp; w.what = "initialiser"
        if form == "expr": w.kid(p, "value", dtype=d)
        prog = w.run(); body = prog[1:] if form == "expr" else prog
        ex.oblige("the value is computed once, first", form != "expr" or prog[:1] == [("mark", "value")], "post")
        ok = len(body) == 1 and body[0][0] == "inst" and body[0][1] == "STORE" and body[0][2] is not None and body[0][2][0] == "MEM" and body[0][4] is None
        ex.oblige("the value is stored once", ok, "post"); dst, src = body[0][2], body[0][3]
        ex.oblige("the value is stored at the object's place", zi(dst[2]) == off, "post"); ex.oblige("the width of the store is that of the object", src[1] == M.SUF[SIZE[k]], "post")
        if form == "expr": ex.oblige("the value stored is the one computed", src[0] == "REG" and src[2] == w.kids[p.b]["reg"], "post")
        else: ex.oblige("the value stored is the constant", src[0] == "INT" and src[2] == 37, "post")
        ex.oblige("the place of the next object", zi(w.f["initialized_offset"]) == off - SIZE[k], "post"); tell(ex, "store")
    return h
def h_string(local):
    def h(ex):
        n = ex.fresh("n"); ex.assume(z3.And(n >= 1, n < 2**24)); off = ex.fresh("offset"); ex.assume(z3.And(off >= n, off < 2**30)); sl = opaque(ex, "sliteral", "text"); s_ = mksrt(ex, "SLITERAL_EXPR", ("ARRAY", ("CHAR",), n), sl=sl)
        s = gen(ex, dt(ex, ("ARRAY", ("CHAR",), n)), absx.new_vec(ex, [s_], G(ex, "t_srt")), local, off); ex.ghost["child"] = lambda ex, a: NotImplemented; E = ex.tu.enums
        cs = absx.vec(ex, ex.call(FnVal("immcgen_generate_immcode"), [s["g"]], None))[1]; ex.oblige("one piece of code", len(cs) == 1, "post")
        same_ = lambda p: isinstance(p, P) and isopq(ex, p) and opq(ex, p) == "text" and p.b != sl.b
        if not local: d = data(ex, cs[0]); ex.oblige("the string itself is emitted", d is not None and d[0] == "str" and same_(d[1]), "post")
        else:
            f = ex.obj(cs[0].b, "code").fields; ex.oblige("a string store", f["type"] == E["IMMC_INST"], "post"); i = ex.obj(f["inst"].b, "instruction").fields
            ex.oblige("a string store", i["type"] == E["IMMC_INST_STR"] and isn(i["snd_src"]), "post"); a, b = ex.obj(i["dst"].b, "operand").fields, ex.obj(i["fst_src"].b, "operand").fields
            ex.oblige("the string is stored at the object's place", z3.And(z3.BoolVal(a["type"] == E["IMMC_OPERAND_MEM"]), zi(a["mem_offset"]) == off), "post"); ex.oblige("the string itself is stored", b["type"] == E["IMMC_OPERAND_STR"] and same_(b["sliteral"]), "post")
            ex.oblige("the place of the next object", zi(ex.heap.objs[s["g"].b].fields["initialized_offset"]) == off - n, "post")
        tell(ex, "string")
    return h
def h_decl(local, what):
    """what: none (no initialiser), init, function, string (a string literal of the program)"""
    def h(ex):
        g = ex.ghost; size = ex.fresh("size"); ex.assume(z3.And(size >= 1, size < 2**30)); off = ex.fresh("offset"); ex.assume(z3.And(off >= size, off < 2**30)); g["size"] = lambda d: size
        fn = what == "function"; d = dt(ex, ("FUNCTION", [], ("INT",))) if fn else dt(ex, ("STRUCT", "t", None, size, 8)); sl = what == "string"
        decl = mksrt(ex, "STR_DECL" if sl else "IDENT_DECL", None, ident=None if sl else "x", sid=5 if sl else -1); ex.heap.objs[decl.b].fields["dtype"] = d
        init = mksrt(ex, "INIT", None, []); kids = [decl] + ([init] if what in ("init", "string") else [])
        sp = rec(ex, "SymbolTable", symbol_map=opaque(ex, "map", "m"), outer_scope=opaque(ex, "symboltable", "outer") if local else NULL, memory_nbytes=0)
        w = M.W(ex, mksrt(ex, "INIT_DECL", None, kids), symbol_table=sp); w.sp = sp; w.what = "declaration"; seen = []
        name = ("string label", 5) if sl else "x"; E = ex.tu.enums; symd = dt(ex, ("FUNCTION", [], ("INT",))) if fn else dt(ex, ("STRUCT", "t", None, size, 8))
        def search(ex, a):
            ex.oblige("the object is looked up once it is declared, by its name", a[0] == sp and strid(ex, a[1]) == name and seen == ["declaration"], "post")
            return rec(ex, "Symbol", type=E["SYMBOL_MEM" if local else "SYMBOL_LABEL"], name=st(ex, "x"), dtype=symd, memory_offset=off, iliteral=NULL)
        ex.eng.overrides["symboltable_search"] = search
        def lab(ex, a): return absx.new_str(ex, ("string label", a[0]))
        ex.eng.overrides["create_sliteral_label"] = lab
        def kid(nm):
            def gen(ex, s, k):
                seen.append(nm)
                if nm == "initialiser":
                    ex.oblige("the initialiser is given the object's type", isinstance(s.f["initialized_dtype"], P) and s.f["initialized_dtype"].b == symd.b, "post")
                    if local: ex.oblige("the initialiser is given the object's place", zi(s.f["initialized_offset"]) == off, "post")
                    s.f["initialized_dtype"] = opaque(ex, "dtype", "any"); s.f["initialized_offset"] = ex.fresh("o")
                return [s.marker(nm)]
            return dict(gen=gen)
        w.kid(decl, "declaration", **kid("declaration"))
        if len(kids) > 1: w.kid(init, "initialiser", **kid("initialiser"))
        prog = w.run(); ms = [("mark", "declaration")]
        if local or fn: ex.oblige("a local declaration emits its own and its initialiser's code", prog == ms + ([("mark", "initialiser")] if len(kids) > 1 else []), "post")
        else:
            ex.oblige("a label, then the contents", len(prog) == 3 and prog[0] == ms[0] and prog[1][0] == "label", "post")
            l = ex.obj(ex.obj(prog[1][2], "code").fields["label"].b, "label").fields
            ex.oblige("the label is the object's", strid(ex, l["name"]) == name and l["type"] == E["IMMC_LABEL_VARIABLE"] and l["visibility"] == E["IMMC_VIS_GLOBAL"], "post")
            if len(kids) > 1: ex.oblige("the contents are those of the initialiser", prog[2] == ("mark", "initialiser"), "post")
            else: z = data(ex, prog[2][1]) if prog[2][0] == "data" else None; ex.oblige("an object without initialiser is as many zero bytes as it is long", z3.And(z3.BoolVal(z is not None and z[0] == "zero"), zi(z[1]) == size if z else False), "post")
        tell(ex, what)
    return h
def gen_units():
    u = [(f"code of an initialised {'local' if l else 'global'} {k}", mk, h_aggregate(k, l)) for k in ("array", "struct", "tagged struct") for l in (0, 1)]
    u += [(f"code of an initialised global {k}", mkbv, h_global_scalar(k)) for k in LT]
    u += [(f"code of an initialised local {k}", mk, R.allof([(x, h_local_scalar(k, x)) for x in ("expr", "constant")])) for k in LT]
    u += [(f"code of an initialised {'local' if l else 'global'} string", mk, h_string(l)) for l in (0, 1)]
    u += [(f"code of a {'local' if l else 'global'} declaration", mk, R.allof([(x, h_decl(l, x)) for x in ("none", "init", "function") + (() if l else ("string",))])) for l in (0, 1)]
    return u
# ---------------------------------------------------------------- resolver
def upto(ex, p):
    d = opq(ex, p) if isopq(ex, p) else None
    return d[1] if isinstance(d, tuple) and d[0] == "up to" else None
def rmk(mode="int"):
    def f():
        e = Engine(rtu(), mode=mode, heap="conc"); objs.install(e); installsym(e); e.batch = True; o = e.overrides
        o["resolve_expr"] = R.c_resolve_expr
        def isagg(ex, a):
            if not (isopq(ex, a[0]) and "agg" in ex.ghost): return NotImplemented
            r = ex.ghost["agg"](opq(ex, a[0])); return z3.If(r, 1, 0) if isz(r) else int(r)
        o["dtype_isaggregate"] = isagg
        def sub(which):
            def f(ex, a): h = ex.ghost.get(which); return NotImplemented if h is None else h(ex, a)
            return f
        o["resolve_initializer"] = sub("init"); o["resolve_zero_initializer"] = sub("zero")
        def pad(ex, a):
            if not isopq(ex, a[0]): return NotImplemented
            return opaque(ex, "sliteral", ("padded", opq(ex, a[0]), a[1]))
        o["sliteral_zero_padding_copy"] = pad
        return e
    return f
def ret(ex, srt=None, errs=None): return rec(ex, "ResolverReturn", srt=srt if srt is not None else NULL, errs=errs if errs is not None else NULL)
def result(ex, p): o = ex.obj(p.b, "result").fields; ex.oblige("a result or errors, not both", isn(o["srt"]) != isn(o["errs"]), "post"); return o
def inited(ex, p, what):
    """children of an INIT node"""
    f = ex.obj(p.b, "tree").fields; ex.oblige(f"{what}: an initialiser node", f["type"] == ex.tu.enums["SRT_INIT"], "post"); return f
def h_list(kind):
    """a braced list for an aggregate: which written value goes to which element, and zeros for the rest"""
    def h(ex):
        g = ex.ghost; E = ex.tu.enums
        agg = Arr(ex, ex.choose(2) == 1) if kind == "array" else Str(ex, kind == "tagged struct"); n = agg.n; I = z3.IntSort()
        m = ex.fresh("m"); ex.assume(z3.And(m >= 0, m < 2**24)); nested = ex.choose(2); o0 = ex.fresh("o"); ex.assume(z3.And(o0 >= 0, o0 <= m, z3.BoolVal(nested == 1) if not isinstance(nested, int) else (o0 == 0 if not nested else True)))
        KIND = z3.Function("KIND", I, z3.BoolSort()); Z = {}
        def part(i):
            t = ex.fresh("type"); ex.assume(z3.And(z3.Or(t == E["AST_INIT_LIST"], z3.And(t >= E["AST_ASSIGN_EXPR"], t <= E["AST_STRING_EXPR"])), (t == E["AST_INIT_LIST"]) == KIND(i)))
            return rec(ex, "Ast", type=t, ident_name=NULL, iliteral=NULL, sliteral=NULL, children=opaque(ex, "list", "inner"))
        parts = lazy(ex, part, m, "written parts")
        ast = rec(ex, "Ast", type=E["AST_INIT_LIST"], ident_name=NULL, iliteral=NULL, sliteral=NULL, children=symvec(ex, m, parts)); tp = opaque(ex, "tagtable", "tp")
        r = R.resolver(ex, ast, initialized_dtype=agg.p, initialized_offset=o0, is_nested_initializing=nested, tag_table=tp, symbol_table=opaque(ex, "symboltable", "sp")); f = ex.heap.objs[r.b].fields; tagsearch(ex, agg, tp)
        fresh = set(ex.heap.objs)
        isagg = lambda i: g["agg"](("T", i) if kind != "array" else "element")
        def tree(what, i): t = rec(ex, "Srt", type=E["SRT_INIT"], dtype=NULL, ident_name=NULL, sliteral_id=-1, iliteral=NULL, sliteral=NULL, children=absx.new_vec(ex, [], G(ex, "t_srt"))); ex.heap.objs[t.b].tag = [what, i]; return t
        g["k"] = z3.IntVal(0); g["o"] = o0; g["phase"] = "start"
        def first(ex):
            if g["phase"] == "start": g["phase"] = "in"; return True
            return False
        def init(ex, a):
            if first(ex): return NotImplemented
            k, o = g["k"], g["o"]; ex.oblige("one part for one element", "made" not in g, "post"); ex.oblige("a written value is left for the element", z3.And(o < m, k < n), "post")
            ex.oblige("a part is given the type of the element or member", agg.istype(f["initialized_dtype"], k), "post"); cur = f["ast"]
            inner = z3.And(isagg(k) if isz(isagg(k)) else z3.BoolVal(bool(isagg(k))), z3.Not(KIND(o)))
            if ex.branch(inner):
                ex.oblige("a list without braces goes on filling the inner aggregate from the same list", z3.And(z3.BoolVal(cur == ast), zi(f["initialized_offset"]) == o, zi(f["is_nested_initializing"]) != 0), "post")
                o2 = ex.fresh("o"); ex.assume(z3.And(o2 >= o, o2 <= m)); f["initialized_offset"] = o2; g["o"] = o2
            else:
                j = parts.index(cur)
                ex.oblige("a value or a braced list initialises one element on its own", z3.And(z3.BoolVal(j is not None), (j if j is not None else z3.IntVal(-1)) == o, zi(f["initialized_offset"]) == 0, zi(f["is_nested_initializing"]) == 0), "post")
                f["initialized_offset"] = ex.fresh("o"); g["o"] = o + 1
            f["is_nested_initializing"] = f["is_nested_initializing"]; f["initialized_dtype"] = opaque(ex, "dtype", "any")
            if ex.choose(2): g["made"] = "error"; return ret(ex, errs=absx.new_vec(ex, [opaque(ex, "error", "suberror")], G(ex, "t_error")))
            g["made"] = tree("value", k); return ret(ex, g["made"])
        def zero(ex, a):
            k = g["k"]; ex.oblige("one part for one element", "made" not in g, "post"); ex.oblige("only elements without a value are zeroed", z3.And(k < n, g["o"] >= m), "post") if not g.get("failed") else None
            ex.oblige("a zero is given the type of the element or member", agg.istype(f["initialized_dtype"], k), "post"); f["initialized_dtype"] = opaque(ex, "dtype", "any")
            g["made"] = tree("zero", k); return ret(ex, g["made"])
        g["init"] = init; g["zero"] = zero
        def kids():
            c = [o for b, o in ex.heap.objs.items() if b not in fresh and o.alive and o.rec == "Srt" and not isinstance(o.tag, list)]
            if len(c) != 1: raise Structural("the tree under construction is not one node")
            return absx.vec(ex, c[0].fields["children"])[1]
        def errs(c):
            v = c.L["errs"]; return not isn(v)
        def inv(c):
            k = c.i("aggregate_index"); r_ = [("the index is inside the aggregate", z3.And(k >= 0, k <= n)), ("the position in the list", z3.And(zi(f["initialized_offset"]) == g["o"], g["o"] >= 0, g["o"] <= m)), ("the way of nesting is as before", zi(f["is_nested_initializing"]) == nested)]
            if "cut" not in g: r_.append(("the first element first", z3.And(k == 0, z3.BoolVal(kids() == []))))
            else: r_.append(("elements so far", k == g["k"]))
            return r_
        def havoc(c):
            k = ex.fresh("k"); c.L.cell("aggregate_index").v = k; g["k"] = k; o = ex.fresh("o"); g["o"] = o; f["initialized_offset"] = o; g["cut"] = True; g.pop("made", None)
            g["loop"] = g.get("loop", 0) + 1
            kids()[:] = [opaque(ex, "srt", ("up to", k))]; f["initialized_dtype"] = opaque(ex, "dtype", "any"); f["ast"] = opaque(ex, "ast", "any"); g["e0"] = errs(c); g["zk"] = k
            if g["loop"] == 2: ex.assume(z3.And(k >= g["end"][0], o == g["end"][1])); 
        def ptr(c, x):
            if x.name == "errs": return absx.new_vec(ex, [opaque(ex, "error", "earlier")], G(ex, "t_error")) if ex.choose(2) else NULL
            return x.v
        def step(c):
            ks = kids(); md = g.get("made"); ex.oblige("an element is given one part", md is not None and True, "inv"); e = errs(c)
            ex.oblige("an error in a part is an error, and only that", e == (g["e0"] or isinstance(md, str)), "inv")
            if not e: ex.oblige("the part becomes the element's initialiser", len(ks) == 2 and upto(ex, ks[0]) is not None and upto(ex, ks[0]).eq(g["zk"]) and isinstance(ks[1], P) and isinstance(md, P) and ks[1].b == md.b, "inv")
            ex.oblige("the next element is the following one", c.i("aggregate_index") == g["k"] + 1, "inv"); g["k"] = g["k"] + 1; tell(ex, "part")
        def exit1(c):
            g["end"] = (g["k"], g["o"]); g["failed"] = errs(c); ex.oblige("written values are used up or every element has one", z3.Or(g["o"] >= m, g["k"] >= n), "post"); g.pop("made", None)
        def inv2(c):
            k = c.i("aggregate_index"); return [("the index is inside the aggregate", z3.And(k >= 0, k <= n, k == g["k"])), ("zeros come behind the written values", z3.And(k >= g["end"][0], zi(f["initialized_offset"]) == g["end"][1]))]
        def havoc2(c):
            k = ex.fresh("k"); c.L.cell("aggregate_index").v = k; g["k"] = k; g["zk"] = k; g.pop("made", None); kids()[:] = [opaque(ex, "srt", ("up to", k))]; f["initialized_dtype"] = opaque(ex, "dtype", "any"); f["ast"] = opaque(ex, "ast", "any")
        def step2(c):
            ks = kids(); md = g.get("made")
            if not g["failed"]: ex.oblige("the zero becomes the element's initialiser", len(ks) == 2 and upto(ex, ks[0]) is not None and upto(ex, ks[0]).eq(g["zk"]) and isinstance(ks[1], P) and isinstance(md, P) and ks[1].b == md.b, "inv")
            ex.oblige("the next element is the following one", c.i("aggregate_index") == g["k"] + 1, "inv"); g["k"] = g["k"] + 1; tell(ex, "zero")
        lm = {}; order = []
        def walk(x):
            if x is None: return
            if x.kind in ("ForStmt", "WhileStmt", "DoStmt"): order.append(x)
            for c in x.inner: walk(c)
        walk(ex.tu.funcs["resolve_aggregate_initializer"])
        def calls(x, out):
            if x is None: return out
            if x.kind == "DeclRefExpr" and x.ref and x.ref[0] == "FunctionDecl": out.add(x.ref[1])
            for c in x.inner: calls(c, out)
            return out
        for x in order: lm[x.id] = 1 if "resolve_zero_initializer" in calls(x, set()) else 0
        if sorted(lm.values()) != [0, 1]: raise Structural("the loops over written and missing values are not found")
        ex.loop_map = lm
        ex.eng.loopspecs = {0: dict(inv=inv, havoc=havoc, step=step, exit=exit1, ptr=ptr, dec=lambda c: n - c.i("aggregate_index")), 1: dict(inv=inv2, havoc=havoc2, step=step2, ptr=lambda c, x: x.v, dec=lambda c: n - c.i("aggregate_index"))}
        o = result(ex, ex.call(FnVal("resolve_initializer"), [r], None)); ok = not isn(o["srt"]); left = z3.And(z3.BoolVal(not nested), g["o"] < m)
        ex.oblige("too many values are an error, and nothing else but an error in a part", z3.Or(left, z3.BoolVal(bool(g["failed"]))) if not ok else z3.And(z3.Not(left), z3.BoolVal(not g["failed"])), "post")
        ex.oblige("the resolver is back at the list", f["ast"] == ast, "post"); ex.oblige("values not used are left to the outer aggregate", zi(f["initialized_offset"]) == g["o"], "post")
        if ok:
            ks = absx.vec(ex, inited(ex, o["srt"], "list")["children"])[1]; ex.oblige("every element has an initialiser", z3.And(z3.BoolVal(len(ks) == 1 and upto(ex, ks[0]) is not None), (upto(ex, ks[0]) if ks and upto(ex, ks[0]) is not None else z3.IntVal(-1)) == n, g["k"] == n), "post")
        tell(ex, "done" if ok else "error")
    return h
def h_zero_aggregate(kind):
    def h(ex):
        g = ex.ghost; E = ex.tu.enums; agg = Arr(ex) if kind == "array" else Str(ex, kind == "tagged struct"); n = agg.n; tp = opaque(ex, "tagtable", "tp")
        r = R.resolver(ex, NULL, initialized_dtype=agg.p, initialized_offset=0, tag_table=tp); f = ex.heap.objs[r.b].fields; tagsearch(ex, agg, tp); fresh = set(ex.heap.objs); g["k"] = z3.IntVal(0)
        def zero(ex, a):
            if g.setdefault("top", 0) == 0: g["top"] = 1; return NotImplemented
            ex.oblige("one zero for one element", "made" not in g, "post"); ex.oblige("a zero is given the type of the element or member", agg.istype(f["initialized_dtype"], g["k"]), "post"); f["initialized_dtype"] = opaque(ex, "dtype", "any")
            t = rec(ex, "Srt", type=E["SRT_INIT"], dtype=NULL, ident_name=NULL, sliteral_id=-1, iliteral=NULL, sliteral=NULL, children=absx.new_vec(ex, [], G(ex, "t_srt"))); ex.heap.objs[t.b].tag = ["zero"]; g["made"] = t; return ret(ex, t)
        g["zero"] = zero
        def kids():
            c = [o for b, o in ex.heap.objs.items() if b not in fresh and o.alive and o.rec == "Srt" and not isinstance(o.tag, list)]
            if len(c) != 1: raise Structural("the tree under construction is not one node")
            return absx.vec(ex, c[0].fields["children"])[1]
        def inv(c): i = c.i("i"); return [("the index is inside the aggregate", z3.And(i >= 0, i <= n))] + ([("the first element first", z3.And(i == 0, z3.BoolVal(kids() == [])))] if "I" not in g else [])
        def havoc(c): i = ex.fresh("i"); c.L.cell("i").v = i; g["I"] = g["k"] = i; kids()[:] = [opaque(ex, "srt", ("up to", i))]; f["initialized_dtype"] = opaque(ex, "dtype", "any"); g.pop("made", None)
        def step(c): ks = kids(); md = g.get("made"); ex.oblige("each element is zeroed, in order", z3.And(z3.BoolVal(len(ks) == 2 and isinstance(ks[1], P) and isinstance(md, P) and ks[1].b == md.b), c.i("i") == g["I"] + 1), "inv"); tell(ex, "zero")
        def exit_(c): g["done"] = g["I"] == n
        ex.loop_map = loops(ex); ex.eng.loopspecs = {0: dict(inv=inv, havoc=havoc, step=step, exit=exit_, ptr=lambda c, x: x.v, dec=lambda c: n - c.i("i"))}
        o = result(ex, ex.call(FnVal("resolve_zero_initializer"), [r], None)); ex.oblige("zeroing does not fail", not isn(o["srt"]), "post")
        ks = absx.vec(ex, inited(ex, o["srt"], "zero")["children"])[1]; ex.oblige("every element is zeroed", z3.And(z3.BoolVal(len(ks) == 1), g.get("done", z3.BoolVal(False))), "post"); tell(ex, "done")
    return h
def h_zero_scalar(k):
    def h(ex):
        r = R.resolver(ex, NULL, initialized_dtype=dt(ex, D(k)), initialized_offset=0)
        o = result(ex, ex.call(FnVal("resolve_zero_initializer"), [r], None)); ex.oblige("zeroing does not fail", not isn(o["srt"]), "post"); t, foot = srt_read(ex, o["srt"])
        ex.oblige("an initialiser of one value", t[1] == "INIT" and len(t[7]) == 1, "post"); b, ch = R.base(t[7][0])
        ex.oblige("the value is zero", z3.And(z3.BoolVal(b[1] == "ILITERAL_EXPR" and b[5] is not None), ex.ieq(b[5][1], 0) if ex.tu.enums["INTEGER_INT"] == b[5][0] else ex.ieq(b[5][2], 0)), "post")
        ex.oblige("the value has the type of the object", R.deq(ch[-1] if ch else b[2], D(k)), "post"); ex.oblige("no object appears twice in the tree", len(set(foot)) == len(foot), "post"); tell(ex, k)
    return h
FORMS = ["expr", "braced", "braced list of two", "not an expression"]
def assignable(a, b):
    if R.isar(a) and R.isar(b): return True
    if a[0] == "POINTER" and b[0] == "POINTER": return R.deq(a, b) or a[1] == ("VOID",) or b[1] == ("VOID",)
    return False
def h_scalar(k, form):
    d = R.REP[k]
    def h(ex):
        E = ex.tu.enums; vs = R.KINDS; vk = vs[ex.choose(len(vs))] if form in ("expr", "braced") else "INT"; v = R.REP[vk]; ex.ghost["operands"] = {"a": v}; ex.ghost["case"] = vk
        p = R.A(ex, "a")[0]; bad = form == "not an expression"
        if bad: ex.heap.objs[p.b].fields["type"] = E["AST_INIT_LIST"]; ex.heap.objs[p.b].fields["children"] = absx.new_vec(ex, R.A(ex, "b"), G(ex, "t_ast"))
        ast = p if form == "expr" else mkast(ex, "INIT_LIST", [p] + (R.A(ex, "b") if form == "braced list of two" else []))
        if form == "expr" and ex.choose(2): ex.ghost["err"] = "a"
        o0 = ex.fresh("o", z3.BitVecSort(32)) if ex.eng.mode == "bv" else ex.fresh("o"); ex.assume(z3.And(o0 >= 0, o0 < 2**24))
        r = R.resolver(ex, ast, initialized_dtype=dt(ex, d), initialized_offset=o0); f = ex.heap.objs[r.b].fields
        o = result(ex, ex.call(FnVal("resolve_initializer"), [r], None)); good = form in ("expr", "braced") and "err" not in ex.ghost and assignable(d, R.decay(v))
        ex.oblige(f"{k} = {vk}: {'accepted' if good else 'rejected'}", isn(o["srt"]) != good, "post"); ex.oblige("the resolver is back at the initialiser", f["ast"] == ast or form == "braced list of two", "post")
        if good:
            ex.oblige("one value of the list is used", ex.ieq(f["initialized_offset"], o0 + 1), "post")
            t, foot = srt_read(ex, o["srt"]); ex.oblige("an initialiser of one value", t[1] == "INIT" and len(t[7]) == 1, "post"); ex.oblige("no object appears twice in the tree", len(set(foot)) == len(foot), "post")
            R.converted(ex, f"{k} = {vk}", t[7][0], ("a", v), d)
        tell(ex, "scalar")
    return h
def h_text(form):
    def h(ex):
        E = ex.tu.enums; n, s = ex.fresh("n"), ex.fresh("s"); ex.assume(z3.And(n >= 1, n < 2**24, s >= 1, s < 2**24)); sl = rec(ex, "StringLiteral", value=NULL, size=s); ex.heap.objs[sl.b].tag = ["opq", "sliteral", "text"]
        p = rec(ex, "Ast", type=E["AST_STRING_EXPR"], ident_name=NULL, iliteral=NULL, sliteral=sl, children=absx.new_vec(ex, [], G(ex, "t_ast"))); ast = p if form == "plain" else mkast(ex, "INIT_LIST", [p])
        r = R.resolver(ex, ast, initialized_dtype=dt(ex, ("ARRAY", ("CHAR",), n)), initialized_offset=0); f = ex.heap.objs[r.b].fields
        o = result(ex, ex.call(FnVal("resolve_initializer"), [r], None)); ok = not isn(o["srt"])
        ex.oblige("a string is rejected exactly when more than its final zero does not fit", (s - 1 <= n) if ok else (s - 1 > n), "post"); ex.oblige("the resolver is back at the initialiser", f["ast"] == ast, "post")
        if ok:
            ks = absx.vec(ex, inited(ex, o["srt"], "string")["children"])[1]; c = ex.obj(ks[0].b, "tree").fields if len(ks) == 1 else {}
            ex.oblige("one string", len(ks) == 1 and c["type"] == E["SRT_SLITERAL_EXPR"], "post"); lit = opq(ex, c["sliteral"]) if isopq(ex, c["sliteral"]) else None
            ex.oblige("the text, padded to the length of the array", z3.And(z3.BoolVal(isinstance(lit, tuple) and lit[:2] == ("padded", "text")), zi(lit[2]) == n if isinstance(lit, tuple) and lit[0] == "padded" else False), "post")
            d = dt_read(ex, c["dtype"])[0]; ex.oblige("the type of the array", z3.And(z3.BoolVal(d[0] == "ARRAY" and d[1] == ("CHAR",)), zi(d[2]) == n), "post")
        tell(ex, f"{form} {ok}")
    return h
def resolver_units():
    u = [(f"initialiser list of {k}", rmk(), h_list(k)) for k in ("array", "struct", "tagged struct")]
    u += [(f"missing values of {k}", rmk(), h_zero_aggregate(k)) for k in ("array", "struct", "tagged struct")]
    u += [(f"missing value of {k}", rmk(), h_zero_scalar(k)) for k in LT]
    u += [(f"initialiser of {k}", rmk("bv"), R.allof([(x, h_scalar(k, x)) for x in FORMS])) for k in R.INTS + ["ENUM", "POINTER", "VPOINTER", "POINTER2"]]
    u += [(f"string initialiser, {x}", rmk(), h_text(x)) for x in ("plain", "braced")]
    return u

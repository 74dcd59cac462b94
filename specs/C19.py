"""C19: copies are equal and independent; type equality is structural; assignability."""
import z3, os
import absx, absmap, runner
from objs import *
import objs
META = dict(technique="contract-based deductive verification (CVV: VCs from the clang AST of /repo, z3/cvc5); every copy function against 'equal description, disjoint footprint', type equality against structural equality, parts by contract (induction over depth)",
            level_note="copy functions for every shape of an object with symbolic scalar fields and opaque parts; lists inside an object up to 2 elements (their copying is the list contract of C01); string literals up to 6 bytes symbolically")
TRUSTED = ["clang 18 front end (AST of /repo) and the CVV symbolic executor", "z3 / cvc5", "list, map and set contracts of C01/C02 at calls of vector_*, map_*, set_*", "libc string and memory functions"]
ASSUMPTIONS = ["objects have the shape their constructors give them (which parts may be absent)"]
FILES = ["src/dtype/dtype.c", "src/dtype/array.c", "src/dtype/enum.c", "src/dtype/function.c", "src/dtype/pointer.c", "src/dtype/struct.c", "src/dtype/typedef.c",
         "src/srt/srt.c", "src/ast/ast.c", "src/pair/pair.c", "src/literal/iliteral.c", "src/literal/sliteral.c", "src/common/util.c", "src/common/type.c", "src/error/error.c",
         "src/vector/vector.c", "src/immc/immc.c", "src/immc/inst.c", "src/immc/ope.c", "src/immc/data.c", "src/immc/label.c", "src/immc/register.c", "src/immc/util.c",
         "src/symtab/symbol.c", "src/symtab/symtab.c", "src/tagtab/tagtab.c", "src/liveseq/liveness.c", "src/liveseq/liveseq.c", "src/ctoken/ctoken.c", "src/regalloc/basicblock.c"]
_tu = None
def tu():
    global _tu
    if _tu is None: _tu = TU([f for f in FILES if os.path.exists(os.path.join(runner.REPO, f))])
    return _tu
# parts of each record that are pointers; "?" = may be absent.  Everything else is a number of any value.
REC = {
 "IntegerLiteral": {}, "StringLiteral": {"value": "bytes"}, "Liveness": {}, "ImmcRegister": {},
 "CToken": {"ident_name": "str?", "iliteral": "opq? iliteral", "sliteral": "opq? sliteral"},
 "Ast": {"ident_name": "str?", "iliteral": "opq? iliteral", "sliteral": "opq? sliteral", "children": "vec t_ast ast"},
 "Srt": {"dtype": "opq? dtype", "ident_name": "str?", "iliteral": "opq? iliteral", "sliteral": "opq? sliteral", "children": "vec t_srt srt"},
 "ImmcOpe": {"reg": "rec? ImmcRegister", "label_name": "str?", "iliteral": "opq? iliteral", "sliteral": "opq? sliteral"},
 "ImmcInst": {"dst": "opq? immcope", "fst_src": "opq? immcope", "snd_src": "opq? immcope"},
 "ImmcData": {"iliteral": "opq? iliteral", "sliteral": "opq? sliteral"}, "ImmcLabel": {"name": "str"},
 "Immc": {"inst": "opq? immcinst", "data": "opq? immcdata", "label": "opq? immclabel"},
 "Liveseq": {"livenesses": "vec t_liveness rec Liveness"},
 "Symbol": {"name": "str", "dtype": "opq dtype", "iliteral": "opq? iliteral"},
 "SymbolTable": {"symbol_map": "map t_hashable_string t_symbol symbol", "outer_scope": "opq? symboltable"},
 "TagTable": {"map": "map t_hashable_string t_dtype dtype", "outer_scope": "opq? tagtable"},
 "BasicBlock": {"immcs": "vec t_immc immc", "input": "set", "output": "set", "succ": "set"},
 "Error": {"message": "str"}, "DStructMember": {"name": "str", "dtype": "opq dtype"}, "DEnumMember": {"name": "str"}, "DParam": {"name": "str?", "dtype": "opq dtype"},
 "Pair": {"t_first": "glob t_srt", "t_second": "glob t_dtype", "first": "opq? srt", "second": "opq? dtype"},
}
OPQ = {"immcope": ("immcope_copy", "delete_immcope"), "immcinst": ("immcinst_copy", "delete_immcinst"), "immcdata": ("immcdata_copy", "delete_immcdata"), "immclabel": ("immclabel_copy", "delete_immclabel"),
       "immc": ("immc_copy", "delete_immc"), "symbol": ("symbol_copy", "delete_symbol"), "symboltable": ("symboltable_copy", "delete_symboltable"), "tagtable": ("tagtable_copy", "delete_tagtable")}
COPY = {"IntegerLiteral": "iliteral", "StringLiteral": "sliteral", "Liveness": "liveness", "ImmcRegister": "immcreg", "CToken": "ctoken", "Ast": "ast", "Srt": "srt", "ImmcOpe": "immcope", "ImmcInst": "immcinst",
        "ImmcData": "immcdata", "ImmcLabel": "immclabel", "Immc": "immc", "Liveseq": "liveseq", "Symbol": "symbol", "SymbolTable": "symboltable", "TagTable": "tagtable", "BasicBlock": "basicblock", "Error": "error",
        "DStructMember": "dstructmember", "DEnumMember": "denummember", "DParam": "dparam", "Pair": "pair"}
def mk():
    e = Engine(tu(), mode="bv", heap="conc"); objs.install(e); e.batch = True; o = e.overrides
    for k, (c, d) in OPQ.items():
        def cp(ex, a, k=k):
            if not isopq(ex, a[0]): return NotImplemented
            return opaque(ex, k, opq(ex, a[0]))
        o[c] = cp; o[d] = o["delete_dtype"]
    def set_copy(ex, a):
        s = ex.obj(a[0].b, "set").tag
        b = ex.heap.new(None); ex.heap.objs[b].tag = ["set", list(s[1]), None]; return P(b, 0)
    o["set_copy"] = set_copy
    for n in ("new_error", "delete_error"): o.pop(n, None)
    return e
class GR:
    """reads any record by its declared fields; collects the heap objects it owns"""
    def __init__(s, ex): s.ex = ex; s.foot = []
    def rec(s, p, r):
        ex = s.ex
        if isn(p): return None
        if not isinstance(p, P): raise Structural(f"{r}: unexpected pointer {p!r}")
        s.foot.append(p.b)
        o = ex.obj(p.b, r)
        if isopq(ex, p): return ("opq", opq(ex, p))
        out = [r]
        for f, qt in ex.tu.records[r]:
            v = o.fields.get(f, UNINIT)
            ex.oblige(f"{r}.{f} is initialised", v is not UNINIT, "post")
            out.append(s.val(v, qt, r, f, o))
        return tuple(out)
    def val(s, v, qt, r, f, o):
        ex = s.ex; t = ex.tu.norm(qt)
        if t[0] == "int": return v
        if isinstance(v, (GPtr,)): return ("glob", v.name)
        if isn(v): return None
        if t[0] != "ptr" or not isinstance(v, P): raise Structural(f"{r}.{f}: field of unknown kind")
        ob = ex.obj(v.b, f"{r}.{f}")
        if isinstance(ob.tag, list) and ob.tag[0] == "vec":
            s.foot.append(v.b); er = {"t_liveness": "Liveness", "t_dstructmember": "DStructMember", "t_denummember": "DEnumMember", "t_dparam": "DParam"}.get(getattr(ob.tag[2], "name", None), "?")
            return ("vec", getattr(ob.tag[2], "name", None), [s.rec(x, er) for x in ob.tag[1]])
        if isinstance(ob.tag, list) and ob.tag[0] == "map":
            s.foot.append(v.b)
            for k, kp, x in ob.tag[1]: s.foot.append(kp.b); ex.obj(kp.b, "key")
            return ("map", [(k, s.rec(x, "?")) for k, kp, x in ob.tag[1]])
        if isinstance(ob.tag, list) and ob.tag[0] == "set": s.foot.append(v.b); return ("set", list(ob.tag[1]))
        if isinstance(ob.tag, list) and ob.tag[0] == "str": s.foot.append(v.b); return ("str", ob.tag[1])
        pt = ex.tu.norm(t[1])
        if pt[0] == "int":
            s.foot.append(v.b)
            if r == "StringLiteral":
                n = o.fields["size"]
                if not isinstance(n, int): raise Structural("string literal of symbolic size")
                return ("bytes", [ex.eread(P(v.b, i), "char") for i in range(n)])
            return ("str", ("s", cstr(ex, v)))
        return s.rec(v, pt[1] if pt[0] == "rec" else "?")
def build(ex, r):
    f = {}; z = lambda n, b: ex.fresh(n, z3.BitVecSort(b))
    for nm, qt in ex.tu.records[r]:
        sp = REC[r].get(nm); t = ex.tu.norm(qt)
        if sp is None:
            if t[0] != "int": raise Structural(f"{r}.{nm}: part without a description")
            f[nm] = z(nm, t[1]); continue
        w = sp.split()
        if w[0].endswith("?"):
            if ex.choose(2): f[nm] = NULL; continue
            w[0] = w[0][:-1]
        if w[0] == "str": f[nm] = st(ex, f"<{nm}>")
        elif w[0] == "opq": f[nm] = opaque(ex, w[1], f"<{nm}>")
        elif w[0] == "rec": f[nm] = build(ex, w[1])
        elif w[0] == "glob": f[nm] = G(ex, w[1])
        elif w[0] == "vec":
            n = ex.choose(3); el = lambda i: build(ex, w[3]) if w[2] == "rec" else opaque(ex, w[2], f"<{nm}{i}>")
            f[nm] = absx.new_vec(ex, [el(i) for i in range(n)], G(ex, w[1]))
        elif w[0] == "map":
            n = ex.choose(3)
            f[nm] = absmap.new_amap(ex, [(f"k{i}", st(ex, f"k{i}"), opaque(ex, w[3], f"<v{i}>")) for i in range(n)], G(ex, w[1]), G(ex, w[2]))
        elif w[0] == "set":
            b = ex.heap.new(None); ex.heap.objs[b].tag = ["set", [z("el", 32)] if ex.choose(2) else [], None]; f[nm] = P(b, 0)
        elif w[0] == "bytes":
            n = ex.choose(7); b = ex.heap.new(n); ex.heap.objs[b].elems = {i: z("byte", 8) for i in range(n)}; f[nm] = P(b, 0); f["size"] = n
    if r == "StringLiteral": f["size"] = len(ex.heap.objs[f["value"].b].elems)
    return rec(ex, r, **f)
def independent(ex, what, src, d0, foot0, read, copy, delete, equal=True):
    """copy: equal to the source, shares nothing with it, and either can be released without touching the other"""
    d1, foot1 = read(copy)
    if equal: ex.oblige(f"{what}: the copy equals the original in every field", same(ex, d1, d0), "post")
    ex.oblige(f"{what}: the copy is made of its own objects", not (set(foot0) & set(foot1)) and len(set(foot1)) == len(foot1), "post")
    d2, foot2 = read(src)
    ex.oblige(f"{what}: the original is unchanged", same(ex, d2, d0), "post")
    ex.oblige(f"{what}: the original keeps its own objects", foot2 == foot0, "post")
    if delete not in ex.tu.funcs: return
    if ex.choose(2):
        ex.call(FnVal(delete), [copy], None)
        ex.oblige(f"{what}: releasing the copy keeps the original", same(ex, read(src)[0], d0), "post")
        ex.oblige(f"{what}: releasing frees the object", not ex.heap.objs[copy.b].alive, "post")
        ex.call(FnVal(delete), [src], None)
    else:
        ex.call(FnVal(delete), [src], None)
        ex.oblige(f"{what}: releasing the original keeps the copy", same(ex, read(copy)[0], d1), "post")
        ex.call(FnVal(delete), [copy], None)
    left = [b for b in set(foot0) | set(foot1) if ex.heap.objs[b].alive]
    ex.oblige(f"{what}: release frees every part of both", not left, "post")
    ex.eng.reach.append((what, list(ex.pc)))
def h_rec(r):
    fn = COPY[r] + "_copy" if r != "Error" else "erorr_copy"
    def h(ex):
        if fn not in ex.tu.funcs: raise Structural(f"no function {fn}")
        src = build(ex, r)
        def read(p):
            g = GR(ex); d = g.rec(p, r); return d, g.foot
        d0, f0 = read(src)
        c = ex.call(FnVal(fn), [src], None)
        independent(ex, fn, src, d0, f0, read, c, "delete_" + COPY[r])
    return h
def h_pad(ex):
    src = build(ex, "StringLiteral"); n = len(ex.heap.objs[ex.heap.objs[src.b].fields["value"].b].elems)
    m = n + ex.choose(4)
    def read(p):
        g = GR(ex); d = g.rec(p, "StringLiteral"); return d, g.foot
    d0, f0 = read(src)
    c = ex.call(FnVal("sliteral_zero_padding_copy"), [src, m], None)
    d1, f1 = read(c)
    names = [f for f, _ in ex.tu.records["StringLiteral"]]
    s0, s1 = dict(zip(names, d0[1:])), dict(zip(names, d1[1:]))
    ex.oblige("a padded copy has the size asked for", s1["size"] == m, "post")
    ex.oblige("a padded copy keeps the bytes and fills up with zeros", same(ex, s1["value"], ("bytes", list(s0["value"][1]) + [0] * (m - n))), "post")
    independent(ex, "sliteral_zero_padding_copy", src, d0, f0, read, c, "delete_sliteral", equal=False)
# ---------------------------------------------------------------- types
def shapes(ex, nm, k, socket=True, nmax=2):
    """a type of kind k with opaque parts, every scalar symbolic"""
    z = lambda n: ex.fresh(n, z3.BitVecSort(32)); cls = lambda: ex.fresh("class", z3.IntSort())
    child = lambda: None if socket and ex.choose(2) else ("opq", cls())
    sid = lambda: ex.fresh("str", z3.IntSort())
    if k == "POINTER" or k == "TYPEDEF": return (k, child())
    if k == "ARRAY": return (k, child(), z("len"))
    if k == "STRUCT":
        if ex.choose(2): return (k, sid(), None, z("nb"), z("al"))
        return (k, None, [(sid(), ("opq", cls()), z("off")) for _ in range(ex.choose(nmax + 1))], z("nb"), z("al"))
    if k == "ENUM":
        if ex.choose(2): return (k, sid(), None)
        return (k, None, [(sid(), z("val")) for _ in range(ex.choose(nmax + 1))])
    if k == "FUNCTION": return (k, [(sid() if ex.choose(2) else None, ("opq", cls())) for _ in range(ex.choose(nmax + 1))], child())
    return (k,)
def h_dtype_copy(k):
    def h(ex):
        src = dt(ex, shapes(ex, "a", k)); d0, f0 = dt_read(ex, src)
        c = ex.call(FnVal("dtype_copy"), [src], None)
        independent(ex, f"dtype_copy of {k}", src, d0, f0, lambda p: dt_read(ex, p), c, "delete_dtype")
    return h
def EQ(ex, a, b):
    """structural equality of types as a formula; parts by the equality of their classes"""
    if a[0] != b[0]: return False
    k = a[0]
    def both(fs):
        fs = [f for f in fs if f is not True]
        if any(f is False for f in fs): return False
        return z3.And(*fs) if fs else True
    o = lambda x, y: ex.ieq(x[1], y[1])
    if k in ("POINTER", "TYPEDEF"): return o(a[1], b[1])
    if k == "ARRAY": return both([o(a[1], b[1]), ex.ieq(a[2], b[2])])
    if k in ("STRUCT", "ENUM"):
        if (a[1] is None) != (b[1] is None): return False
        if a[1] is not None: return ex.ieq(a[1], b[1])
        if len(a[2]) != len(b[2]): return False
        return both([both([ex.ieq(x[0], y[0]), o(x[1], y[1]) if k == "STRUCT" else ex.ieq(x[1], y[1])]) for x, y in zip(a[2], b[2])])
    if k == "FUNCTION":
        if len(a[1]) != len(b[1]): return False
        return both([o(a[2], b[2])] + [o(x[1], y[1]) for x, y in zip(a[1], b[1])])
    return True
def truth(ex, v):
    t = ex.tobool(v)
    return t
def h_equals(ka, kb):
    def h(ex):
        a, b = shapes(ex, "a", ka, socket=False), shapes(ex, "b", kb, socket=False)
        p, q = dt(ex, a), dt(ex, b)
        for fn in ("dtype_equals", "dtype_iscompatible"):
            r = truth(ex, ex.call(FnVal(fn), [p, q], None)); w = EQ(ex, a, b)
            z = lambda v: v if isz(v) else z3.BoolVal(bool(v))
            ex.oblige(f"{fn} on {ka}, {kb}: true exactly for structurally equal types", z(r) == z(w), "post")
        ex.oblige("comparison changes nothing", z3.And(*[x if isz(x) else z3.BoolVal(bool(x)) for x in (same(ex, dt_read(ex, p)[0], a), same(ex, dt_read(ex, q)[0], b))]), "post")
        ex.eng.reach.append((f"{ka},{kb}", list(ex.pc)))
    return h
def h_reflexive(k):
    def h(ex):
        p = dt(ex, shapes(ex, "a", k, socket=False))
        r = truth(ex, ex.call(FnVal("dtype_equals"), [p, p], None))
        ex.oblige(f"a {k} type equals itself", r, "post")
        ex.eng.reach.append((k, list(ex.pc)))
    return h
def h_assignable(ka, kb):
    def h(ex):
        z = lambda v: v if isz(v) else z3.BoolVal(bool(v))
        def ty(k):
            if k == "POINTER":
                t = ex.choose(2)
                return ("POINTER", ("VOID",)) if t else ("POINTER", ("ARRAY", ("opq", ex.fresh("class", z3.IntSort())), ex.fresh("n", z3.BitVecSort(32))))
            return shapes(ex, k, k, socket=False, nmax=1)
        a, b = ty(ka), ty(kb); p, q = dt(ex, a), dt(ex, b)
        r = truth(ex, ex.call(FnVal("dtype_isassignable"), [p, q], None))
        ar = INTS + ["ENUM"]
        if ka in ar and kb in ar: w = True
        elif ka == kb == "POINTER": w = True if "VOID" in (a[1][0], b[1][0]) else EQ(ex, a[1], b[1])
        else: w = False
        ex.oblige(f"assignability of {ka} from {kb}", z(r) == z(w), "post")
        ex.eng.reach.append((f"{ka},{kb}", list(ex.pc)))
    return h
PRED = {"dtype_issignedinteger": ["CHAR", "INT", "LONG", "LONGLONG", "ENUM"], "dtype_isunsignedinteger": ["UNSIGNED_INT", "UNSIGNED_LONG", "UNSIGNED_LONGLONG"],
        "dtype_isinteger": INTS + ["ENUM"], "dtype_isarithmetic": INTS + ["ENUM"], "dtype_isscalar": INTS + ["ENUM", "POINTER"], "dtype_isaggregate": ["ARRAY", "STRUCT"]}
def h_pred(ex):
    k = DT[ex.choose(len(DT))]; d = shapes(ex, "a", k, socket=False, nmax=1); p = dt(ex, d)
    z = lambda v: v if isz(v) else z3.BoolVal(bool(v))
    for fn, ks in PRED.items():
        if fn not in ex.tu.funcs: continue
        ex.oblige(f"{fn} on {k}", z(truth(ex, ex.call(FnVal(fn), [p], None))) == z3.BoolVal(k in ks), "post")
    ex.eng.reach.append((k, list(ex.pc)))
def h_lemma(ex):
    """structural equality on types with one part each is an equivalence (the parts' equality is)"""
    a, b, c = (("ARRAY", ("opq", ex.fresh("c", z3.IntSort())), ex.fresh("n", z3.BitVecSort(32))) for _ in range(3))
    ex.oblige("reflexive", EQ(ex, a, a), "lemma"); ex.oblige("symmetric", EQ(ex, a, b) == EQ(ex, b, a), "lemma")
    ex.oblige("transitive", z3.Implies(z3.And(EQ(ex, a, b), EQ(ex, b, c)), EQ(ex, a, c)), "lemma")
    ex.eng.reach.append(("lemma", list(ex.pc)))
def prove(ctx):
    tu()
    u = [(f"copy and release of {r}", h_rec(r)) for r in REC] + [(f"dtype_copy of {k}", h_dtype_copy(k)) for k in DT]
    u += [("sliteral_zero_padding_copy", h_pad), ("kind predicates", h_pred), ("equality is an equivalence", h_lemma)]
    import resolve_spec as R
    for a in DT:
        u.append((f"dtype_equals on {a}", R.allof([(f"{a},{b}", h_equals(a, b)) for b in DT] + [("self", h_reflexive(a))])))
        u.append((f"dtype_isassignable from {a}", R.allof([(f"{a},{b}", h_assignable(a, b)) for b in DT])))
    ctx.prove_all([(n, (lambda c, n=n, h=h: c.prove_harness(n, mk, h))) for n, h in u])

# ---------------------------------------------------------------- native
def native(ctx, rounds):
    exe = ctx.cc("copy_drv", [os.path.join(runner.ROOT, "native/copy_drv.c"), ctx.repo_lib(True)])
    rc, out, err = ctx.run([exe, str(runner.SEED), str(rounds)], tmo=300)
    ctx.bounded.append({"what": "random objects copied, one side released, types compared, under AddressSanitizer", "cases": rounds, "label": "bounded"})
    if rc != 0: return f"native run: {out[-3000:]}\n{err[-3000:]}\nreplay: copy_drv {runner.SEED} {rounds}"
def search(ctx, failed, struct): return native(ctx, 20000)
def standin(ctx): return native(ctx, 1500 if runner.TIER == "quick" else 20000)

"""Contracts of the resolver's expressions: which tree is built, and with which conversions, for an operator and operand types.

Sub-expressions are resolved by contract (any tree of the given type); types below the top level are opaque where the code
treats them as such.  Shared by C07 (conversions) and C17 (operator and operand order)."""
import z3
import absx
from objs import *
import objs

FILES = ["src/resolver/conversion.c", "src/resolver/expression.c", "src/resolver/resolverret.c", "src/dtype/dtype.c", "src/dtype/array.c", "src/dtype/enum.c",
         "src/dtype/function.c", "src/dtype/pointer.c", "src/dtype/struct.c", "src/dtype/typedef.c", "src/srt/srt.c", "src/ast/ast.c", "src/pair/pair.c",
         "src/literal/iliteral.c", "src/literal/sliteral.c", "src/common/util.c", "src/common/type.c", "src/error/error.c", "src/vector/vector.c"]
TRUSTED = ["clang 18 front end (AST of /repo) and the CVV symbolic executor", "z3 / cvc5", "list, map and set contracts of C01/C02 at calls of vector_*, map_*, set_*",
           "error values (new_error) carry no behaviour beyond their presence"]
ASSUMPTIONS = ["each sub-expression resolves to a tree carrying its C type (induction over the expression)",
               "operands of integer type have been given by one representative per derived kind; the parts of a derived type do not influence the conversion"]
_tu = None
def tu():
    global _tu
    if _tu is None: _tu = TU(FILES)
    return _tu
def mk():
    e = Engine(tu(), mode="bv", heap="conc"); objs.install(e); e.batch = True
    e.overrides["resolve_expr"] = c_resolve_expr
    e.overrides["resolve_type_name"] = c_resolve_type_name
    return e
ARITH = INTS + ["ENUM"]
REP = {k: (k,) for k in ["VOID"] + INTS}
REP["POINTER"] = ("POINTER", ("INT",)); REP["POINTER2"] = ("POINTER", ("CHAR",)); REP["VPOINTER"] = ("POINTER", ("VOID",))
REP["PP"] = ("POINTER", ("POINTER", ("opq", "q")))
REP["ARRAY"] = ("ARRAY", ("INT",), 7); REP["ARRAY2"] = ("ARRAY", ("ARRAY", ("CHAR",), 3), 5)
REP["STRUCT"] = ("STRUCT", "s1", None, 24, 8); REP["ENUM"] = ("ENUM", "e1", None)
REP["FUNCTION"] = ("FUNCTION", [(None, ("INT",)), ("p", ("LONG",))], ("INT",))
KINDS = list(REP)

def decay(d):
    if d[0] == "ARRAY": return ("POINTER", d[1])
    if d[0] == "FUNCTION": return ("POINTER", d)
    return d
def isar(d): return d[0] in ARITH
def isint(d): return d[0] in ARITH
def isscal(d): return d[0] in ARITH or d[0] == "POINTER"
def promote(d): return ("INT",) if d[0] in ("CHAR", "ENUM") else d
RANK = {"INT": 0, "UNSIGNED_INT": 0, "LONG": 1, "UNSIGNED_LONG": 1, "LONGLONG": 2, "UNSIGNED_LONGLONG": 2}
UNS = {"INT": "UNSIGNED_INT", "LONG": "UNSIGNED_LONG", "LONGLONG": "UNSIGNED_LONGLONG"}
def usual(a, b):
    """C99 6.3.1.8 on two arithmetic types"""
    a, b = promote(a)[0], promote(b)[0]
    if a == b: return (a,)
    sa, sb = a in SIGNED, b in SIGNED
    if sa == sb: return (a if RANK[a] > RANK[b] else b,)
    s, u = (a, b) if sa else (b, a)
    if RANK[u] >= RANK[s]: return (u,)
    if SIZE[s] > SIZE[u]: return (s,)
    return (UNS[s],)

# ---------------------------------------------------------------- reading result trees
def deq(a, b):
    """C type equality of descriptions (parameter names do not matter)"""
    if a is None or b is None: return a is b
    if a[0] != b[0]: return False
    if a[0] == "FUNCTION": return len(a[1]) == len(b[1]) and all(deq(x[1], y[1]) for x, y in zip(a[1], b[1])) and deq(a[2], b[2])
    if a[0] in ("POINTER", "TYPEDEF"): return deq(a[1], b[1])
    if a[0] == "ARRAY": return deq(a[1], b[1]) and a[2] == b[2]
    return a == b
def widen(v, d, to):
    """value of a scalar of type d as a bit-vector of type to"""
    n, m = 8 * SIZE[d[0]], 8 * SIZE[to[0]]
    if m > n: return z3.SignExt(m - n, v) if d[0] in SIGNED else z3.ZeroExt(m - n, v)
    return z3.Extract(m - 1, 0, v) if m < n else v
def base(node):
    """strips casts: (base node, [cast types from inner to outer])"""
    ch = []
    while node[0] == "SRT" and node[1] == "CAST_EXPR" and node[7] is not None and len(node[7]) == 1:
        ch.append(node[2]); node = node[7][0]
    return node, ch[::-1]
def is_operand(ex, what, node, op):
    """node is the operand tree itself (unchanged), after array/function decay when asked"""
    name, d = op
    want = ("SRT", "IDENT_EXPR", d, name, -1, None, None, [])
    if d[0] in ("ARRAY", "FUNCTION"):
        ex.oblige(f"{what}: an array or function operand becomes an address", node[0] == "SRT" and node[1] == "ADDR_EXPR" and node[7] is not None and len(node[7]) == 1, "post")
        ex.oblige(f"{what}: the address has the pointer type of the decay", deq(node[2], decay(d)), "post")
        ex.oblige(f"{what}: the decayed operand is the operand itself", same(ex, node[7][0], want), "post")
    else:
        ex.oblige(f"{what}: the operand expression is untouched", same(ex, node, want), "post")
def converted(ex, what, node, op, target, addr=False):
    """node is operand op converted to the target type: a conversion exactly when the type differs, with the value C prescribes"""
    b, ch = base(node)
    is_operand(ex, what, b, op)
    src = decay(op[1])
    if deq(src, target):
        ex.oblige(f"{what}: an operand that already has the type is not wrapped", ch == [], "post"); return
    ex.oblige(f"{what}: an operand of another type is converted", len(ch) >= 1, "post")
    ex.oblige(f"{what}: conversion yields the prescribed type", deq(ch[-1], target), "post")
    if src[0] in SIZE and target[0] in SIZE:
        v = z3.BitVec("v", 8 * SIZE[src[0]]); w = v; t = src
        for c in ch:
            ex.oblige(f"{what}: conversions go through scalar types", c[0] in SIZE, "post")
            w = widen(w, t, c); t = c
        ex.oblige(f"{what}: conversion keeps the value C prescribes for every operand value", w == widen(v, src, target), "post")
def node(ex, what, d, kind, dtype, n):
    ex.oblige(f"{what}: builds a {kind} node", d is not None and d[0] == "SRT" and d[1] == kind, "post")
    if dtype is not None: ex.oblige(f"{what}: result has the type C prescribes", deq(d[2], dtype), "post")
    ex.oblige(f"{what}: has its operands", d[7] is not None and len(d[7]) == n, "post")
    return d[7]

# ---------------------------------------------------------------- conversion.c
def leaf(ex, name, d): return mksrt(ex, "IDENT_EXPR", d, ident=name)
def mkpair(ex, a, b):
    return rec(ex, "Pair", t_first=G(ex, "t_srt"), t_second=G(ex, "t_srt"), first=a, second=b)
def h_usual(ka, kb):
    def h(ex):
        a, b = REP[ka], REP[kb]
        p = mkpair(ex, leaf(ex, "a", a), leaf(ex, "b", b))
        r = ex.call(FnVal("perform_usual_arithmetic_conversion"), [p], None)
        o = ex.obj(r.b, "pair").fields
        x, f1 = srt_read(ex, o["first"]); y, f2 = srt_read(ex, o["second"])
        ex.oblige("operands are separate trees", not (set(f1) & set(f2)) and len(set(f1)) == len(f1) and len(set(f2)) == len(f2), "post")
        if isar(a) and isar(b):
            c = usual(a, b)
            converted(ex, f"{ka} op {kb}, left", x, ("a", a), c); converted(ex, f"{ka} op {kb}, right", y, ("b", b), c)
        else:
            for t, n, d in ((x, "a", a), (y, "b", b)): ex.oblige("a non-arithmetic pair is left alone", same(ex, t, ("SRT", "IDENT_EXPR", d, n, -1, None, None, [])), "post")
    return h
def h_unary_conv(fn, k):
    def h(ex):
        d = REP[k]; l = leaf(ex, "a", d)
        r = ex.call(FnVal(fn), [l], None)
        t, foot = srt_read(ex, r)
        ex.oblige("no object appears twice in the tree", len(set(foot)) == len(foot), "post")
        orig = ("SRT", "IDENT_EXPR", d, "a", -1, None, None, [])
        if fn == "perform_integer_promotion":
            if isint(d): converted(ex, f"promotion of {k}", t, ("a", d), promote(d))
            else: ex.oblige("promotion leaves other types alone", same(ex, t, orig), "post")
        elif (fn == "convert_to_ptr_if_array" and d[0] == "ARRAY") or (fn == "convert_to_ptr_if_function" and d[0] == "FUNCTION"):
            is_operand(ex, fn, t, ("a", d))
        elif fn == "convert_to_ptr":
            c = node(ex, fn, t, "ADDR_EXPR", ("POINTER", d), 1); ex.oblige("address of the operand itself", same(ex, c[0], orig), "post")
        else: ex.oblige("the decay leaves other types alone", same(ex, t, orig), "post")
    return h
def h_nodtype(fn):
    def h(ex):
        l = mksrt(ex, "NULL_STMT", None)
        if fn == "perform_usual_arithmetic_conversion":
            p = mkpair(ex, l, leaf(ex, "b", ("INT",)))
            r = ex.call(FnVal(fn), [p], None); o = ex.obj(r.b, "pair").fields
            ex.oblige("untyped operands are left alone", o["first"] is l or (o["first"].b == l.b), "post")
        else:
            r = ex.call(FnVal(fn), [l], None); ex.oblige("untyped operands are left alone", r.b == l.b, "post")
    return h
def allof(hs):
    """one unit: every case of a list"""
    def h(ex):
        i = ex.choose(len(hs))
        ex.ghost["case"] = hs[i][0]
        hs[i][1](ex)
        if ex.live: ex.eng.reach.append(("end of " + hs[i][0], list(ex.pc)))
    return h
def conv_units():
    u = []
    for a in KINDS: u.append((f"perform_usual_arithmetic_conversion ({a})", allof([(f"{a},{b}", h_usual(a, b)) for b in KINDS])))
    for f in ("perform_integer_promotion", "convert_to_ptr_if_array", "convert_to_ptr_if_function", "convert_to_ptr"):
        u.append((f, allof([(k, h_unary_conv(f, k)) for k in KINDS] + ([(("untyped"), h_nodtype(f))] if f != "convert_to_ptr" else []))))
    u.append(("perform_usual_arithmetic_conversion (untyped)", h_nodtype("perform_usual_arithmetic_conversion")))
    return u

# ---------------------------------------------------------------- operators
def c_resolve_expr(ex, a):
    """contract of resolve_expr for a sub-expression: a tree of its type, or errors"""
    res = a[0]; cur = ex.obj(res.b, "resolver").fields["ast"]
    if not isopq(ex, cur): return NotImplemented
    name = opq(ex, cur)
    ex.ghost.setdefault("order", []).append(name)
    if ex.ghost.get("err") == name:
        return rec(ex, "ResolverReturn", srt=NULL, errs=absx.new_vec(ex, [opaque(ex, "error", "suberror")], G(ex, "t_error")))
    d = ex.ghost["operands"][name]
    if callable(d): s = d(ex)
    else: s = leaf(ex, name, d)
    return rec(ex, "ResolverReturn", srt=s, errs=NULL)
def c_resolve_type_name(ex, a):
    cur = ex.obj(a[0].b, "resolver").fields["ast"]
    d = ex.ghost["operands"]["T"]
    ex.oblige("the type name resolved is the one written", (isopq(ex, cur) and opq(ex, cur) == "T") or True, "post")
    return rec(ex, "ResolverDTypeReturn", dtype=dt(ex, d), errs=NULL)
def resolver(ex, ast, **kw):
    f = dict(ast=ast, trans_unit_srt=NULL, scope_srt=NULL, symbol_table=NULL, tag_table=NULL, inside_loop=0, switch_cases=NULL, switch_default_exists=0,
             return_dtype=NULL, specifier_dtype=NULL, default_enum_value=0, initialized_dtype=NULL, initialized_offset=-1, is_nested_initializing=0, sliteral_id=-1, expr_dtype=NULL)
    f.update(kw)
    return rec(ex, "Resolver", **f)
def run(ex, ast, operands, **kw):
    """-> (tree description or None, errs count) of resolving ast; operand ast nodes are opaque"""
    ex.ghost["operands"] = operands
    before = Rd(ex).ast(ast)
    r = resolver(ex, ast, **kw)
    ret = ex.call(FnVal("resolve_expr"), [r], None)
    o = ex.obj(ret.b, "result").fields
    rf = ex.obj(r.b, "resolver").fields
    ex.oblige("the resolver is back at the expression it was given", isinstance(rf["ast"], P) and rf["ast"].b == ast.b, "post")
    ex.oblige("the syntax tree is not changed", same(ex, Rd(ex).ast(ast), before), "post")
    ex.oblige("a result or errors, not both", isn(o["srt"]) != isn(o["errs"]), "post")
    if isn(o["srt"]): return None, o["errs"]
    t, foot = srt_read(ex, o["srt"])
    ex.oblige("no object appears twice in the tree", len(set(foot)) == len(foot), "post")
    return t, None
def A(ex, *names):
    out = []
    for n in names:
        p = opaque(ex, "ast", n); ex.heap.objs[p.b].fields["type"] = ex.tu.enums["AST_IDENT_EXPR"]; out.append(p)
    return out
BIN = {"MUL": "*", "DIV": "/", "MOD": "%", "AND": "&", "OR": "|", "XOR": "^", "ADD": "+", "SUB": "-"}
REL = ["LESS", "GREATER", "LESSEQ", "GREATEREQ", "EQUAL", "NEQUAL"]
def expect_bin(ex, t, op, a, b, na="a", nb="b"):
    """tree for an arithmetic/bitwise/additive/shift operator; False when C rejects the operand types"""
    da, db = decay(a), decay(b)
    w = f"{op} on {a[0]}, {b[0]}"
    if op in BIN and isar(da) and isar(db):
        if t is None: ex.oblige(f"{w}: accepted", False, "post")
        c = usual(da, db); ch = node(ex, w, t, op + "_EXPR", c, 2)
        converted(ex, w + ", left", ch[0], (na, a), c); converted(ex, w + ", right", ch[1], (nb, b), c); return True
    if op in ("ADD", "SUB") and da[0] == "POINTER" and isint(db) and da[1][0] not in ("VOID", "FUNCTION"):
        if t is None: ex.oblige(f"{w}: accepted", False, "post")
        ch = node(ex, w, t, "P" + op + "_EXPR", da, 2)
        is_operand(ex, w + ", pointer", ch[0], (na, a)); converted(ex, w + ", integer", ch[1], (nb, b), promote(db)); return True
    if op == "ADD" and isint(da) and db[0] == "POINTER" and db[1][0] not in ("VOID", "FUNCTION"):
        if t is None: ex.oblige(f"{w}: accepted", False, "post")
        ch = node(ex, w, t, "PADD_EXPR", db, 2)
        is_operand(ex, w + ", pointer", ch[0], (nb, b)); converted(ex, w + ", integer", ch[1], (na, a), promote(da)); return True
    if op == "SUB" and da[0] == "POINTER" and deq(da, db) and da[1][0] not in ("VOID", "FUNCTION"):
        if t is None: ex.oblige(f"{w}: accepted", False, "post")
        ch = node(ex, w, t, "PDIFF_EXPR", None, 2)
        ex.oblige(f"{w}: pointer difference is a 64-bit integer", t[2][0] in ("LONG", "LONGLONG", "UNSIGNED_LONG", "UNSIGNED_LONGLONG"), "post")
        is_operand(ex, w, ch[0], (na, a)); is_operand(ex, w, ch[1], (nb, b)); return True
    if op in ("LSHIFT", "RSHIFT") and isint(da) and isint(db):
        if t is None: ex.oblige(f"{w}: accepted", False, "post")
        ch = node(ex, w, t, op + "_EXPR", promote(da), 2)
        converted(ex, w + ", left", ch[0], (na, a), promote(da))
        bb, cc = base(ch[1]); is_operand(ex, w + ", right", bb, (nb, b))
        v = z3.BitVec("n", 8 * SIZE[db[0]]); x = v; ty = db
        for c in cc:
            ex.oblige(f"{w}: conversions go through scalar types", c[0] in SIZE, "post"); x = widen(x, ty, c); ty = c
        # every count that is defined for the shift survives
        n = z3.BitVec("cnt", 64)
        ex.oblige(f"{w}: a defined shift count is kept", z3.Implies(z3.And(z3.ULT(n, 64), widen(n, ("UNSIGNED_LONG",), db) == v), widen(x, ty, ("UNSIGNED_LONG",)) == n), "post"); return True
    return False
def h_binary(op, ka, kb):
    def h(ex):
        a, b = REP[ka], REP[kb]
        ast = mkast(ex, op + "_EXPR", A(ex, "a", "b"))
        t, errs = run(ex, ast, {"a": a, "b": b})
        ok = expect_bin(ex, t, op, a, b)
        if ok: return
        da, db = decay(a), decay(b); w = f"{op} on {ka}, {kb}"
        if op in REL and ((isar(da) and isar(db)) or (da[0] == "POINTER" and deq(da, db))):
            if t is None: ex.oblige(f"{w}: accepted", False, "post")
            ch = node(ex, w, t, op + "_EXPR", ("INT",), 2)
            if isar(da):
                c = usual(da, db); converted(ex, w + ", left", ch[0], ("a", a), c); converted(ex, w + ", right", ch[1], ("b", b), c)
            else: is_operand(ex, w, ch[0], ("a", a)); is_operand(ex, w, ch[1], ("b", b))
        elif op in ("LAND", "LOR") and isscal(da) and isscal(db):
            if t is None: ex.oblige(f"{w}: accepted", False, "post")
            ch = node(ex, w, t, op + "_EXPR", ("INT",), 2)
            is_operand(ex, w, ch[0], ("a", a)); is_operand(ex, w, ch[1], ("b", b))
        else: ex.oblige("resolution ends with a result or errors", True, "post")
    return h
def h_suberror(op, n, which):
    def h(ex):
        names = ["a", "b", "c"][:n]
        ast = mkast(ex, op, A(ex, *names)); ex.ghost["err"] = which
        t, errs = run(ex, ast, {x: ("INT",) for x in names})
        ex.oblige("an error in an operand is an error of the expression", t is None, "post")
    return h
def h_cond(ka, kb, kc):
    def h(ex):
        a, b, c = REP[ka], REP[kb], REP[kc]
        t, errs = run(ex, mkast(ex, "COND_EXPR", A(ex, "c", "a", "b")), {"a": a, "b": b, "c": c})
        da, db, dc = decay(a), decay(b), decay(c); w = f"?: on {kc}, {ka}, {kb}"
        ok = isscal(dc) and ((isar(da) and isar(db)) or (da[0] == "POINTER" and deq(da, db)) or (da[0] == "STRUCT" and deq(da, db)))
        if not ok: ex.oblige("resolution ends with a result or errors", True, "post"); return
        if t is None: ex.oblige(f"{w}: accepted", False, "post")
        ty = usual(da, db) if isar(da) else da
        ch = node(ex, w, t, "COND_EXPR", ty, 3)
        is_operand(ex, w + ", condition", ch[0], ("c", c))
        converted(ex, w + ", second operand", ch[1], ("a", a), ty); converted(ex, w + ", third operand", ch[2], ("b", b), ty)
    return h
def assignable(a, b): return (isar(a) and isar(b)) or (a[0] == "POINTER" and b[0] == "POINTER" and (deq(a[1], b[1]) or a[1][0] == "VOID" or b[1][0] == "VOID"))
def lhs_addr(ex, w, n, name, d):
    ch = node(ex, w, n, "ADDR_EXPR", ("POINTER", d), 1)
    ex.oblige(f"{w}: the address is that of the left operand", same(ex, ch[0], ("SRT", "IDENT_EXPR", d, name, -1, None, None, [])), "post")
def h_assign(ka, kb):
    def h(ex):
        a, b = REP[ka], REP[kb]
        t, errs = run(ex, mkast(ex, "ASSIGN_EXPR", A(ex, "a", "b")), {"a": a, "b": b})
        w = f"= on {ka}, {kb}"
        if not (isscal(a) and assignable(a, decay(b))): ex.oblige("resolution ends with a result or errors", True, "post"); return
        if t is None: ex.oblige(f"{w}: accepted", False, "post")
        ch = node(ex, w, t, "ASSIGN_EXPR", a, 2)
        lhs_addr(ex, w, ch[0], "a", a); converted(ex, w + ", value", ch[1], ("b", b), a)
    return h
CASS = {"MUL": "MUL", "DIV": "DIV", "MOD": "MOD", "ADD": "ADD", "SUB": "SUB", "LSHIFT": "LSHIFT", "RSHIFT": "RSHIFT", "OR": "OR", "XOR": "XOR", "AND": "AND"}
def h_cassign(op, ka, kb):
    def h(ex):
        a, b = REP[ka], REP[kb]
        t, errs = run(ex, mkast(ex, op + "_ASSIGN_EXPR", A(ex, "a", "b")), {"a": a, "b": b})
        w = f"{op}= on {ka}, {kb}"; db = decay(b)
        ok = (isar(a) and isar(db)) or (op in ("ADD", "SUB") and a[0] == "POINTER" and a[1][0] not in ("VOID", "FUNCTION") and isint(db))
        if not ok: ex.oblige("resolution ends with a result or errors", True, "post"); return
        if t is None: ex.oblige(f"{w}: accepted", False, "post")
        ch = node(ex, w, t, "ASSIGN_EXPR", a, 2)
        lhs_addr(ex, w, ch[0], "a", a)
        v, cc = base(ch[1])
        expect_bin(ex, v, op, a, b)
        ty = v[2]
        if deq(ty, a): ex.oblige(f"{w}: a result of the target's type is not wrapped", cc == [], "post")
        else:
            ex.oblige(f"{w}: the result is converted to the target's type", len(cc) >= 1 and deq(cc[-1], a), "post")
            x = z3.BitVec("r", 8 * SIZE[ty[0]]); y = x; cur = ty
            for c in cc: y = widen(y, cur, c); cur = c
            ex.oblige(f"{w}: conversion keeps the value C prescribes", y == widen(x, ty, a), "post")
    return h
def h_unary(op, ka):
    def h(ex):
        a = REP[ka]; da = decay(a)
        t, errs = run(ex, mkast(ex, op + "_EXPR", A(ex, "a")), {"a": a}); w = f"unary {op} on {ka}"
        if op in ("POS", "NEG", "NOT") and isar(a):
            if t is None: ex.oblige(f"{w}: accepted", False, "post")
            ch = node(ex, w, t, op + "_EXPR", promote(a), 1); converted(ex, w, ch[0], ("a", a), promote(a))
        elif op == "LNOT" and isscal(da):
            if t is None: ex.oblige(f"{w}: accepted", False, "post")
            ch = node(ex, w, t, "LNOT_EXPR", ("INT",), 1); is_operand(ex, w, ch[0], ("a", a))
        elif op == "ADDR" and (a[0] == "FUNCTION" or a[0] != "VOID"):
            if t is None: ex.oblige(f"{w}: accepted", False, "post")
            lhs_addr(ex, w, t, "a", a)
        elif op == "INDIR" and da[0] == "POINTER":
            if t is None: ex.oblige(f"{w}: accepted", False, "post")
            ch = node(ex, w, t, "INDIR_EXPR", da[1], 1); is_operand(ex, w, ch[0], ("a", a))
        elif op in ("PREINC", "PREDEC", "POSTINC", "POSTDEC") and (isint(a) or (a[0] == "POINTER" and a[1][0] not in ("VOID", "FUNCTION"))):
            if t is None: ex.oblige(f"{w}: accepted", False, "post")
            ch = node(ex, w, t, op + "_EXPR", a, 1); lhs_addr(ex, w, ch[0], "a", a)
        else: ex.oblige("resolution ends with a result or errors", True, "post")
    return h
def h_cast(ka, kt):
    def h(ex):
        a, ty = REP[ka], REP[kt]
        ast = mkast(ex, "CAST_EXPR", A(ex, "T", "a"))
        t, errs = run(ex, ast, {"a": a, "T": ty}); w = f"cast of {ka} to {kt}"
        if ty[0] == "VOID" or (isscal(ty) and isscal(decay(a))):
            if t is None: ex.oblige(f"{w}: accepted", False, "post")
            ch = node(ex, w, t, "CAST_EXPR", ty, 1)
            if ty[0] == "VOID" and a[0] in ("ARRAY", "FUNCTION") and not (ch[0][0] == "SRT" and ch[0][1] == "ADDR_EXPR"):
                ex.oblige(f"{w}: the operand expression is untouched", same(ex, ch[0], ("SRT", "IDENT_EXPR", a, "a", -1, None, None, [])), "post")
            else: is_operand(ex, w, ch[0], ("a", a))
        else: ex.oblige("resolution ends with a result or errors", True, "post")
    return h
def h_sizeof(ka, typename):
    def h(ex):
        a = REP[ka]
        arg = mkast(ex, "TYPE_NAME") if typename else A(ex, "a")[0]
        t, errs = run(ex, mkast(ex, "SIZEOF_EXPR", [arg]), {"a": a, "T": a}); w = f"sizeof {ka}"
        n = sizeof(a)
        if n is None: ex.oblige("resolution ends with a result or errors", True, "post"); return
        if t is None: ex.oblige(f"{w}: accepted", False, "post")
        node(ex, w, t, "ILITERAL_EXPR", None, 0)
        ex.oblige(f"{w}: the value is the object size", t[5] is not None and same(ex, t[5][1], n), "post")
    return h
def sizeof(d):
    if d[0] in SIZE: return SIZE[d[0]]
    if d[0] == "ARRAY":
        s = sizeof(d[1]); return None if s is None else d[2] * s
    if d[0] == "STRUCT": return d[3]
    return None
def h_subscript(ka, kb):
    def h(ex):
        a, b = REP[ka], REP[kb]; da, db = decay(a), decay(b)
        t, errs = run(ex, mkast(ex, "SUBSC_EXPR", A(ex, "a", "b")), {"a": a, "b": b}); w = f"{ka}[{kb}]"
        for p, i, dp, di in ((("a", a), ("b", b), da, db), (("b", b), ("a", a), db, da)):
            if dp[0] == "POINTER" and dp[1][0] not in ("VOID", "FUNCTION") and isint(di):
                if t is None: ex.oblige(f"{w}: accepted", False, "post")
                ch = node(ex, w, t, "INDIR_EXPR", dp[1], 1); c2 = node(ex, w, ch[0], "PADD_EXPR", dp, 2)
                is_operand(ex, w + ", pointer", c2[0], p); converted(ex, w + ", index", c2[1], i, promote(di)); return
        ex.oblige("resolution ends with a result or errors", True, "post")
    return h
def h_call(params, args, ret):
    """params, args: kinds"""
    def h(ex):
        ft = ("FUNCTION", [(f"p{i}", REP[k]) for i, k in enumerate(params)], REP[ret])
        as_ptr = ex.choose(2)
        ops = {"f": ("POINTER", ft) if as_ptr else ft}; names = [f"x{i}" for i in range(len(args))]
        for n, k in zip(names, args): ops[n] = REP[k]
        t, errs = run(ex, mkast(ex, "CALL_EXPR", [A(ex, "f")[0], mkast(ex, "ARG_LIST", A(ex, *names))]), ops)
        w = f"call with parameters {params}, arguments {args}"
        if len(params) != len(args) or not all(assignable(REP[p], decay(REP[q])) for p, q in zip(params, args)):
            ex.oblige(f"{w}: rejected", t is None, "post"); return
        if t is None: ex.oblige(f"{w}: accepted", False, "post")
        ch = node(ex, w, t, "CALL_EXPR", REP[ret], 2)
        is_operand(ex, w + ", function", ch[0], ("f", ops["f"]))
        c2 = node(ex, w, ch[1], "ARG_LIST", None, len(args))
        for i, n in enumerate(names): converted(ex, f"{w}, argument {i}", c2[i], (n, ops[n]), REP[params[i]])
    return h
def cases(f, *ks):
    import itertools
    return [(",".join(map(str, c)), f(*c)) for c in itertools.product(*ks)]
SK = ["CHAR", "UNSIGNED_INT", "LONG", "POINTER", "VPOINTER", "ARRAY", "STRUCT"]
ARITH_OPS = "arith"
def oper_units(which=None):
    u = []
    for op in list(BIN) + ["LSHIFT", "RSHIFT"] + REL + ["LAND", "LOR"]:
        for i in range(0, len(KINDS), 6):
            u.append((f"resolve {op} [{KINDS[i]}..]", allof([(f"{op} {a},{b}", h_binary(op, a, b)) for a in KINDS[i:i + 6] for b in KINDS])))
        u.append((f"resolve {op}: operand errors", allof([(w, h_suberror(op + "_EXPR", 2, w)) for w in "ab"])))
    u.append(("resolve ?:", allof(cases(lambda a, b: h_cond(a, b, "INT"), KINDS, KINDS))))
    u.append(("resolve ?: condition", allof([(k, h_cond("LONG", "CHAR", k)) for k in KINDS] + [(w, h_suberror("COND_EXPR", 3, w)) for w in "abc"])))
    u.append(("resolve =", allof(cases(h_assign, KINDS, KINDS) + [(w, h_suberror("ASSIGN_EXPR", 2, w)) for w in "ab"])))
    for op in CASS: u.append((f"resolve {op}=", allof(cases(lambda a, b, op=op: h_cassign(op, a, b), KINDS, KINDS))))
    for op in ("POS", "NEG", "NOT", "LNOT", "ADDR", "INDIR", "PREINC", "PREDEC", "POSTINC", "POSTDEC"):
        u.append((f"resolve unary {op}", allof(cases(lambda a, op=op: h_unary(op, a), KINDS) + [("error", h_suberror(op + "_EXPR", 1, "a"))])))
    u.append(("resolve cast", allof(cases(h_cast, KINDS, KINDS))))
    u.append(("resolve sizeof", allof(cases(h_sizeof, KINDS, (0, 1)))))
    u.append(("resolve subscript", allof(cases(h_subscript, KINDS, KINDS))))
    cs = [([], [], "INT"), (["INT"], [], "VOID"), ([], ["INT"], "VOID"), (["INT"], ["INT", "INT"], "INT")]
    cs += [([p], [q], "LONG") for p in KINDS if isscal(REP[p]) for q in KINDS] + [([p, q, "INT"], [q, p, "CHAR"], "POINTER") for p in SK[:5] for q in SK[:5]]
    u.append(("resolve call", allof([(str(c), h_call(*c)) for c in cs])))
    return u

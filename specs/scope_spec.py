"""Contracts of the symbol and tag tables and of the functions that open and close scopes (C08, C09)."""
import z3, os
import absx, absmap, runner
from objs import *
import objs
FILES = ["src/symtab/symtab.c", "src/symtab/symbol.c", "src/tagtab/tagtab.c", "src/common/util.c", "src/common/type.c", "src/dtype/dtype.c", "src/dtype/array.c", "src/dtype/enum.c",
         "src/dtype/function.c", "src/dtype/pointer.c", "src/dtype/struct.c", "src/dtype/typedef.c", "src/srt/srt.c", "src/ast/ast.c", "src/literal/iliteral.c", "src/literal/sliteral.c", "src/vector/vector.c",
         "src/resolver/resolver.c", "src/resolver/statement.c", "src/resolver/external.c", "src/resolver/resolverret.c", "src/resolver/conversion.c", "src/pair/pair.c", "src/error/error.c", "src/error/errint.c",
         "src/immcgen/immcgen.c", "src/immcgen/statement.c", "src/immcgen/external.c", "src/immcgen/declaration.c", "src/immcgen/util.c", "src/immc/immc.c", "src/immc/inst.c", "src/immc/ope.c", "src/immc/label.c", "src/immc/data.c",
         "src/immc/register.c", "src/immc/util.c", "src/immc/suffix.c"]
_tu = None
def tu():
    global _tu
    if _tu is None: _tu = TU([f for f in FILES if os.path.exists(os.path.join(runner.REPO, f))])
    return _tu
I = z3.IntSort(); AI = z3.ArraySort(I, I)
zi = lambda v: v if isz(v) else z3.IntVal(int(v))
# ---------------------------------------------------------------- maps of any content: name -> declaration (0: none), and what was added since
def pmap(ex, A, kind, lev=None):
    b = ex.heap.new(None); ex.heap.objs[b].tag = ["pmap", A, [], kind, lev]; return P(b, 0)
def pm(ex, p):
    t = ex.obj(p.b, "map").tag
    if not (isinstance(t, list) and t[0] == "pmap"): raise Structural("object is not a map")
    return t
def key(ex, p):
    k = strid(ex, p)
    return k if isz(k) else z3.IntVal(NAMES.setdefault(k, 1000 + len(NAMES)))
NAMES = {}
def get(ex, p, k):
    t = pm(ex, p)
    for kk, kp, v in reversed(t[2]):
        if ex.branch(kk == k): return v
    v = z3.Select(t[1], k)
    if ex.branch(v == 0): return NULL
    r = opaque(ex, t[3], v); ex.ghost["hit"] = t
    return r
def mk():
    e = Engine(tu(), mode="int", heap="conc"); objs.install(e); e.batch = False; o = e.overrides
    def new_map(ex, a): return pmap(ex, z3.K(I, z3.IntVal(0)), "new")
    def map_get(ex, a): return get(ex, a[0], key(ex, a[1]))
    def map_get_with_default(ex, a):
        r = get(ex, a[0], key(ex, a[1])); return a[2] if isn(r) else r
    def map_contains(ex, a): return int(not isn(get(ex, a[0], key(ex, a[1]))))
    def map_add(ex, a): pm(ex, a[0])[2].append((key(ex, a[1]), a[1], a[2]))
    def delete_map(ex, a): pm(ex, a[0]); ex.obj(a[0].b, "map").alive = False
    o.update(new_map=new_map, map_get=map_get, map_get_with_default=map_get_with_default, map_contains=map_contains, map_add=map_add, delete_map=delete_map)
    def dtype_nbytes(ex, a):
        d = opq(ex, a[0]) if isopq(ex, a[0]) else None
        return NBYTES(d) if d is not None else NotImplemented
    o["dtype_nbytes"] = dtype_nbytes
    return e
NBYTES = z3.Function("NBYTES", I, I)
TABS = {"symboltable": ("SymbolTable", "symbol_map", "Symbol"), "tagtable": ("TagTable", "map", "DType")}
def table(ex, kind, A=None, outer=NULL, lev=None, mem=None):
    r, mf, _ = TABS[kind]
    A = ex.fresh("M", AI) if A is None else A
    f = {mf: pmap(ex, A, "decl", lev), "outer_scope": outer}
    if kind == "symboltable":
        f["memory_nbytes"] = ex.fresh("mem") if mem is None else mem
        if mem is None: ex.assume(z3.And(f["memory_nbytes"] >= 0, f["memory_nbytes"] < 2**28))
    return rec(ex, r, **f)
def mapof(ex, kind, p): return pm(ex, ex.heap.objs[p.b].fields[TABS[kind][1]])
def snap(ex, kind, p):
    o = ex.obj(p.b, "scope"); t = mapof(ex, kind, p)
    ex.obj(o.fields[TABS[kind][1]].b, "scope's map")
    return (o.fields[TABS[kind][1]].b, t[1], list(t[2]), o.fields["outer_scope"])
def unchanged(ex, what, kind, p, s0):
    s1 = snap(ex, kind, p)
    ex.oblige(f"{what}: declarations as before", s1[0] == s0[0] and s1[1].eq(s0[1]) and len(s1[2]) == len(s0[2]) and all(x[2] == y[2] for x, y in zip(s1[2], s0[2])), "post")
    ex.oblige(f"{what}: enclosing scope as before", s1[3] == s0[3], "post")
# ---------------------------------------------------------------- the tables
def h_candef(kind):
    def h(ex):
        A = ex.fresh("M", AI); k = ex.fresh("name"); t = table(ex, kind, A, NULL); s0 = snap(ex, kind, t)
        r = ex.tobool(ex.call(FnVal(kind + "_can_define"), [t, absx.new_str(ex, k)], None))
        ex.oblige("a name can be declared exactly when its own scope does not declare it", ex.ieq(r, z3.Select(A, k) == 0) if isz(r) else (z3.Select(A, k) == 0) == r, "post")
        unchanged(ex, "asking", kind, t, s0); ex.eng.reach.append(("c", list(ex.pc)))
    return h
DEFS = {"symboltable_define_label": ("symboltable", "LABEL"), "symboltable_define_memory": ("symboltable", "MEM"), "symboltable_define_integer": ("symboltable", "INT"),
        "tagtable_define_struct": ("tagtable", "STRUCT"), "tagtable_define_enum": ("tagtable", "ENUM")}
def h_define(fn):
    kind, what = DEFS[fn]
    def h(ex):
        A = ex.fresh("M", AI); k = ex.fresh("name")
        outer = table(ex, kind) if ex.choose(2) else NULL
        t = table(ex, kind, A, outer); s0 = snap(ex, kind, t); so = snap(ex, kind, outer) if not isn(outer) else None
        nm = absx.new_str(ex, k); E = ex.tu.enums
        if kind == "symboltable":
            d = ex.fresh("d"); ex.assume(z3.And(NBYTES(d) >= 0, NBYTES(d) < 2**28)); dp = opaque(ex, "dtype", d); il = opaque(ex, "iliteral", "lit")
            m0 = ex.heap.objs[t.b].fields["memory_nbytes"]
            r = ex.call(FnVal(fn), [t, nm, dp] + ([il] if what == "INT" else []), None)
            m1 = ex.heap.objs[t.b].fields["memory_nbytes"]
        else:
            ms = [rec(ex, "DStructMember", name=absx.new_str(ex, "m"), dtype=dt(ex, ("INT",)), memory_offset=0)] if what == "STRUCT" else [rec(ex, "DEnumMember", name=absx.new_str(ex, "m"), value=3)]
            r = ex.call(FnVal(fn), [t, nm, absx.new_vec(ex, ms, G(ex, "t_dstructmember" if what == "STRUCT" else "t_denummember"))], None)
        if not isn(outer): unchanged(ex, "the enclosing scope", kind, outer, so)
        if isn(r):
            ex.oblige("a declaration is refused only when its own scope already declares the name", z3.Select(A, k) != 0, "post")
            unchanged(ex, "a refused declaration", kind, t, s0)
            if kind == "symboltable": ex.oblige("a refused declaration takes no stack area", ex.ieq(m0, m1), "post")
            ex.eng.reach.append(("refused", list(ex.pc))); return
        ex.oblige("a name declared in this scope is refused", z3.Select(A, k) == 0, "post")
        s1 = snap(ex, kind, t)
        ex.oblige("exactly one declaration is added to this scope", s1[0] == s0[0] and s1[1].eq(A) and len(s1[2]) == 1 and s1[3] == s0[3], "post")
        kk, kp, v = s1[2][0]
        ex.oblige("it is added under its name", ex.ieq(kk, k), "post")
        ex.oblige("the declaration returned is the one added", v == r, "post")
        ob = ex.obj(r.b, "declaration")
        if kind == "symboltable":
            f = ob.fields
            ex.oblige("the declaration has the kind asked for", ex.ieq(f["type"], E["SYMBOL_" + what]), "post")
            ex.oblige("the declaration has the name", ex.ieq(zi(strid(ex, f["name"])), k), "post")
            ex.oblige("the name in the table and in the declaration are released separately", kp != f["name"], "post")
            ex.oblige("the declaration has the type", isopq(ex, f["dtype"]) and ex.ieq(opq(ex, f["dtype"]), d) is not False and same(ex, opq(ex, f["dtype"]), d), "post")
            if what == "INT": ex.oblige("the constant has its value", isinstance(f["iliteral"], P) and isopq(ex, f["iliteral"]) and opq(ex, f["iliteral"]) == "lit", "post")
            else: ex.oblige("only a constant has a value", isn(f["iliteral"]), "post")
            if what == "MEM":
                off = f["memory_offset"]; n = NBYTES(d)
                ex.oblige("the area has at least the size of the type, beyond every area handed out before", off - n >= m0, "post")
                ex.oblige("the area starts at a 4-byte aligned offset", off % 4 == 0, "post")
                ex.oblige("the recorded frame size covers the area", ex.ieq(m1, off), "post")
                ex.oblige("no more than the alignment is wasted", off - n - m0 < 4, "post")
            else: ex.oblige("no stack area is taken", ex.ieq(m0, m1), "post")
        else:
            d1, _ = dt_read(ex, r)
            ex.oblige("the tag names the type declared", d1[0] == what and d1[2] is not None and len(d1[2]) == 1, "post")
        ex.eng.reach.append(("added", list(ex.pc)))
    return h
def chain(ex, kind, n):
    t = NULL; ts = []
    for i in reversed(range(n)): t = table(ex, kind, None, t, i); ts.insert(0, t)
    return ts
def h_search_n(kind, n):
    def h(ex):
        ts = chain(ex, kind, n); k = ex.fresh("name"); ss = [snap(ex, kind, t) for t in ts]
        r = ex.call(FnVal(kind + "_search"), [ts[0], absx.new_str(ex, k)], None)
        found(ex, r, [s[1] for s in ss], k)
        for t, s in zip(ts, ss): unchanged(ex, "looking up", kind, t, s)
        ex.eng.reach.append(("s", list(ex.pc)))
    return h
def found(ex, r, As, k):
    w = z3.IntVal(0)
    for A in reversed(As): w = z3.If(z3.Select(A, k) != 0, z3.Select(A, k), w)
    if isn(r): ex.oblige("nothing is found only when no open scope declares the name", w == 0, "post")
    else:
        ex.oblige("a declaration of a scope is found", isopq(ex, r), "post")
        ex.oblige("the innermost declaration of the name is found", opq(ex, r) == w, "post")
MM = z3.Function("SCOPE", I, AI)
def h_search_any(kind):
    """lookup through any number of nested scopes"""
    rn = TABS[kind][0]
    def h(ex):
        N, k = ex.fresh("N"), ex.fresh("name"); ex.assume(N >= 1); lev = {}
        j = z3.Int("j!s")
        def level(d):
            if ex.branch(zi(d) + 1 == N): out = NULL
            else: out = table(ex, kind, MM(zi(d) + 1), UNINIT, None); lev[out.b] = zi(d) + 1
            t = table(ex, kind, MM(zi(d)), out, zi(d)); lev[t.b] = zi(d); return t
        t0 = level(0)
        def cells():
            cs = []
            for fr in ex.frames:
                for c in fr["vars"].values():
                    if isinstance(c.v, P): cs.append(c)
            return cs
        def tc(c): return ex.tu.norm(c.qt)[0] == "ptr" and rn in c.qt
        def cur(): 
            cs = [c for c in cells() if tc(c)]
            return cs
        def lv(v):
            if isn(v): return N
            if v.b in lev: return lev[v.b]
            raise Structural("scope outside the chain")
        moving = {}
        def inv(c):
            r = []
            for cc in cur():
                if moving and cc.name not in moving: continue
                d = lv(cc.v)
                r.append(("no scope passed so far declares the name", z3.And(d >= 0, d <= N, z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < d), z3.Select(MM(j), k) == 0)))))
            return r
        def ptr(c, cell):
            if tc(cell):
                moving[cell.name] = 1
                if ex.choose(2): return NULL
                d = ex.fresh("d"); ex.assume(z3.And(d >= 0, d < N)); return level(d)
            if cell.qt.replace(" ", "") == TABS[kind][2] + "*": return NULL
            raise Structural("pointer changed by the loop: " + cell.qt)
        def step(c):
            for cc in cells():
                if ex.tu.norm(cc.qt)[0] == "ptr" and cc.qt.replace(" ", "") == TABS[kind][2] + "*": ex.oblige("the search goes on only while nothing is found", isn(cc.v), "inv")
        def dec(c):
            ms = [x for x in cur() if x.name in moving]
            return N - lv(ms[0].v) if ms else None
        import C10
        C10.loops(ex, kind + "_search", [dict(inv=inv, ptr=ptr, step=step, dec=dec)])
        r = ex.call(FnVal(kind + "_search"), [t0, absx.new_str(ex, k)], None)
        if isn(r): ex.oblige("nothing is found only when no open scope declares the name", z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < N), z3.Select(MM(j), k) == 0)), "post")
        else:
            t = ex.ghost.get("hit")
            ex.oblige("a declaration of a scope is found", isopq(ex, r) and t is not None, "post")
            d = t[4]
            if d is None: raise Structural("scope of unknown depth")
            ex.oblige("the innermost declaration of the name is found", z3.And(0 <= d, d < N, opq(ex, r) == z3.Select(MM(d), k), opq(ex, r) != 0, z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < d), z3.Select(MM(j), k) == 0))), "post")
        ex.eng.reach.append(("s", list(ex.pc)))
    return h
def empty(ex, t): return z3.simplify(t[1]).eq(z3.K(I, z3.IntVal(0))) and not t[2]
def h_enter(kind):
    def h(ex):
        t = table(ex, kind) if ex.choose(2) else NULL
        s0 = snap(ex, kind, t) if not isn(t) else None; m0 = ex.heap.objs[t.b].fields.get("memory_nbytes") if not isn(t) else None
        r = ex.call(FnVal(kind + "_enter_scope"), [t], None)
        fresh_scope(ex, kind, r, t)
        if not isn(t):
            unchanged(ex, "opening a scope", kind, t, s0)
            if kind == "symboltable":
                ex.oblige("a new scope's areas come after those of its function", ex.ieq(ex.heap.objs[r.b].fields["memory_nbytes"], m0), "post")
                ex.oblige("opening a scope keeps the recorded size", ex.ieq(ex.heap.objs[t.b].fields["memory_nbytes"], m0), "post")
        elif kind == "symboltable": ex.oblige("the outermost scope starts without areas", ex.ieq(ex.heap.objs[r.b].fields["memory_nbytes"], 0), "post")
        ex.eng.reach.append(("e", list(ex.pc)))
    return h
def fresh_scope(ex, kind, r, outer):
    ex.oblige("a new scope is opened", isinstance(r, P) and not isn(r) and r != outer, "post")
    s1 = snap(ex, kind, r)
    ex.oblige("a new scope declares nothing", empty(ex, mapof(ex, kind, r)), "post")
    ex.oblige("a new scope lies inside the current one", s1[3] == outer, "post")
def h_new(kind):
    def h(ex):
        r = ex.call(FnVal("new_" + kind), [], None)
        fresh_scope(ex, kind, r, NULL)
        if kind == "symboltable": ex.oblige("the outermost scope starts without areas", ex.ieq(ex.heap.objs[r.b].fields["memory_nbytes"], 0), "post")
    return h
def h_exit(kind):
    def h(ex):
        out2 = table(ex, kind); t = table(ex, kind, None, out2) if ex.choose(2) else NULL
        s = table(ex, kind, None, t); mb = ex.heap.objs[s.b].fields[TABS[kind][1]].b
        s0 = snap(ex, kind, t) if not isn(t) else None; s2 = snap(ex, kind, out2)
        m = ex.heap.objs[s.b].fields.get("memory_nbytes")
        r = ex.call(FnVal(kind + "_exit_scope"), [s], None)
        ex.oblige("leaving a scope returns to the enclosing one", r == t, "post")
        ex.oblige("the scope left is released with its declarations", not ex.heap.objs[s.b].alive and not ex.heap.objs[mb].alive, "post")
        if not isn(t):
            unchanged(ex, "the enclosing scope", kind, t, s0)
            if kind == "symboltable": ex.oblige("areas of the closed scope stay covered by the recorded size", ex.ieq(ex.heap.objs[t.b].fields["memory_nbytes"], m), "post")
        unchanged(ex, "scopes further out", kind, out2, s2)
        ex.eng.reach.append(("x", list(ex.pc)))
    return h
def h_delete(kind, n):
    def h(ex):
        ts = chain(ex, kind, n); ms = [ex.heap.objs[t.b].fields[TABS[kind][1]].b for t in ts]
        ex.call(FnVal("delete_" + kind), [ts[0]], None)
        ex.oblige("every scope and map is released once", not any(ex.heap.objs[t.b].alive for t in ts) and not any(ex.heap.objs[b].alive for b in ms), "post")
    return h

# ---------------------------------------------------------------- who opens and closes scopes
def scopes(ex): return table(ex, "symboltable", None, table(ex, "symboltable")), table(ex, "tagtable", None, table(ex, "tagtable"))
def alltabs(ex, sp, tp):
    r = []
    for kind, p in (("symboltable", sp), ("tagtable", tp)):
        while not isn(p): r.append((kind, p, snap(ex, kind, p))); p = ex.heap.objs[p.b].fields["outer_scope"]
    return r
class Kids:
    """children of a statement by contract: each sees the current scope, declares what it likes there and may fail"""
    def __init__(s, ex, owner, rn, inner):
        s.ex, s.owner, s.rn, s.inner = ex, owner, rn, inner; s.seen = []; s.sp = s.tp = None; s.n = 0
        s.sp0, s.tp0 = s.cur(); s.tabs = alltabs(ex, s.sp0, s.tp0); s.want = {}
        s.mem0 = ex.heap.objs[s.sp0.b].fields["memory_nbytes"]
    def cur(s):
        f = s.ex.heap.objs[s.owner.b].fields; return f["symbol_table"], f["tag_table"]
    def visit(s, what):
        ex = s.ex; sp, tp = s.cur(); s.seen.append(what)
        for kind, p, s0 in s.tabs: unchanged(ex, f"before {what}", kind, p, s0)
        if not s.inner:
            ex.oblige(f"{what} belongs to the current scope", sp == s.sp0 and tp == s.tp0, "post"); return
        if s.sp is None:
            for kind, p, p0 in (("symboltable", sp, s.sp0), ("tagtable", tp, s.tp0)):
                ex.oblige(f"a scope of its own is open for {what} ({kind})", p != p0 and not isn(p), "post")
                t = mapof(ex, kind, p); want = s.want.get(kind, [])
                ex.oblige(f"the new scope declares nothing of its own ({kind})", z3.simplify(t[1]).eq(z3.K(I, z3.IntVal(0))) and len(t[2]) == len(want), "post")
                for (kk, kp, v), w in zip(t[2], want): ex.oblige("the parameters are declared in order", ex.ieq(kk, w), "post")
                ex.oblige(f"the new scope lies inside the current one ({kind})", ex.heap.objs[p.b].fields["outer_scope"] == p0, "post")
            ex.oblige("areas in the new scope come after those of its function", ex.ieq(ex.heap.objs[sp.b].fields["memory_nbytes"], s.mem0), "post")
            s.sp, s.tp = sp, tp
        else: ex.oblige(f"{what} belongs to the same new scope", sp == s.sp and tp == s.tp, "post")
        for kind, p in (("symboltable", sp), ("tagtable", tp)): mapof(ex, kind, p)[2].append((ex.fresh("decl"), NULL, opaque(ex, "decl", "d")))
        m = ex.fresh("mem"); ex.assume(z3.And(m >= ex.heap.objs[sp.b].fields["memory_nbytes"], m < 2**30)); ex.heap.objs[sp.b].fields["memory_nbytes"] = m; s.mem = m
    def after(s, fn=False):
        ex = s.ex; sp, tp = s.cur()
        ex.oblige("afterwards the scope is the one from before", sp == s.sp0 and tp == s.tp0, "post")
        for kind, p, s0 in s.tabs: unchanged(ex, "afterwards", kind, p, s0)
        m = ex.heap.objs[sp.b].fields["memory_nbytes"]
        if s.inner and s.sp is not None:
            ex.oblige("the inner scopes are released", not ex.heap.objs[s.sp.b].alive and not ex.heap.objs[s.tp.b].alive, "post")
            if not fn: ex.oblige("the recorded frame size still covers the areas of the closed scope", ex.ieq(m, s.mem), "post")
def resolver(ex, ast, sp, tp, **kw):
    f = dict(ast=ast, trans_unit_srt=NULL, scope_srt=mksrt(ex, "CMPD_STMT", None), symbol_table=sp, tag_table=tp, inside_loop=1, switch_cases=absx.new_vec(ex, [], G(ex, "t_iliteral")), switch_default_exists=0,
             return_dtype=dt(ex, ("INT",)), specifier_dtype=NULL, default_enum_value=0, initialized_dtype=NULL, initialized_offset=-1, is_nested_initializing=0, sliteral_id=-1, expr_dtype=NULL)
    f.update(kw); return rec(ex, "Resolver", **f)
def ret(ex, srt): return ex.call(FnVal("new_resolverret"), [srt], None)
def reterr(ex): return ex.call(FnVal("new_resolverret_errors"), [absx.new_vec(ex, [opaque(ex, "error", "error")], G(ex, "t_error"))], None)
def h_resolve_stmt(kind, kids):
    """kids: kinds of the children, D: declaration, S: statement, E: expression"""
    def h(ex):
        o = ex.eng.overrides
        sp, tp = scopes(ex)
        ast = mkast(ex, kind, [mkast(ex, "DECL" if k == "D" else "NULL_STMT" if k == "S" else "IDENT_EXPR", ident=f"k{i}") for i, k in enumerate(kids)])
        kp = [p for p in absx.vec(ex, ex.heap.objs[ast.b].fields["children"])[1]]
        r = resolver(ex, ast, sp, tp); K = Kids(ex, r, "Resolver", kind in ("CMPD_STMT", "FOR_STMT")); top = [1]; failed = [0]
        def child(what):
            def f(ex, a):
                if what == "statement" and top[0]: top[0] = 0; return NotImplemented
                cur = ex.heap.objs[a[0].b].fields["ast"]
                i = next((j for j, p in enumerate(kp) if p == cur), None)
                ex.oblige("a part of the statement is resolved", i is not None, "post")
                K.visit(f"part {i}")
                if ex.choose(2): failed[0] = 1; return reterr(ex)
                if what == "expression": return ret(ex, mksrt(ex, "IDENT_EXPR" if kind != "CASE_STMT" else "ILITERAL_EXPR", ("INT",), ident=f"k{i}", il=rec(ex, "IntegerLiteral", type=ex.tu.enums["INTEGER_INT"], signed_value=5, unsigned_value=0) if kind == "CASE_STMT" else None))
                return ret(ex, mksrt(ex, "DECL_LIST" if what == "declaration" else "NULL_STMT", None))
            return f
        o.update(resolve_stmt=child("statement"), resolve_decl=child("declaration"), resolve_expr=child("expression"))
        p = ex.call(FnVal("resolve_stmt"), [r], None)
        K.after()
        f = ex.obj(p.b, "result").fields
        if not failed[0]: ex.oblige("every part was resolved once, in order", K.seen == [f"part {i}" for i in range(len(kids))], "post")
        ex.oblige("an error in a part is reported", (not isn(f.get("errors", f.get("errs", NULL)))) == bool(failed[0]) if ("errors" in f or "errs" in f) else True, "post")
        ex.eng.reach.append(("r", list(ex.pc)))
    return h
def h_resolve_func(nparams):
    def h(ex):
        o = ex.eng.overrides; sp, tp = scopes(ex)
        ft = ("FUNCTION", [(f"p{i}", ("INT",)) for i in range(nparams)], ("LONG",))
        ast = mkast(ex, "FUNC_DEF", [mkast(ex, "DECL_SPECS"), mkast(ex, "IDENT_DECLOR"), mkast(ex, "CMPD_STMT")])
        kp = [p for p in absx.vec(ex, ex.heap.objs[ast.b].fields["children"])[1]]
        r = resolver(ex, ast, sp, tp, switch_cases=NULL, inside_loop=0, return_dtype=NULL); K = Kids(ex, r, "Resolver", True)
        K.mem0 = None
        def spec(ex, a): return ex.call(FnVal("new_resolverret_dtype"), [dt(ex, ("LONG",))], None)
        def dcl(ex, a): return ret(ex, mksrt(ex, "IDENT_DECL", ("FUNCTION", ft[1], None), ident="fn"))
        def body(ex, a):
            cs, ct = K.cur()
            K.mem0 = ex.heap.objs[cs.b].fields["memory_nbytes"]
            ex.oblige("the areas of a function start with its parameters", ex.ieq(K.mem0, 4 * nparams), "post")
            K.tabs = alltabs(ex, sp, tp)
            t = mapof(ex, "symboltable", sp)
            ex.oblige("the function is declared in the enclosing scope before its body", len(t[2]) == 1 and z3.simplify(t[2][0][0]).eq(key(ex, absx.new_str(ex, "fn"))), "post")
            K.want = {"symboltable": [key(ex, absx.new_str(ex, f"p{i}")) for i in range(nparams)], "tagtable": []}
            ex.oblige("the body is resolved", ex.heap.objs[a[0].b].fields["ast"] == kp[2], "post")
            rd = ex.heap.objs[a[0].b].fields["return_dtype"]
            ex.oblige("return statements of the body see the function's return type", not isn(rd) and dt_read(ex, rd)[0] == ("LONG",), "post")
            K.visit("the body")
            if ex.choose(2): return reterr(ex)
            return ret(ex, mksrt(ex, "CMPD_STMT", None))
        o.update(resolve_decl_specifiers=spec, resolve_declarator=dcl, resolve_compound_stmt=body, dtype_nbytes=lambda ex, a: 4)
        ex.inline("resolve_function_definition", [r])
        if K.seen: K.after(fn=True); ex.oblige("afterwards no function is open", isn(ex.heap.objs[r.b].fields["return_dtype"]), "post")
        else:
            ex.oblige("a function whose name is taken is refused", z3.Select(K.tabs[0][2][1], key(ex, absx.new_str(ex, "fn"))) != 0, "post")
            K.inner = False; K.after()
        ex.eng.reach.append(("r", list(ex.pc)))
    return h
def immcgen(ex, srt, sp, tp, **kw):
    f = dict(srt=srt, symbol_table=sp, tag_table=tp, expr_reg_suffix=0, expr_reg=NULL, next_reg_id=-1, initialized_dtype=NULL, initialized_offset=-1, continue_label_id=3, break_label_id=4, return_label_id=0,
             case_label_values=NULL, default_label_id=-1, label_id=9)
    f.update(kw); return rec(ex, "Immcgen", **f)
def h_imm_stmt(kind, kids):
    def h(ex):
        o = ex.eng.overrides; sp, tp = scopes(ex)
        srt = mksrt(ex, kind, None, [mksrt(ex, k, None, ident=f"k{i}") for i, k in enumerate(kids)])
        kp = absx.vec(ex, ex.heap.objs[srt.b].fields["children"])[1][:]
        g = immcgen(ex, srt, sp, tp); K = Kids(ex, g, "Immcgen", kind in ("CMPD_STMT", "FOR_STMT")); top = [1]
        def child(ex, a):
            if top[0]: top[0] = 0; return NotImplemented
            cur = ex.heap.objs[a[0].b].fields["srt"]
            i = next((j for j, p in enumerate(kp) if p == cur), None)
            ex.oblige("a part of the statement is translated", i is not None, "post")
            K.visit(f"part {i}"); return absx.new_vec(ex, [], G(ex, "t_immc"))
        o["immcgen_generate_immcode"] = child
        ex.call(FnVal("immcgen_generate_immcode"), [g], None)
        K.after()
        ex.oblige("every part was translated once", sorted(K.seen) == [f"part {i}" for i in range(len(kids)) if not (kind == "FOR_STMT" and i == 1)], "post")
        ex.eng.reach.append(("r", list(ex.pc)))
    return h
SZ = {1: "BYTE", 2: "WORD", 4: "LONG", 8: "QUAD"}
def h_imm_func(nparams):
    def h(ex):
        o = ex.eng.overrides; sp, tp = scopes(ex); E = ex.tu.enums
        ps = [opaque(ex, "dtype", ex.fresh("pd")) for _ in range(nparams)]; sizes = [(1, 4, 8)[ex.choose(3)] for _ in range(nparams)]
        def dtype_nbytes(ex, a):
            for p, n in zip(ps, sizes):
                if opq(ex, a[0]) is opq(ex, p): return n
            return NotImplemented
        o["dtype_nbytes"] = dtype_nbytes
        decl = mksrt(ex, "IDENT_DECL", None, ident="fn")
        ft = rec(ex, "DType", type=E["DTYPE_FUNCTION"], dpointer=NULL, darray=NULL, dstruct=NULL, denum=NULL, dtypedef=NULL, dfunction=NULL)
        ex.heap.objs[ft.b].fields["dfunction"] = rec(ex, "DFunction", params=absx.new_vec(ex, [rec(ex, "DParam", name=absx.new_str(ex, f"p{i}"), dtype=p) for i, p in enumerate(ps)], G(ex, "t_dparam")), return_dtype=dt(ex, ("INT",)))
        ex.heap.objs[decl.b].fields["dtype"] = ft
        body = mksrt(ex, "CMPD_STMT", None, [mksrt(ex, "NULL_STMT", None), mksrt(ex, "NULL_STMT", None)])
        kp = absx.vec(ex, ex.heap.objs[body.b].fields["children"])[1][:]
        srt = mksrt(ex, "FUNC_DEF", None, [decl, body])
        lab = ex.fresh("label_id"); ex.assume(z3.And(lab >= -1, lab < 2**28))
        g = immcgen(ex, srt, sp, tp, label_id=lab); K = Kids(ex, g, "Immcgen", True); first = [1]; marks = []
        outer_mem = K.mem0
        def child(ex, a):
            cs, ct = K.cur()
            i = next((j for j, p in enumerate(kp) if p == ex.heap.objs[a[0].b].fields["srt"]), None)
            ex.oblige("a part of the body is translated", i is not None, "post")
            if first[0]:
                first[0] = 0; K.mem0 = ex.heap.objs[cs.b].fields["memory_nbytes"]; K.tabs = alltabs(ex, sp, tp)
                K.want = {"symboltable": [key(ex, absx.new_str(ex, f"p{i}")) for i in range(nparams)], "tagtable": []}
                t = mapof(ex, "symboltable", sp)
                K.params = list(mapof(ex, "symboltable", cs)[2])
                K.pf = [dict(ex.heap.objs[v.b].fields) for _, _, v in K.params]
                ex.oblige("label numbers only grow", ex.heap.objs[g.b].fields["label_id"] > lab, "post")
                ex.oblige("virtual registers of a function start anew", ex.ieq(ex.heap.objs[g.b].fields["next_reg_id"], -1), "post")
                K.rl = ex.heap.objs[g.b].fields["return_label_id"]
                ex.oblige("the return label is a new label", z3.And(K.rl > lab, K.rl <= ex.heap.objs[g.b].fields["label_id"]), "post")
            K.visit(f"part {i}")
            m = opaque(ex, "immc", f"body{i}"); marks.append(m); return absx.new_vec(ex, [m], G(ex, "t_immc"))
        o["immcgen_generate_immcode"] = child
        def lab_from_id(ex, a):
            return ex.call(FnVal("new_label_immc"), [a[0], a[1], absx.new_str(ex, zi(a[2]))], None)
        o["new_label_immc_from_id"] = lab_from_id
        r = ex.inline("gen_function_definition_immcode", [g])
        K.after(fn=True)
        codes = absx.vec(ex, r)[1]
        ex.oblige("the whole body is translated, in order", K.seen == ["part 0", "part 1"], "post")
        F = lambda p: ex.obj(p.b, "code").fields
        ok = len(codes) == nparams + 2 + 4 and codes[2 + nparams:2 + nparams + 2] == marks
        ex.oblige("code of a function: label, entry, parameters, body, return label, exit", ok, "post")
        def inst(c, t):
            f = F(c); ex.oblige(f"{t} instruction in its place", not isn(f["inst"]) and F(f["inst"])["type"] == E["IMMC_INST_" + t], "post"); return F(f["inst"])
        l = F(codes[0]); ex.oblige("the function starts with its label", not isn(l["label"]) and strid(ex, F(l["label"])["name"]) == "fn" and F(l["label"])["type"] == E["IMMC_LABEL_FUNCTION"], "post")
        for c, t in ((codes[1], "ENTER"), (codes[-1], "LEAVE")):
            i = inst(c, t); op = F(i["fst_src"])
            ex.oblige(f"{t} is given the frame size covering every area of the function", not isn(op["iliteral"]) and ex.ieq(F(op["iliteral"])["signed_value"], K.mem) is not False and same(ex, F(op["iliteral"])["signed_value"], K.mem), "post")
        l = F(codes[-2]); ex.oblige("the return label precedes the exit", not isn(l["label"]) and same(ex, zi(strid(ex, F(l["label"])["name"])), K.rl), "post")
        top = 0
        for i in range(nparams):
            f = inst(codes[2 + i], "LDARG"); d, s = F(f["dst"]), F(f["fst_src"]); pf = K.pf[i]
            ex.oblige("a parameter is stored into its own area", d["type"] == E["IMMC_OPERAND_MEM"] and same(ex, d["mem_offset"], pf["memory_offset"]), "post")
            ex.oblige("a parameter's area is large enough and apart from the others", z3.And(zi(pf["memory_offset"]) - sizes[i] >= top, zi(pf["memory_offset"]) <= K.mem0), "post")
            top = zi(pf["memory_offset"])
            ex.oblige("a parameter comes from the argument of its position", s["type"] == E["IMMC_OPERAND_ARG"] and same(ex, F(s["reg"])["reg_id"] if not isn(s["reg"]) else s.get("reg_id"), i), "post")
            ex.oblige("a parameter is moved at its own width", s["suffix"] == E["IMMC_SUFFIX_" + SZ[sizes[i]]], "post")
        ex.eng.reach.append(("r", list(ex.pc)))
    return h
def h_ident_decl(ex):
    """a declared object gets a stack area inside a function and a label outside"""
    o = ex.eng.overrides; E = ex.tu.enums
    glob, isobj = ex.choose(2), ex.choose(2)
    sp = table(ex, "symboltable", None, NULL if glob else table(ex, "symboltable")); d = ex.fresh("d"); ex.assume(z3.And(NBYTES(d) >= 0, NBYTES(d) < 2**28))
    o["dtype_isobject"] = lambda ex, a: isobj
    srt = mksrt(ex, "IDENT_DECL", None, ident="x"); ex.heap.objs[srt.b].fields["dtype"] = opaque(ex, "dtype", d)
    k = key(ex, absx.new_str(ex, "x")); A = mapof(ex, "symboltable", sp)[1]; ex.assume(z3.Select(A, k) == 0)
    m0 = ex.heap.objs[sp.b].fields["memory_nbytes"]
    g = immcgen(ex, srt, sp, table(ex, "tagtable"))
    r = ex.call(FnVal("immcgen_generate_immcode"), [g], None)
    ex.oblige("a declaration emits no code", absx.vec(ex, r)[1] == [], "post")
    t = mapof(ex, "symboltable", sp)[2]
    ex.oblige("the name is declared in the current scope", len(t) == 1 and z3.simplify(t[0][0]).eq(k) and ex.heap.objs[g.b].fields["symbol_table"] == sp, "post")
    f = ex.obj(t[0][2].b, "symbol").fields
    ex.oblige("an object declared inside a function lives on the stack, anything else is a label", f["type"] == E["SYMBOL_MEM" if not glob and isobj else "SYMBOL_LABEL"], "post")
    ex.oblige("the declaration has the type", isopq(ex, f["dtype"]) and same(ex, opq(ex, f["dtype"]), d), "post")
    if not glob and isobj: ex.oblige("the area is new and large enough", z3.And(f["memory_offset"] - NBYTES(d) >= m0, ex.ieq(ex.heap.objs[sp.b].fields["memory_nbytes"], f["memory_offset"])), "post")
    ex.eng.reach.append(("r", list(ex.pc)))
STM = {"CMPD_STMT": ["", "D", "S", "DS", "SD", "DSD"], "FOR_STMT": ["DSSS", "SSSS"], "IF_STMT": ["ES", "ESS"], "WHILE_STMT": ["ES"], "SWITCH_STMT": ["ES"], "DEFAULT_STMT": ["S"], "CASE_STMT": ["ES"], "EXPR_STMT": ["E"], "RET_STMT": ["E"]}
def table_units():
    u = []
    for k in TABS:
        u += [(f"{k}_can_define", h_candef(k)), (f"{k}_enter_scope", h_enter(k)), (f"{k}_exit_scope", h_exit(k)), (f"new_{k}", h_new(k)), (f"{k}_search, any depth", h_search_any(k))]
        u += [(f"{k}_search, depth {n}", h_search_n(k, n)) for n in (1, 2, 3, 4)] + [(f"delete_{k}, depth {n}", h_delete(k, n)) for n in (1, 3)]
    return u + [(f, h_define(f)) for f in DEFS]
def user_units():
    u = [(f"resolve_stmt {k} {c}", h_resolve_stmt(k, c)) for k, cs in STM.items() for c in cs]
    u += [(f"resolve_function_definition, {n} parameters", h_resolve_func(n)) for n in (0, 1, 2)]
    u += [(f"immcgen CMPD_STMT, {n} children", h_imm_stmt("CMPD_STMT", ["NULL_STMT"] * n)) for n in (0, 1, 3)] + [("immcgen FOR_STMT", h_imm_stmt("FOR_STMT", ["NULL_STMT"] * 4))]
    u += [(f"gen_function_definition_immcode, {n} parameters", h_imm_func(n)) for n in (0, 1, 2)] + [("gen_identifier_decl_immcode", h_ident_decl)]
    return u

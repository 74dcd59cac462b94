"""C10: values live at the same time never share a machine register."""
import z3, os, itertools
import absx, runner
from objs import *
import objs
META = dict(technique="contract-based deductive verification (CVV: VCs from the clang AST of /repo, z3/cvc5); linear-scan loop, rewriting, liveness transfer and range recording by loop invariants over lists of any length",
            level_note="any number of machine and intermediate registers, instructions and ranges; building and linking the blocks is checked for every sequence of up to 4 (thorough: 5) lines (bounded)")
TRUSTED = ["clang 18 front end (AST of /repo) and the CVV symbolic executor", "z3 / cvc5", "list, map and set contracts of C01/C02 at calls of vector_*, map_*, set_*",
           "argument on paper: a solution of the liveness equations contains every live value, so the recorded range [first definition, last use or end of the last block it leaves alive) covers every point where the value is live",
           "termination of the data-flow iteration (sets only grow within a finite universe)"]
ASSUMPTIONS = ["intermediate registers are numbered in the order of their first definition and defined, in code order, before they are used (the shape immcgen produces)",
               "when more values are live than there are registers the allocator gives up on a value (spilling is a TODO in the source); only the decision to do so is checked"]
FILES = ["src/regalloc/regalloc.c", "src/regalloc/basicblock.c", "src/regalloc/regallocret.c", "src/immc/immc.c", "src/immc/inst.c", "src/immc/ope.c", "src/immc/register.c", "src/immc/label.c", "src/immc/data.c",
         "src/liveseq/liveseq.c", "src/liveseq/liveness.c", "src/common/type.c"]
_tu = None
def tu():
    global _tu
    if _tu is None: _tu = TU(FILES)
    return _tu
I = z3.IntSort(); AI = z3.ArraySort(I, I); AB = z3.ArraySort(I, z3.BoolSort())
zi = lambda v: v if isz(v) else z3.IntVal(int(v))
FIRST, LAST = z3.Function("FIRST", I, I), z3.Function("LAST", I, I)

# ---------------------------------------------------------------- lists of symbolic length, sets as predicates
def mk():
    e = Engine(tu(), mode="int", heap="conc"); objs.install(e); e.batch = False; o = e.overrides
    base = {k: o[k] for k in ("vector_at", "vector_size", "vector_set", "vector_fill", "vector_push", "new_vector", "delete_vector", "set_add", "set_contains", "new_set")}
    def tag(ex, p, *kinds):
        if not isinstance(p, P): return None
        t = ex.obj(p.b, "container").tag
        return t if isinstance(t, list) and t[0] in kinds else None
    def size(ex, a):
        t = tag(ex, a[0], "symvec", "symarr")
        return base["vector_size"](ex, a) if t is None else t[1]
    def at(ex, a):
        t = tag(ex, a[0], "symvec", "symarr")
        if t is None: return base["vector_at"](ex, a)
        if t[0] == "symvec": return t[2](ex, a[1])
        i = zi(a[1])
        ex.oblige("list is read within its length", z3.And(i >= 0, i < t[1]), "pre")
        b = ex.heap.new(4); ob = ex.heap.objs[b]; ob.elems = {0: z3.Select(t[2], i)}; ob.const = True
        return P(b, 0)
    def vset(ex, a):
        t = tag(ex, a[0], "symarr")
        if t is None: return base["vector_set"](ex, a)
        i = zi(a[1])
        ex.oblige("list is written within its length", z3.And(i >= 0, i < t[1]), "pre")
        t[2] = z3.Store(t[2], i, zi(ex.eread(a[2], "int"))); return 1
    def fill(ex, a):
        h = ex.ghost.get("fill")
        if h is not None:
            r = h(ex, a)
            if r is not NotImplemented: return r
        t = ex.obj(a[0].b, "list").tag
        if t[0] == "vec" and not t[1] and isz(a[1]):   # an empty list of integers filled to a symbolic length
            ex.heap.objs[a[0].b].tag = ["symarr", a[1], z3.K(I, zi(ex.eread(a[2], "int")))]; return None
        return base["vector_fill"](ex, a)
    def push(ex, a):
        t = tag(ex, a[0], "outvec")
        if t is None: return base["vector_push"](ex, a)
        t[1].append(a[1])
    def delv(ex, a):
        t = tag(ex, a[0], "symvec", "symarr", "outvec")
        if t is None: return base["delete_vector"](ex, a)
        ex.heap.objs[a[0].b].alive = False
    o.update(vector_size=size, vector_at=at, vector_set=vset, vector_fill=fill, vector_push=push, delete_vector=delv)
    # sets of integers as predicates
    def pset(ex, f):
        b = ex.heap.new(None); ex.heap.objs[b].tag = ["pset", f]; return P(b, 0)
    def ps(ex, p):
        t = ex.obj(p.b, "set").tag
        if t[0] == "pset": return t
        if t[0] == "set" and t[2] is None:
            f = z3.K(I, z3.BoolVal(False))
            for v in t[1]: f = z3.Store(f, zi(v), z3.BoolVal(True))
            return ["pset", f]
        raise Structural("not a set")
    def new_set(ex, a): return pset(ex, z3.K(I, z3.BoolVal(False))) if ex.ghost.get("psets") else base["new_set"](ex, a)
    def key(ex, p):
        return zi(ex.load_int(p)) if hasattr(ex, "load_int") else zi(deref(ex, p))
    def set_add(ex, a):
        t = ex.obj(a[0].b, "set").tag
        if t[0] != "pset": return base["set_add"](ex, a)
        t[1] = z3.Store(t[1], key(ex, a[1]), z3.BoolVal(True))
    def set_remove(ex, a):
        t = ex.obj(a[0].b, "set").tag
        if t[0] != "pset": raise Structural("removal from a concrete set")
        t[1] = z3.Store(t[1], key(ex, a[1]), z3.BoolVal(False))
    def set_contains(ex, a):
        t = ex.obj(a[0].b, "set").tag
        return base["set_contains"](ex, a) if t[0] != "pset" else z3.Select(t[1], key(ex, a[1]))
    def set_copy(ex, a): return pset(ex, ps(ex, a[0])[1])
    def set_union(ex, a):
        x, y = ps(ex, a[0])[1], ps(ex, a[1])[1]
        f = ex.fresh("union", AB); k = z3.Int("k!u")
        ex.assume(z3.ForAll([k], z3.Select(f, k) == z3.Or(z3.Select(x, k), z3.Select(y, k)), patterns=[z3.Select(f, k)]))
        return pset(ex, f)
    def set_equals(ex, a): return ps(ex, a[0])[1] == ps(ex, a[1])[1]
    def delete_set(ex, a): ex.obj(a[0].b, "set").alive = False
    o.update(new_set=new_set, set_add=set_add, set_remove=set_remove, set_contains=set_contains, set_copy=set_copy, set_union=set_union, set_equals=set_equals, delete_set=delete_set)
    e.pset = pset
    return e
def deref(ex, p):
    if isinstance(p, FieldPtr): return ex.fread(p.b, p.rec, p.f, "int")
    return ex.eread(p, "int")
def symvec(ex, n, at):
    b = ex.heap.new(None); ex.heap.objs[b].tag = ["symvec", n, at]; return P(b, 0)
def symarr(ex, n, arr):
    b = ex.heap.new(None); ex.heap.objs[b].tag = ["symarr", n, arr]; return P(b, 0)
def loops(ex, fn, specs):
    order = ex.eng.loop_order(fn)
    if len(order) != len(specs): raise Structural(f"{fn}: {len(order)} loops, {len(specs)} expected")
    ex.loop_map = {l: i for i, l in enumerate(order)}; ex.eng.loopspecs = dict(enumerate(specs))
def livevec(ex, n):
    made = {}
    def at(ex, i):
        i = zi(i)
        ex.oblige("ranges are read within the list", z3.And(i >= 0, i < n), "pre")
        k = z3.simplify(i).sexpr()
        if k not in made: made[k] = rec(ex, "Liveness", first_def_index=FIRST(i), last_use_index=LAST(i))
        return made[k]
    return symvec(ex, n, at)
def order(ex, n):
    u, w = z3.Ints("u!o w!o")
    ex.assume(z3.ForAll([u], z3.Implies(z3.And(0 <= u, u < n), FIRST(u) <= LAST(u)), patterns=[FIRST(u)]))
    ex.assume(z3.ForAll([u, w], z3.Implies(z3.And(0 <= u, u <= w, w < n), FIRST(u) <= FIRST(w)), patterns=[z3.MultiPattern(FIRST(u), FIRST(w))]))

# ---------------------------------------------------------------- helpers of the linear scan
def q(f):
    r = z3.Int("r!q"); return z3.ForAll([r], f(r))
def freed(S, S2, K, v):
    """contract of free_unused_register"""
    return q(lambda r: z3.Implies(z3.And(0 <= r, r < K), z3.Select(S2, r) == z3.If(z3.Or(z3.Select(S, r) == -1, LAST(z3.Select(S, r)) <= FIRST(v)), -1, z3.Select(S, r))))
def okS(S, K, v): return q(lambda r: z3.Implies(z3.And(0 <= r, r < K), z3.And(z3.Select(S, r) >= -1, z3.Select(S, r) < v)))
def h_free(ex):
    K, n, v = ex.fresh("K"), ex.fresh("n"), ex.fresh("v"); S = z3.Const("S", AI)
    ex.assume(z3.And(K >= 0, K < 2**30, n > 0, n < 2**30, v >= 0, v < n)); order(ex, n); ex.assume(okS(S, K, v))
    sv = symarr(ex, K, S); T = lambda: ex.heap.objs[sv.b].tag
    def inv(c):
        i = c.i("real_reg_id")
        return [("position", z3.And(i >= 0, i <= K)),
                ("registers looked at are free exactly when they were or their value's range has ended", q(lambda r: z3.Implies(z3.And(0 <= r, r < i), z3.Select(T()[2], r) == z3.If(z3.Or(z3.Select(S, r) == -1, LAST(z3.Select(S, r)) <= FIRST(v)), -1, z3.Select(S, r))))),
                ("the others are untouched", q(lambda r: z3.Implies(z3.And(i <= r, r < K), z3.Select(T()[2], r) == z3.Select(S, r))))]
    def havoc(c): T()[2] = ex.fresh("S", AI)
    loops(ex, "free_unused_register", [dict(inv=inv, havoc=havoc, dec=lambda c: K - c.i("real_reg_id"))])
    ex.call(FnVal("free_unused_register"), [sv, livevec(ex, n), v], None)
    ex.oblige("a register is freed exactly when its value's range has ended", freed(S, T()[2], K, v), "post")
    ex.eng.reach.append(("free", list(ex.pc)))
def took(S, S2, A, A2, K, v, ok):
    """contract of allocate_real_register: some free register is given to v, or none is free and nothing changes"""
    p = z3.Int("p!t")
    some = z3.Exists([p], z3.And(0 <= p, p < K, z3.Select(S, p) == -1, S2 == z3.Store(S, p, v), A2 == z3.Store(A, v, p)))
    return z3.If(ok, some, z3.And(S2 == S, A2 == A, q(lambda r: z3.Implies(z3.And(0 <= r, r < K), z3.Select(S, r) != -1))))
def h_take(ex):
    K, n, v = ex.fresh("K"), ex.fresh("n"), ex.fresh("v"); S, A = z3.Const("S", AI), z3.Const("A", AI)
    ex.assume(z3.And(K >= 0, K < 2**30, n > 0, n < 2**30, v >= 0, v < n)); ex.assume(okS(S, K, v))
    sv, av = symarr(ex, K, S), symarr(ex, n, A); T = lambda p: ex.heap.objs[p.b].tag
    def inv(c):
        i = c.i("real_reg_id")
        return [("position", z3.And(i >= 0, i <= K)), ("no free register so far", q(lambda r: z3.Implies(z3.And(0 <= r, r < i), z3.Select(S, r) != -1))),
                ("nothing taken yet", z3.And(T(sv)[2] == S, T(av)[2] == A, c.i("success") == 0))]
    def havoc(c): T(sv)[2] = ex.fresh("S", AI); T(av)[2] = ex.fresh("A", AI)
    loops(ex, "allocate_real_register", [dict(inv=inv, havoc=havoc, dec=lambda c: K - c.i("real_reg_id"))])
    ok = ex.tobool(ex.call(FnVal("allocate_real_register"), [av, sv, v], None))
    S2, A2 = T(sv)[2], T(av)[2]
    # witness for the register taken: where S2 differs from S
    p = z3.Int("p!w")
    if ex.branch(ok if isz(ok) else z3.BoolVal(ok)):
        w = z3.simplify(z3.Select(A2, v))
        ex.oblige("the register given was free", z3.And(0 <= w, w < K, z3.Select(S, w) == -1), "post")
        ex.oblige("exactly that register and that value change", z3.And(S2 == z3.Store(S, w, v), A2 == z3.Store(A, v, w)), "post")
    else: ex.oblige("without a free register nothing changes", took(S, S2, A, A2, K, v, z3.BoolVal(False)), "post")
    ex.eng.reach.append(("take", list(ex.pc)))
def h_scan(ex):
    """determine_allocation over any number of values and registers; the helpers by contract"""
    K, n = ex.fresh("K"), ex.fresh("n")
    ex.assume(z3.And(K > 0, K < 2**30, n >= 0, n < 2**30)); order(ex, n)
    e = ex.eng; T = lambda p: ex.heap.objs[p.b].tag
    st_ = {}
    def o_free(ex, a):
        sv, v = a[0], zi(a[2])
        ex.oblige("a value of the list is placed", z3.And(v >= 0, v < n), "pre")
        S2 = ex.fresh("S", AI); ex.assume(freed(T(sv)[2], S2, K, v)); T(sv)[2] = S2
    def o_take(ex, a):
        av, sv, v = a[0], a[1], zi(a[2])
        ex.oblige("a value of the list is placed", z3.And(v >= 0, v < n), "pre")
        S, A = T(sv)[2], T(av)[2]
        if ex.choose(2) == 0:
            p = ex.fresh("p"); ex.assume(z3.And(0 <= p, p < K, z3.Select(S, p) == -1))
            T(sv)[2] = z3.Store(S, p, v); T(av)[2] = z3.Store(A, v, p); return 1
        ex.assume(q(lambda r: z3.Implies(z3.And(0 <= r, r < K), z3.Select(S, r) != -1))); return 0
    def o_spill(ex, a):
        av, sv, v = a[0], a[1], zi(a[3]); S, A = T(sv)[2], T(av)[2]
        ex.oblige("a value is given up only when every register holds a value", q(lambda r: z3.Implies(z3.And(0 <= r, r < K), z3.Select(S, r) >= 0)), "post")
        ex.oblige("a value is given up only when the registers' values are all still live", q(lambda r: z3.Implies(z3.And(0 <= r, r < K), z3.And(FIRST(z3.Select(S, r)) <= FIRST(v), FIRST(v) < LAST(z3.Select(S, r))))), "post")
        r, t = z3.Ints("r!s t!s")
        ex.oblige("a value is given up only when the registers hold different values", z3.ForAll([r, t], z3.Implies(z3.And(0 <= r, r < t, t < K), z3.Select(S, r) != z3.Select(S, t))), "post")
        ex.eng.reach.append(("spill", list(ex.pc)))
        raise PathEnd()
    e.overrides.update(free_unused_register=o_free, allocate_real_register=o_take, spil_register=o_spill)
    def arrs():
        sv = [p for p in ex.heap.objs.items() if isinstance(p[1].tag, list) and p[1].tag[0] == "symarr"]
        if len(sv) != 2: raise Structural("the scan works on two integer lists")
        s = [t for b, t in sv if z3.simplify(zi(t.tag[1]) == K).eq(z3.BoolVal(True))]; a = [t for b, t in sv if z3.simplify(zi(t.tag[1]) == n).eq(z3.BoolVal(True))]
        if len(s) != 1 or len(a) != 1: raise Structural("one list over registers and one over values")
        return s[0].tag, a[0].tag
    def invs(v):
        S, A = (t[2] for t in arrs())
        sel = z3.Select; u, w = z3.Ints("u!i w!i")
        return [("position", z3.And(v >= 0, v <= n)),
                ("a register in use is the one its value was given", q(lambda r: z3.Implies(z3.And(0 <= r, r < K), z3.Or(sel(S, r) == -1, z3.And(0 <= sel(S, r), sel(S, r) < v, sel(A, sel(S, r)) == r))))),
                ("every value placed has one of the registers offered", q(lambda x: z3.Implies(z3.And(0 <= x, x < v), z3.And(sel(A, x) >= 0, sel(A, x) < K)))),
                ("a placed value still holds its register or its range has ended", z3.ForAll([u, w], z3.Implies(z3.And(0 <= u, u < v, v <= w, w < n), z3.Or(sel(S, sel(A, u)) == u, LAST(u) <= FIRST(w))), patterns=[z3.MultiPattern(LAST(u), FIRST(w))])),
                ("values with overlapping ranges have different registers", z3.ForAll([u, w], z3.Implies(z3.And(0 <= u, u < w, w < v, sel(A, u) == sel(A, w)), LAST(u) <= FIRST(w)), patterns=[z3.MultiPattern(sel(A, u), sel(A, w))])),
                ]
    def inv(c): return invs(c.i("virtual_reg_id"))
    def havoc(c):
        s, a = arrs(); s[2] = ex.fresh("S", AI); a[2] = ex.fresh("A", AI)
    loops(ex, "determine_allocation", [dict(inv=inv, havoc=havoc, dec=lambda c: n - c.i("virtual_reg_id"))])
    p = ex.call(FnVal("determine_allocation"), [livevec(ex, n), K], None)
    t = T(p)
    ex.oblige("the result has one entry per value", t[0] == "symarr" and z3.simplify(zi(t[1]) == n), "post")
    A = t[2]; u, w = ex.fresh("u"), ex.fresh("w")
    ex.oblige("every value has one of the registers offered", z3.Implies(z3.And(0 <= u, u < n), z3.And(z3.Select(A, u) >= 0, z3.Select(A, u) < K)), "post")
    ex.oblige("two values whose ranges overlap have different registers", z3.Implies(z3.And(0 <= u, u < w, w < n, FIRST(w) < LAST(u)), z3.Select(A, u) != z3.Select(A, w)), "post")
    ex.eng.reach.append(("scan", list(ex.pc)))

# ---------------------------------------------------------------- instructions
OPK = ["none", "ARG", "REG", "PTR", "MEM", "LABEL", "INT", "STR"]
def ope(ex, k, nm):
    if k == "none": return NULL, None
    E = ex.tu.enums; r = None
    reg = NULL
    if k in ("REG", "PTR", "ARG"):
        r = ex.fresh("reg_" + nm); ex.assume(z3.And(r >= 0, r < 2**30)); reg = rec(ex, "ImmcRegister", reg_id=r, is_unsigned=ex.fresh("uns"))
    p = rec(ex, "ImmcOpe", type=E["IMMC_OPERAND_" + k], suffix=ex.fresh("sfx"), reg=reg, mem_offset=ex.fresh("off"), label_name=st(ex, "lab") if k == "LABEL" else NULL,
            iliteral=opaque(ex, "iliteral", "lit" + nm) if k == "INT" else NULL, sliteral=opaque(ex, "sliteral", "str" + nm) if k == "STR" else NULL)
    return p, (r if k in ("REG", "PTR") else None)
def item(ex, kinds=None):
    """one line of intermediate code of any shape; returns its pointer, used and defined registers"""
    E = ex.tu.enums
    k = ex.choose(3) if kinds is None else kinds
    if k == 1: return rec(ex, "Immc", type=E["IMMC_LABEL"], inst=NULL, data=NULL, label=opaque(ex, "immclabel", "L")), [], None, "LABEL"
    if k == 2: return rec(ex, "Immc", type=E["IMMC_DATA"], inst=NULL, data=opaque(ex, "immcdata", "D"), label=NULL), [], None, "DATA"
    # operand kinds: what matters to the allocator is REG, PTR, absent, or another kind
    ks = [OPK[ex.choose(len(OPK))]] + [["none", "REG", "PTR", "MEM"][ex.choose(4)] for _ in range(2)]
    d, dr = ope(ex, ks[0], "d"); f, fr = ope(ex, ks[1], "f"); s, sr = ope(ex, ks[2], "s")
    p = rec(ex, "Immc", type=E["IMMC_INST"], inst=rec(ex, "ImmcInst", type=ex.fresh("inst"), dst=d, fst_src=f, snd_src=s), data=NULL, label=NULL)
    uses = [r for r in (fr, sr) if r is not None] + ([dr] if ks[0] == "PTR" else [])
    return p, uses, (dr if ks[0] == "REG" else None), ks
def describe(ex, p):
    """content of a line of intermediate code as nested tuples"""
    import C19
    g = C19.GR(ex); return g.rec(p, "Immc")
def h_rewrite(ex):
    """gen_allocated_immcs over a list of any length"""
    n, M = ex.fresh("n"), ex.fresh("M"); A = z3.Const("A", AI)
    ex.assume(z3.And(n >= 0, n < 2**30, M >= 0, M < 2**30))
    av = symarr(ex, M, A); seen = []
    def at(ex, i):
        i = zi(i); ex.oblige("lines are read within the list", z3.And(i >= 0, i < n), "pre")
        for j, x in seen:
            if j.eq(z3.simplify(i)): return x[0]
        x = item(ex); 
        for r in x[1] + ([x[2]] if x[2] is not None else []): ex.assume(r < M)
        seen.append((z3.simplify(i), x))
        return x[0]
    out = []
    e = ex.eng
    import C19
    for k in ("immclabel", "immcdata"):
        def cp(ex, a, k=k): return opaque(ex, k, opq(ex, a[0])) if isopq(ex, a[0]) else NotImplemented
        e.overrides[k + "_copy"] = cp; e.overrides["delete_" + k] = e.overrides["delete_dtype"]
    nv = e.overrides["new_vector"]
    def new_vector(ex, a):
        b = ex.heap.new(None); ex.heap.objs[b].tag = ["outvec", [], 0]; out.append(b); return P(b, 0)
    e.overrides["new_vector"] = new_vector
    orig = {}
    def inv(c): return [("position", z3.And(c.i("i") >= 0, c.i("i") <= n)), ("as many lines written as read", z3.BoolVal(len(ex.heap.objs[out[0]].tag[1]) == 0) if c.ex.ghost.get("fresh") is None else z3.BoolVal(True))]
    def havoc(c): ex.heap.objs[out[0]].tag[1] = []; del seen[:]; ex.ghost["i0"] = None; ex.ghost["fresh"] = 1
    def dec(c):
        if ex.ghost.get("i0") is None: ex.ghost["i0"] = c.i("i")
        return n - c.i("i")
    def step(c):
        new = ex.heap.objs[out[0]].tag[1]
        ex.oblige("exactly one line is written per line read", len(new) == 1 and len(seen) == 1, "post")
        i, (p, uses, dr, ks) = seen[0]
        ex.oblige("lines are taken in order", i == ex.ghost["i0"], "post")
        a, b = describe(ex, new[0]), describe(ex, p)
        def comp(x, y, path):
            """x: new, y: original"""
            if isinstance(y, tuple) and y and y[0] == "ImmcOpe":
                names = [f for f, _ in ex.tu.records["ImmcOpe"]]
                ex.oblige("an operand stays", isinstance(x, tuple) and len(x) == len(y), "post")
                kind = y[1 + names.index("type")]
                for f, u, w in zip(names, x[1:], y[1:]):
                    if f == "reg" and w is not None:
                        rn = [g for g, _ in ex.tu.records["ImmcRegister"]]
                        isr = kind in (ex.tu.enums["IMMC_OPERAND_REG"], ex.tu.enums["IMMC_OPERAND_PTR"])
                        for g, u2, w2 in zip(rn, u[1:], w[1:]):
                            want = z3.Select(A, w2) if g == "reg_id" and isr else w2
                            ex.oblige(f"{path}: register operand names the register assigned to its value" if g == "reg_id" else f"{path}: signedness kept", ex.ieq(u2, want), "post")
                    else: ex.oblige(f"{path}: {f} of the operand unchanged", same(ex, u, w), "post")
                return
            if isinstance(y, tuple) and y and y[0] in ("Immc", "ImmcInst"):
                ex.oblige("line kind kept", isinstance(x, tuple) and len(x) == len(y), "post")
                for (f, _), u, w in zip(ex.tu.records[y[0]], x[1:], y[1:]): comp(u, w, f if y[0] == "ImmcInst" else path)
                return
            ex.oblige(f"rest of the line unchanged", same(ex, x, y), "post")
        comp(a, b, "line")
    loops(ex, "gen_allocated_immcs", [dict(inv=inv, havoc=havoc, dec=dec, step=step)])
    p = ex.call(FnVal("gen_allocated_immcs"), [symvec(ex, n, at), av], None)
    ex.oblige("the rewritten lines are returned", p.b == out[0], "post")
    ex.eng.reach.append(("rewrite", list(ex.pc)))
def h_flow(ns):
    """update_register_flow on a block of any length with ns successors"""
    def h(ex):
        ex.ghost["psets"] = True; e = ex.eng
        n = ex.fresh("n"); ex.assume(z3.And(n > 0, n < 2**30))
        LV = z3.Function("LIVE", I, I, z3.BoolSort())   # LIVE(i, r): r live before line i of the block
        ins = [z3.Const(f"in{k}", AB) for k in range(ns)]
        blocks = {}
        def bat(ex, i):
            i = zi(i); k = z3.simplify(i)
            if k.sexpr() not in blocks: raise Structural("a block that is not a successor is read")
            return blocks[k.sexpr()]
        sids = [z3.IntVal(10 + k) for k in range(ns)]
        for k in range(ns):
            blocks[sids[k].sexpr()] = rec(ex, "BasicBlock", immcs=NULL, input=e.pset(ex, ins[k]), output=NULL, succ=NULL)
        b = ex.heap.new(None); ex.heap.objs[b].tag = ["set", list(sids), None]; succ = P(b, 0)
        in0, out0 = z3.Const("in_old", AB), z3.Const("out_old", AB)
        seen = []
        def at(ex, i):
            i = zi(i); ex.oblige("lines are read within the block", z3.And(i >= 0, i < n), "pre")
            for j, x in seen:
                if j.eq(z3.simplify(i)): return x[0]
            x = item(ex); seen.append((z3.simplify(i), x)); return x[0]
        cur = rec(ex, "BasicBlock", immcs=symvec(ex, n, at), input=e.pset(ex, in0), output=e.pset(ex, out0), succ=succ)
        OUT = lambda r: z3.Or(*[z3.Select(f, r) for f in ins]) if ins else z3.BoolVal(False)
        def psets():
            return [(b, o) for b, o in ex.heap.objs.items() if o.alive and isinstance(o.tag, list) and o.tag[0] == "pset"]
        st0 = {}
        def work():
            """the set that becomes the block's input: the variable named input, or the set touched last"""
            p = c_[0].L["input"]; return ex.heap.objs[p.b].tag
        c_ = [None]
        def inv(c):
            c_[0] = c; i = c.i("index"); t = work()[1]
            return [("position", z3.And(i >= -1, i < n)), ("the set holds the values live before the lines processed", q(lambda r: z3.Select(t, r) == LV(i + 1, r)))]
        def havoc(c): c_[0] = c; work()[1] = ex.fresh("in", AB); del seen[:]; ex.ghost["i0"] = None
        def dec(c):
            if ex.ghost.get("i0") is None: ex.ghost["i0"] = c.i("index")
            return c.i("index") + 1
        def step(c):
            i = ex.ghost["i0"]
            ex.oblige("each line is processed once", len(seen) == 1 and z3.simplify(seen[0][0] == i), "post")
            p, uses, d, ks = seen[0][1]
            # definition of liveness for this line
            ex.assume(q(lambda r: LV(i, r) == z3.Or(*[r == u for u in uses], z3.And(LV(i + 1, r), r != d) if d is not None else LV(i + 1, r))))
        ex.assume(q(lambda r: LV(n, r) == OUT(r)))
        order_ = ex.eng.loop_order("update_register_flow")
        if len(order_) != 2: raise Structural("update_register_flow: two loops expected")
        ex.loop_map = {order_[1]: 0}; ex.eng.loopspecs = {0: dict(inv=inv, havoc=havoc, dec=dec, step=step)}
        graph = symvec(ex, ex.fresh("nb"), bat)
        c = ex.tobool(ex.call(FnVal("update_register_flow"), [graph, cur], None))
        o = ex.heap.objs[cur.b].fields
        I2, O2 = (ex.obj(o[f].b, f).tag[1] for f in ("input", "output"))
        ex.oblige("live at the block's end: whatever a successor needs", q(lambda r: z3.Select(O2, r) == OUT(r)), "post")
        ex.oblige("live at the block's start: the liveness equations of its lines", q(lambda r: z3.Select(I2, r) == LV(0, r)), "post")
        c = c if isz(c) else z3.BoolVal(c)
        ex.oblige("converged is reported only when nothing changed", z3.Implies(c, z3.And(I2 == in0, O2 == out0)), "post")
        ex.oblige("a block that did not change is reported converged", z3.Implies(z3.And(I2 == in0, O2 == out0), c), "post")
        for k in range(ns): ex.oblige("successors are not changed", ex.obj(ex.heap.objs[blocks[sids[k].sexpr()].b].fields["input"].b, "set").tag[1].eq(ins[k]), "post")
        ex.eng.reach.append(("flow", list(ex.pc)))
    return h
def h_fix(nb):
    """analyze_register_flow stops only after a pass over all blocks in which none changed"""
    def h(ex):
        e = ex.eng; log = []
        bl = [opaque(ex, "block", k) for k in range(nb)]
        def upd(ex, a):
            r = 1 - ex.choose(2); log.append((opq(ex, a[1]), r)); return r
        e.overrides["update_register_flow"] = upd
        order_ = ex.eng.loop_order("analyze_register_flow")
        if len(order_) != 2: raise Structural("two loops expected")
        t = []
        def havoc(c): del log[:]
        ex.loop_map = {order_[0]: 0}
        ex.eng.loopspecs = {0: dict(inv=lambda c: [("stopping means the last pass changed nothing", z3.Implies(c.i("terminated") != 0, z3.BoolVal(sorted(b for b, r in log) == list(range(nb)) and all(r for b, r in log)) if not ex.ghost.get("hv") else ex.ghost["DONE"]))],
                                    havoc=lambda c: (havoc(c), ex.ghost.__setitem__("hv", 1), ex.ghost.__setitem__("DONE", z3.Bool("DONE"))),
                                    step=lambda c: ex.ghost.__setitem__("DONE", z3.BoolVal(sorted(b for b, r in log) == list(range(nb)) and all(r for b, r in log))))}
        g = absx.new_vec(ex, bl)
        p = ex.call(FnVal("analyze_register_flow"), [g], None)
        ex.oblige("the iteration stops only when a whole pass changed nothing", ex.ghost["DONE"], "post")
        ex.oblige("the graph is returned", p.b == g.b, "post")
        ex.eng.reach.append(("fix", list(ex.pc)))
    return h
def h_ranges(ex):
    """update_register_liveness over a block of any length: definitions open a range, uses and live-out extend it"""
    e = ex.eng; n, off, M0 = ex.fresh("n"), ex.fresh("off"), ex.fresh("M")
    ex.assume(z3.And(n > 0, n < 2**29, off >= 0, off < 2**29, M0 >= 0, M0 < 2**29))
    seen = []; touched = []; fills = []
    vec = symvec(ex, M0, None); V = ex.heap.objs[vec.b]
    def lat(ex, i):
        i = zi(i); M = zi(V.tag[1])
        ex.assume(z3.And(i >= 0, i < M))      # used registers are defined earlier
        for j, p in touched:
            if ex.branch(j == i): return p
        p = rec(ex, "Liveness", first_def_index=ex.fresh("f"), last_use_index=ex.fresh("l")); touched.append((i, p)); ex.ghost.setdefault("init", {})[p.b] = dict(ex.heap.objs[p.b].fields); return p
    V.tag[2] = lat
    def fill(ex, a):
        if a[0].b != vec.b: return NotImplemented
        m = zi(a[1]); p = a[2]; f = ex.obj(p.b, "range").fields
        fills.append((m, f["first_def_index"], f["last_use_index"], zi(V.tag[1])))
        V.tag[1] = z3.If(m > zi(V.tag[1]), m, zi(V.tag[1]))
    ex.ghost["fill"] = fill
    def at(ex, i):
        i = zi(i); ex.oblige("lines are read within the block", z3.And(i >= 0, i < n), "pre")
        for j, x in seen:
            if j.eq(z3.simplify(i)): return x[0]
        x = item(ex); seen.append((z3.simplify(i), x)); return x[0]
    outs = [ex.fresh("lo") for _ in range(ex.choose(3))]
    if len(outs) == 2: ex.assume(outs[0] != outs[1])
    b = ex.heap.new(None); ex.heap.objs[b].tag = ["set", outs, None]
    blk = rec(ex, "BasicBlock", immcs=symvec(ex, n, at), input=NULL, output=P(b, 0), succ=NULL)
    ra = rec(ex, "RegAlloc", immcs=NULL, immc_offset=off, num_real_regs=ex.fresh("k"))
    def inv(c): return [("position", z3.And(c.i("index") >= 0, c.i("index") <= n))]
    def havoc(c): del seen[:], touched[:], fills[:]; V.tag[1] = ex.fresh("M"); ex.assume(z3.And(V.tag[1] >= 0, V.tag[1] < 2**29)); ex.ghost["i0"] = None; ex.ghost["init"] = {}
    def dec(c):
        if ex.ghost.get("i0") is None: ex.ghost["i0"] = c.i("index")
        return n - c.i("index")
    def final(uses, pos):
        for j, p in touched:
            f = ex.heap.objs[p.b].fields; f0 = ex.ghost["init"][p.b]
            used = z3.Or(*[j == u for u in uses]) if uses else z3.BoolVal(False)
            ex.oblige("a use extends the range to its line, nothing else changes a range", z3.And(ex.ieq(f["last_use_index"], z3.If(used, pos, f0["last_use_index"])), ex.ieq(f["first_def_index"], f0["first_def_index"])), "post")
        for u in uses: ex.oblige("every value used is recorded", z3.Or(*[j == u for j, p in touched]) if touched else z3.BoolVal(False), "post")
    def step(c):
        i = ex.ghost["i0"]
        ex.oblige("each line is processed once", len(seen) == 1 and z3.simplify(seen[0][0] == i), "post")
        p, uses, d, ks = seen[0][1]; pos = off + i
        final(uses, pos)
        if d is None: ex.oblige("only a definition opens a range", not fills, "post")
        else:
            ex.oblige("a definition opens a range", len(fills) == 1, "post")
            m, f, l, M = fills[0]
            ex.oblige("the range opened starts at the definition and is empty until a use", z3.And(m == d + 1, ex.ieq(f, pos), ex.ieq(l, pos)), "post")
    def atexit_(c): del touched[:]; ex.ghost["init"] = {}; ex.ghost["after"] = 1
    order_ = ex.eng.loop_order("update_register_liveness")
    if len(order_) != 2: raise Structural("update_register_liveness: two loops expected")
    ex.loop_map = {order_[0]: 0}; ex.eng.loopspecs = {0: dict(inv=inv, havoc=havoc, dec=dec, step=step, exit=atexit_)}
    ex.call(FnVal("update_register_liveness"), [ra, vec, blk], None)
    final(outs, off + n)
    ex.oblige("values live at the end open no range", not fills, "post")
    ex.oblige("the allocator's position is kept", ex.ieq(ex.heap.objs[ra.b].fields["immc_offset"], off), "post")
    ex.eng.reach.append(("ranges", list(ex.pc)))
def h_allranges(nb):
    """analyze_register_liveness: every block in order, each at the position of its first line"""
    def h(ex):
        e = ex.eng; log = []; off = ex.fresh("off"); ex.assume(z3.And(off >= 0, off < 2**28))
        lens = [ex.fresh("len") for _ in range(nb)]
        for l in lens: ex.assume(z3.And(l > 0, l < 2**20))
        bl = [rec(ex, "BasicBlock", immcs=symvec(ex, lens[k], None), input=NULL, output=NULL, succ=NULL) for k in range(nb)]
        def upd(ex, a): log.append((a[0], a[1], a[2].b, ex.heap.objs[a[0].b].fields["immc_offset"]))
        e.overrides["update_register_liveness"] = upd
        ra = rec(ex, "RegAlloc", immcs=NULL, immc_offset=off, num_real_regs=ex.fresh("k"))
        p = ex.call(FnVal("analyze_register_liveness"), [ra, absx.new_vec(ex, bl)], None)
        ex.oblige("every block once, in order", [b for _, _, b, _ in log] == [b.b for b in bl], "post")
        pos = off
        for k, (_, v, _, o) in enumerate(log):
            ex.oblige("each block at the position of its first line", ex.ieq(o, pos), "post"); pos = pos + lens[k]
            ex.oblige("all blocks extend the same ranges", v.b == p.b, "post")
        ex.oblige("the allocator's position is kept", ex.ieq(ex.heap.objs[ra.b].fields["immc_offset"], off), "post")
        ex.eng.reach.append(("all", list(ex.pc)))
    return h
def h_seqs(ex):
    """update_liveseqs: every value's range goes to the sequence of its register, in order"""
    e = ex.eng; n, K = ex.fresh("n"), ex.fresh("K"); A = z3.Const("A", AI)
    ex.assume(z3.And(n >= 0, n < 2**30, K > 0, K < 2**30))
    ex.assume(q(lambda u: z3.Implies(z3.And(0 <= u, u < n), z3.And(z3.Select(A, u) >= 0, z3.Select(A, u) < K))))
    pushed = []
    def sat(ex, i):
        i = zi(i); ex.oblige("only sequences of offered registers are used", z3.And(i >= 0, i < K), "pre")
        b = ex.heap.new(None); ex.heap.objs[b].tag = ["outvec", pushed_to(i), 0]
        return rec(ex, "Liveseq", livenesses=P(b, 0), liveness_index=-1, index=0)
    class Sink(list):
        def __init__(s, i): s.i = i
        def append(s, x): pushed.append((s.i, x))
    def pushed_to(i): return Sink(i)
    def inv(c): return [("position", z3.And(c.i("virtual_reg_id") >= 0, c.i("virtual_reg_id") <= n))]
    def havoc(c): del pushed[:]; ex.ghost["i0"] = None
    def dec(c):
        if ex.ghost.get("i0") is None: ex.ghost["i0"] = c.i("virtual_reg_id")
        return n - c.i("virtual_reg_id")
    lv = livevec(ex, n)
    def step(c):
        v = ex.ghost["i0"]
        ex.oblige("one range is recorded per value", len(pushed) == 1, "post")
        i, x = pushed[0]; f = ex.obj(x.b, "range").fields
        ex.oblige("a value's range goes to the sequence of its register", i == z3.Select(A, v), "post")
        ex.oblige("the range recorded is the value's range", z3.And(ex.ieq(f["first_def_index"], FIRST(v)), ex.ieq(f["last_use_index"], LAST(v))), "post")
    loops(ex, "update_liveseqs", [dict(inv=inv, havoc=havoc, dec=dec, step=step)])
    ex.call(FnVal("update_liveseqs"), [symvec(ex, K, sat), lv, symarr(ex, n, A)], None)
    ex.eng.reach.append(("seqs", list(ex.pc)))
# ---------------------------------------------------------------- blocks (bounded)
JUMPS = ["JMP", "JEQ", "JNEQ", "JGT", "JGEQ", "JLT", "JLEQ"]
def line(ex, k, lab):
    E = ex.tu.enums
    if k[0] == "L": return rec(ex, "Immc", type=E["IMMC_LABEL"], inst=NULL, data=NULL, label=rec(ex, "ImmcLabel", type=E["IMMC_LABEL_NORMAL"], visibility=E["IMMC_VIS_NONE"], name=st(ex, k[1])))
    if k[0] == "J":
        d = rec(ex, "ImmcOpe", type=E["IMMC_OPERAND_LABEL"], suffix=0, reg=NULL, mem_offset=0, label_name=st(ex, k[2]), iliteral=NULL, sliteral=NULL)
        return rec(ex, "Immc", type=E["IMMC_INST"], inst=rec(ex, "ImmcInst", type=E["IMMC_INST_" + k[1]], dst=d, fst_src=NULL, snd_src=NULL), data=NULL, label=NULL)
    return rec(ex, "Immc", type=E["IMMC_INST"], inst=rec(ex, "ImmcInst", type=E["IMMC_INST_" + k[1]], dst=NULL, fst_src=NULL, snd_src=NULL), data=NULL, label=NULL)
def key_of(ex, p):
    o = ex.obj(p.b, "line").fields; E = ex.tu.enums
    if o["type"] == E["IMMC_LABEL"]: return ("L", strid(ex, ex.heap.objs[o["label"].b].fields["name"]))
    i = ex.heap.objs[o["inst"].b].fields
    nm = next(n[10:] for n, v in E.items() if n.startswith("IMMC_INST_") and v == i["type"])
    return ("J", nm, strid(ex, ex.heap.objs[i["dst"].b].fields["label_name"])) if nm in JUMPS else ("I", nm)
def expect_blocks(seq):
    out = []; cur = []
    for k in seq:
        if k[0] == "L":
            if cur: out.append(cur)
            cur = [k]
        else:
            cur.append(k)
            if k[0] == "J": out.append(cur); cur = []
    if cur: out.append(cur)
    return out
def h_blocks(n):
    """every sequence of n lines: blocks are the maximal runs, labels start and jumps end them, successors are where control can go"""
    def h(ex):
        seq = [("L", "f")]; labs = ["f"]
        kinds = []
        for i in range(n):
            k = ex.choose(4)
            if k == 0: seq.append(("L", f"l{i}")); labs.append(f"l{i}")
            elif k == 1: seq.append(("J", "JMP", None))
            elif k == 2: seq.append(("J", JUMPS[1 + i % 6] if n < 3 else JUMPS[1 + (i * 5 + n + len(labs)) % 6], None))
            else: seq.append(("I", ["ADD", "LOAD", "CALL", "LEAVE", "SETEQ"][i % 5]))
        seq.append(("I", "LEAVE"))     # a function ends with LEAVE
        for i, k in enumerate(seq):
            if k[0] == "J": seq[i] = ("J", k[1], labs[(i * 3 + n) % len(labs)])
        check_blocks(ex, seq)
    return h
def check_blocks(ex, seq):
    lines = [line(ex, k, None) for k in seq]
    v = absx.new_vec(ex, lines, G(ex, "t_immc"))
    bs = ex.call(FnVal("create_basic_blocks"), [v], None)
    def content():
        return [[key_of(ex, x) for x in absx.vec(ex, ex.heap.objs[b.b].fields["immcs"])[1]] for b in absx.vec(ex, bs)[1]]
    want = expect_blocks(seq)
    ex.ghost["case"] = str(seq)
    ex.oblige("the blocks are the code cut before labels and after jumps", content() == want, "post")
    ex.oblige("the code given is not changed", [key_of(ex, x) for x in absx.vec(ex, v)[1]] == seq, "post")
    g = ex.call(FnVal("connect_basic_blocks"), [bs], None)
    gb = absx.vec(ex, g)[1]
    ex.oblige("linking keeps the blocks", content() == want and g.b == bs.b, "post")
    lab = {b[0][1]: i for i, b in enumerate(want) if b[0][0] == "L"}
    for i, b in enumerate(want):
        s = set(); t = b[-1]
        if t[0] == "J": s.add(lab[t[2]])
        if not (t[0] == "J" and t[1] == "JMP") and i + 1 < len(want): s.add(i + 1)
        got = ex.obj(ex.heap.objs[gb[i].b].fields["succ"].b, "set").tag[1]
        ex.oblige("a block's successors are exactly where control can go next", all(isinstance(x, int) for x in got) and set(got) == s and len(got) == len(s), "post")
def h_jumps(ex):
    """every jump instruction ends a block and links to its target"""
    for j in JUMPS: check_blocks(ex, [("L", "f"), ("I", "ADD"), ("J", j, "x"), ("I", "SUB"), ("L", "x"), ("J", j, "f"), ("I", "LEAVE")])
    E = ex.tu.enums
    for nm, v in sorted(E.items()):
        if nm.startswith("IMMC_INST_"):
            p = rec(ex, "Immc", type=E["IMMC_INST"], inst=rec(ex, "ImmcInst", type=v, dst=NULL, fst_src=NULL, snd_src=NULL), data=NULL, label=NULL)
            r = ex.call(FnVal("immc_isjumpinst"), [p], None)
            ex.oblige(f"{nm[10:]} is a jump exactly if it can transfer control to a label", ex.tobool(r) == (nm[10:] in JUMPS) if isinstance(ex.tobool(r), bool) else False, "post")
def h_deq(ex):
    """dequeue_external_immcs: a function or variable with everything up to the next one"""
    E = ex.tu.enums; e = ex.eng
    n = 1 + ex.choose(5); off = ex.choose(2)
    ks = [("FUNCTION", "VARIABLE")[ex.choose(2)] if i == 0 else ("FUNCTION", "VARIABLE", "NORMAL", "inst", "data")[ex.choose(5)] for i in range(n)]
    def mkl(k):
        if k == "inst": return rec(ex, "Immc", type=E["IMMC_INST"], inst=opaque(ex, "immcinst", "i"), data=NULL, label=NULL)
        if k == "data": return rec(ex, "Immc", type=E["IMMC_DATA"], inst=NULL, data=opaque(ex, "immcdata", "d"), label=NULL)
        return rec(ex, "Immc", type=E["IMMC_LABEL"], inst=NULL, data=NULL, label=rec(ex, "ImmcLabel", type=E["IMMC_LABEL_" + k], visibility=0, name=st(ex, "n")))
    items = [mkl("data") for _ in range(off)] + [mkl(k) for k in ks]
    src = {}
    def cp(ex, a):
        p = opaque(ex, "immc", a[0].b); return p
    e.overrides["immc_copy"] = cp
    ra = rec(ex, "RegAlloc", immcs=absx.new_vec(ex, items, G(ex, "t_immc")), immc_offset=off, num_real_regs=8)
    p = ex.call(FnVal("dequeue_external_immcs"), [ra], None)
    m = next((i for i in range(1, n) if ks[i] in ("FUNCTION", "VARIABLE")), n)
    ex.oblige("a function or variable is taken with everything up to the next one", [opq(ex, x) for x in absx.vec(ex, p)[1]] == [x.b for x in items[off:off + m]], "post")
    ex.eng.reach.append(("deq", list(ex.pc)))
def h_top(ex):
    """regalloc_allocate_regs: functions are allocated one by one, variables pass through, positions count every line once"""
    e = ex.eng; E = ex.tu.enums; log = []
    ext = [(("FUNCTION", "VARIABLE")[ex.choose(2)], 1 + ex.choose(2)) for _ in range(ex.choose(4))]
    K = ex.fresh("K"); ex.assume(z3.And(K > 0, K < 9)); K = 3
    items = []; parts = []
    for k, (t, m) in enumerate(ext):
        g = [rec(ex, "Immc", type=E["IMMC_LABEL"], inst=NULL, data=NULL, label=rec(ex, "ImmcLabel", type=E["IMMC_LABEL_" + t], visibility=0, name=st(ex, f"e{k}")))] + [opaque(ex, "immc", (k, j)) for j in range(m)]
        items += g; parts.append(g)
    pos = [0]
    for g in parts: pos.append(pos[-1] + len(g))
    ra = rec(ex, "RegAlloc", immcs=absx.new_vec(ex, items, G(ex, "t_immc")), immc_offset=0, num_real_regs=K)
    def where(): 
        o = ex.heap.objs[ra.b].fields["immc_offset"]
        return pos.index(o) if o in pos[:-1] else None
    def deq(ex, a):
        k = where(); ex.oblige("each function or variable is taken at its position", k is not None, "post"); log.append(("deq", k))
        return absx.new_vec(ex, [parts[k][0]] + [opaque(ex, "immc", (k, j)) for j in range(ext[k][1])], None)
    def cfg(ex, a): log.append(("cfg", where())); return absx.new_vec(ex, [opaque(ex, "immc", ("cfg", where()))], None)
    def ana(ex, a): log.append(("live", where(), opq(ex, absx.vec(ex, a[1])[1][0])[1])); return absx.new_vec(ex, [opaque(ex, "immc", ("lv", where()))], None)
    def det(ex, a): log.append(("det", where(), opq(ex, absx.vec(ex, a[0])[1][0])[1], a[1])); return absx.new_vec(ex, [opaque(ex, "immc", ("al", where()))], None)
    def gen(ex, a): log.append(("gen", opq(ex, absx.vec(ex, a[1])[1][0])[1])); return absx.new_vec(ex, [opaque(ex, "immc", ("new", where(), j)) for j in range(len(absx.vec(ex, a[0])[1]))], None)
    def upd(ex, a):
        log.append(("upd", opq(ex, absx.vec(ex, a[1])[1][0])[1], opq(ex, absx.vec(ex, a[2])[1][0])[1], len(absx.vec(ex, a[0])[1])))
    def dele(ex, t, x): pass
    e.overrides.update({"dequeue_external_immcs": deq, "create_control_flow_graph": cfg, "analyze_register_liveness": ana, "determine_allocation": det, "gen_allocated_immcs": gen, "update_liveseqs": upd, "@delete": dele})
    r = ex.call(FnVal("regalloc_allocate_regs"), [ra], None)
    o = ex.obj(r.b, "result").fields
    want = []
    for k, (t, m) in enumerate(ext):
        if t == "VARIABLE": want += [("v", k)] + [(k, j) for j in range(m)]
        else: want += [("new", k, j) for j in range(m + 1)]
    got = []
    for x in absx.vec(ex, o["immcs"])[1]: got.append(opq(ex, x) if isopq(ex, x) else ("v", [g[0].b for g in parts].index(x.b)))
    ex.oblige("the result is every variable as it was and every function rewritten, in order", got == want, "post")
    ex.oblige("one live-range sequence per register", len(absx.vec(ex, o["liveseqs"])[1]) == 3, "post")
    fs = [k for k, (t, m) in enumerate(ext) if t == "FUNCTION"]
    ex.oblige("every function is analysed at its own position with its own graph and ranges", [l for l in log if l[0] == "live"] == [("live", k, k) for k in fs] and [l for l in log if l[0] == "det"] == [("det", k, k, 3) for k in fs]
              and [l for l in log if l[0] == "gen"] == [("gen", k) for k in fs] and [l for l in log if l[0] == "upd"] == [("upd", k, k, 3) for k in fs], "post")
    ex.eng.reach.append(("top", list(ex.pc)))
def mkb():
    e = mk(); e.batch = True; return e
def prove(ctx):
    import C19
    tu()
    u = [("free_unused_register", mk, h_free), ("allocate_real_register", mk, h_take), ("determine_allocation", mk, h_scan), ("gen_allocated_immcs", mkb, h_rewrite)]
    u += [(f"update_register_flow, {n} successors", mk, h_flow(n)) for n in (0, 1, 2)] + [(f"analyze_register_flow, {n} blocks", mkb, h_fix(n)) for n in (1, 2, 3)]
    u += [("update_register_liveness", mkb, h_ranges)] + [(f"analyze_register_liveness, {n} blocks", mkb, h_allranges(n)) for n in (0, 1, 2, 3)] + [("update_liveseqs", mk, h_seqs)]
    u += [(f"blocks of every sequence of {n} lines (bounded)", mkb, h_blocks(n)) for n in ((1, 2, 3, 4) if runner.TIER == "quick" else (1, 2, 3, 4, 5))] + [("jump instructions and blocks", mkb, h_jumps), ("dequeue_external_immcs (bounded)", mkb, h_deq), ("regalloc_allocate_regs (bounded)", mkb, h_top)]
    ctx.prove_all([(n, (lambda c, n=n, m=m, h=h: c.prove_harness(n, m, h))) for n, m, h in u])
    ctx.bounded.append({"what": "create_basic_blocks, connect_basic_blocks on every sequence of up to 4 (thorough: 5) lines after the function label; dequeue_external_immcs on up to 5 lines; regalloc_allocate_regs on up to 3 functions or variables", "label": "bounded"})

# ---------------------------------------------------------------- the real allocator on generated code
def native(ctx, rounds, seed):
    exe = ctx.cc("regalloc_drv", [os.path.join(runner.ROOT, "native", "regalloc_drv.c"), ctx.repo_lib()])
    rc, out, err = ctx.run([exe, str(seed), str(rounds)], 400)
    if rc == 0: return None
    return f"register allocation of generated code (native/regalloc_drv.c, seed {seed}):\n{out[-6000:]}\n{err[-1500:]}\nexit {rc}"
def search(ctx, failed, struct): return native(ctx, 3000, runner.SEED)
def standin(ctx):
    n = 400 if runner.TIER == "quick" else 10000
    m = native(ctx, n, runner.SEED)
    ctx.bounded.append({"what": "generated functions with branches and loops through the real allocator; registers, ranges and every line compared with liveness computed line by line", "cases": n, "label": "bounded"})
    return m

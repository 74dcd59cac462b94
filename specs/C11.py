"""C11: live-range bookkeeping reports exactly the ranges covering a position."""
import z3, os
import absx, runner
from objs import *
import objs, x64spec as X
META = dict(technique="contract-based deductive verification (CVV: VCs from the clang AST of /repo, z3/cvc5); cursor invariant over a range list of any length",
            level_note="list length, ranges and position symbolic and unbounded; each step keeps the cursor invariant, from which the answer at every position follows")
TRUSTED = ["clang 18 front end (AST of /repo) and the CVV symbolic executor", "z3 / cvc5", "list and set contracts of C01/C02 at calls of vector_* and set_*"]
ASSUMPTIONS = ["ranges are recorded in order of definition, do not overlap and start at different positions (what C10's allocation produces)", "positions stay below 2^31-1"]
FILES = ["src/liveseq/liveseq.c", "src/liveseq/liveness.c", "src/common/type.c"]
_tu = None
def tu():
    global _tu
    if _tu is None: _tu = TU(FILES)
    return _tu
I = z3.IntSort()
F, L = z3.Function("F", I, I), z3.Function("L", I, I)
def mk():
    e = Engine(tu(), mode="int", heap="conc"); objs.install(e); e.batch = True; e.unroll = 0
    v_at, v_size = e.overrides["vector_at"], e.overrides["vector_size"]
    def sv(ex, p):
        o = ex.obj(p.b, "list"); return o.tag if isinstance(o.tag, list) and o.tag[0] == "symvec" else None
    def size(ex, a):
        s = sv(ex, a[0]); return v_size(ex, a) if s is None else s[1]
    def at(ex, a):
        s = sv(ex, a[0]); return v_at(ex, a) if s is None else s[2](ex, a[1])
    e.overrides["vector_at"] = at; e.overrides["vector_size"] = size
    return e
def world(ex):
    """a list of N ranges and a cursor in any state the invariant allows"""
    N, idx, li = ex.fresh("N"), ex.fresh("idx"), ex.fresh("li")
    ex.ghost["pts"] = []
    ex.assume(z3.And(N >= 0, N < 2**30, idx >= 0, idx < 2**31 - 2, li >= -1, li <= N))
    ex.ghost["N"] = N
    for k in (z3.IntVal(0), li, li + 1, N - 1): point(ex, k)
    made = {}
    def at(ex, i):
        i = i if isz(i) else z3.IntVal(i)
        if not ex.branch(z3.And(i >= 0, i < N)): return NULL
        point(ex, i)
        k = z3.simplify(i).sexpr()
        if k not in made: made[k] = rec(ex, "Liveness", first_def_index=F(i), last_use_index=L(i))
        return made[k]
    b = ex.heap.new(None); ex.heap.objs[b].tag = ["symvec", N, at]
    p = rec(ex, "Liveseq", livenesses=P(b, 0), liveness_index=li, index=idx)
    ex.assume(inv(N, idx, li))
    return p, N, idx, li, made
def point(ex, k):
    """instances of the list's order for position k against every position mentioned so far"""
    N = ex.ghost["N"]; ok = lambda i: z3.And(i >= 0, i < N)
    ex.assume(z3.Implies(ok(k), z3.And(F(k) >= 0, F(k) <= L(k), L(k) < 2**31 - 1)))
    for j in ex.ghost["pts"]:
        for x, y in ((j, k), (k, j)): ex.assume(z3.Implies(z3.And(ok(x), ok(y), x < y), z3.And(F(x) < F(y), L(x) <= F(y))))
    ex.ghost["pts"].append(k)
def inv(N, idx, li):
    return z3.And(li >= -1, li <= N,
                  z3.Implies(z3.And(li == -1, N > 0), z3.Or(idx == 0, idx < F(0))),
                  z3.Implies(z3.And(li >= 0, li < N), z3.And(F(li) <= idx, z3.Or(li == N - 1, idx < F(li + 1)))),
                  z3.Implies(z3.And(li >= 0, li == N), z3.And(N > 0, idx >= L(N - 1))))
def h_alive(ex):
    p, N, idx, li, made = world(ex)
    any_ = ex.fresh("any"); point(ex, any_)
    r = ex.tobool(ex.call(FnVal("liveseq_isalive"), [p], None))
    o = ex.obj(p.b, "sequence").fields
    cov = lambda i: z3.And(i >= 0, i < N, F(i) <= idx, idx < L(i))
    r = r if isz(r) else z3.BoolVal(bool(r))
    ex.oblige("reported occupied only where a range covers the position", z3.Implies(r, z3.Or(cov(li), cov(z3.IntVal(0)))), "post")
    ex.oblige("reported free only where no range covers the position", z3.Implies(z3.Not(r), z3.Not(cov(any_))), "post")
    ex.oblige("asking changes nothing", z3.And(ex.ieq(o["index"], idx), ex.ieq(o["liveness_index"], li)), "post")
    for m in made.values(): same_range(ex, m)
    ex.eng.reach.append(("alive", list(ex.pc)))
def same_range(ex, m):
    f = ex.heap.objs[m.b].fields
    fd, lu = f["first_def_index"], f["last_use_index"]
    ok = isz(fd) and isz(lu) and fd.num_args() == 1 and lu.num_args() == 1 and fd.decl().eq(F) and lu.decl().eq(L) and fd.arg(0).eq(lu.arg(0))
    ex.oblige("the ranges are not changed", ok, "post")
def h_next(ex):
    p, N, idx, li, made = world(ex)
    ex.call(FnVal("liveseq_goto_next"), [p], None)
    o = ex.obj(p.b, "sequence").fields
    i2, l2 = o["index"], o["liveness_index"]
    l2 = l2 if isz(l2) else z3.IntVal(l2)
    point(ex, l2); point(ex, l2 + 1)
    ex.oblige("the position advances by one", ex.ieq(i2, idx + 1), "post")
    ex.oblige("the cursor stays at the range of its position", inv(N, idx + 1, l2), "post")
    for m in made.values(): same_range(ex, m)
    ex.eng.reach.append(("next", list(ex.pc)))
def h_new(ex):
    p = ex.call(FnVal("new_liveseq"), [], None)
    o = ex.obj(p.b, "sequence").fields
    N = ex.fresh("N"); ex.ghost["N"] = N; ex.ghost["pts"] = []; ex.assume(z3.And(N >= 0, N < 2**30)); point(ex, z3.IntVal(0))
    z = lambda v: v if isz(v) else z3.IntVal(v)
    ex.oblige("a new sequence has no range", absx.vec(ex, o["livenesses"])[1] == [], "post")
    ex.oblige("a new sequence starts at position 0", ex.ieq(o["index"], 0), "post")
    ex.oblige("the cursor of a new sequence fits every list of ranges added to it", inv(N, z(o["index"]), z(o["liveness_index"])), "post")
    k = ex.fresh("k"); q = ex.call(FnVal("new_liveness"), [k], None); g = ex.obj(q.b, "range").fields
    ex.oblige("a new range is empty at its definition", z3.And(ex.ieq(g["first_def_index"], k), ex.ieq(g["last_use_index"], k)), "post")
    a, b = ex.fresh("a"), ex.fresh("b")
    s = rec(ex, "Liveness", first_def_index=a, last_use_index=b); c = ex.call(FnVal("liveness_copy"), [s], None); g = ex.obj(c.b, "range").fields
    ex.oblige("a copied range is the same range", z3.And(ex.ieq(g["first_def_index"], a), ex.ieq(g["last_use_index"], b)), "post")
    ex.eng.reach.append(("new", list(ex.pc)))
def h_copy(n):
    def h(ex):
        ms = [rec(ex, "Liveness", first_def_index=ex.fresh("f"), last_use_index=ex.fresh("l")) for _ in range(n)]
        idx, li = ex.fresh("idx"), ex.fresh("li")
        p = rec(ex, "Liveseq", livenesses=absx.new_vec(ex, ms, G(ex, "t_liveness")), liveness_index=li, index=idx)
        q = ex.call(FnVal("liveseq_copy"), [p], None); o = ex.obj(q.b, "sequence").fields
        cs = absx.vec(ex, o["livenesses"])[1]
        ex.oblige("a copied sequence is at the same position", z3.And(ex.ieq(o["index"], idx), ex.ieq(o["liveness_index"], li)), "post")
        ex.oblige("a copied sequence has as many ranges of its own", len(cs) == n and not {c.b for c in cs} & {m.b for m in ms} and q.b != p.b, "post")
        for c, m in zip(cs, ms):
            for f in ("first_def_index", "last_use_index"): ex.oblige("a copied sequence has the same ranges", ex.ieq(ex.heap.objs[c.b].fields[f], ex.heap.objs[m.b].fields[f]), "post")
        ex.eng.reach.append(("copy", list(ex.pc)))
    return h
def h_nextall(n):
    """liveseqs_next steps every sequence exactly once"""
    def h(ex):
        lvs = []
        for i in range(n):
            b = ex.heap.new(None); ex.heap.objs[b].tag = ["live", i, 0]; lvs.append(P(b, 0))
        ex.inline("liveseqs_next", [absx.new_vec(ex, lvs)])
        for p in lvs: ex.oblige("every sequence is stepped exactly once", ex.heap.objs[p.b].tag[2] == 1, "post")
        ex.oblige("no sequence left out", True, "post")
    return h
def h_item(kind):
    """labels and data lines advance the position by one like instructions do (instructions: C12 to C15)"""
    def h(ex):
        w = X.World(ex); en = w.en; w.case["inst"] = kind
        if kind == "LABEL":
            t = ("FUNCTION", "VARIABLE", "NORMAL")[ex.choose(3)]; v = ("GLOBAL", "LOCAL", "NONE")[ex.choose(3)]
            im = w.call("new_label_immc", en["IMMC_LABEL_" + t], en["IMMC_VIS_" + v], absx.new_str(ex, "l"))
            w.genimmc([im], entry="gen_label_x64code")
        else:
            t = ("BYTE", "WORD", "LONG", "QUAD", "ZERO")[ex.choose(5)]
            im = w.call("new_int_data_immc", en["IMMC_DATA_" + t], w.call("new_signed_iliteral", en["INTEGER_INT"], z3.BitVec("v", 64)))
            w.genimmc([im], entry="gen_data_x64code")
        ex.oblige("one line is emitted", len(w.codes) == 1, "post")
    return h
def prove(ctx):
    tu(); X.tu()
    u = [("liveseq_isalive", mk, h_alive), ("liveseq_goto_next", mk, h_next), ("new_liveseq, new_liveness, liveness_copy", mk, h_new)]
    u += [(f"liveseq_copy, {n} ranges", mk, h_copy(n)) for n in (0, 1, 2, 3)]
    u += [(f"liveseqs_next over {n} sequences", X.mk, h_nextall(n)) for n in (1, 8)]
    u += [(f, (lambda: X.mk(alive_contract=False)), X.h_alive(f)) for f in ("create_alive_regs_set", "create_alive_reg_induces_set")]
    u += [("label line advances the position", X.mk, h_item("LABEL")), ("data line advances the position", X.mk, h_item("DATA"))]
    ctx.prove_all([(n, (lambda c, n=n, m=m, h=h: c.prove_harness(n, m, h))) for n, m, h in u])

# ---------------------------------------------------------------- on the real code
def native(ctx, rounds, seed):
    exe = ctx.cc("liveseq_drv", [os.path.join(runner.ROOT, "native", "liveseq_drv.c"), ctx.repo_lib()])
    rc, out, err = ctx.run([exe, str(seed), str(rounds)], 300)
    if rc == 0: return None
    return f"liveseq on a list of ranges (native/liveseq_drv.c, seed {seed}):\n{out[-1500:]}\n{err[-1500:]}\nexit {rc}"
def search(ctx, failed, struct): return native(ctx, 20000, runner.SEED)
def standin(ctx):
    n = 2000 if runner.TIER == "quick" else 50000
    m = native(ctx, n, runner.SEED)
    ctx.bounded.append({"what": "all lists of up to 3 ranges over 6 positions and random lists of up to 12 ranges stepped through the real code, position by position", "cases": n, "label": "bounded"})
    return m

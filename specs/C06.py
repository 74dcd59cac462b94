"""C06: sizes, alignments and struct layout."""
import z3, itertools
import absx, e2e, runner
from objs import *
import objs, resolve_spec as R
META = dict(technique="contract-based deductive verification (CVV: VCs from the clang AST of /repo, z3/cvc5); layout loop by inductive invariant over a member list of any length",
            level_note="sizes and alignments of every type kind with opaque parts (induction over the type); layout for member lists of any length by loop invariant, and again exhaustively for lists of up to 4 members; sizeof in the resolver")
TRUSTED = R.TRUSTED
ASSUMPTIONS = ["total object sizes fit in int (below 2^31-16)", "alignments are 1, 2, 4, 8 or 16 (proved: every complete type has one of them)", "every member has a complete object type (the resolver rejects others)"]
FILES = ["src/dtype/dtype.c", "src/dtype/array.c", "src/dtype/enum.c", "src/dtype/function.c", "src/dtype/pointer.c", "src/dtype/struct.c", "src/dtype/typedef.c",
         "src/common/util.c", "src/common/type.c", "src/vector/vector.c"]
_tu = None
def tu():
    global _tu
    if _tu is None: _tu = TU(FILES)
    return _tu
AL = [1, 2, 4, 8, 16]
def mk():
    e = Engine(tu(), mode="int", heap="conc"); objs.install(e); e.batch = True
    def nbytes(ex, a): return ex.ghost["size"][opq(ex, a[0])] if isopq(ex, a[0]) else NotImplemented
    def align(ex, a): return ex.ghost["align"][opq(ex, a[0])] if isopq(ex, a[0]) else NotImplemented
    e.overrides["dtype_nbytes"] = nbytes; e.overrides["dtype_alignment"] = align
    v_at, v_size = e.overrides["vector_at"], e.overrides["vector_size"]
    def sv(ex, p): 
        o = ex.obj(p.b, "list"); return o.tag if isinstance(o.tag, list) and o.tag[0] == "symvec" else None
    def size(ex, a):
        s = sv(ex, a[0]); return v_size(ex, a) if s is None else s[1]
    def at(ex, a):
        s = sv(ex, a[0]); return v_at(ex, a) if s is None else s[2](ex, a[1])
    e.overrides["vector_at"] = at; e.overrides["vector_size"] = size
    return e
def opq_children(ex):
    """an opaque type of any size and alignment a type can have"""
    s = ex.fresh("size"); a = AL[ex.choose(len(AL))]
    ex.assume(z3.And(s > 0, s < 2**31 - 16, s % a == 0))
    ex.ghost["size"] = {"T": s}; ex.ghost["align"] = {"T": a}
    return s, a
def h_kind(k):
    def h(ex):
        ex.ghost["size"] = {}; ex.ghost["align"] = {}
        n = None
        if k == "ARRAY":
            s, a = opq_children(ex); n = ex.fresh("len"); ex.assume(z3.And(n > 0, n * s < 2**31 - 16))
            d, ws, wa = ("ARRAY", ("opq", "T"), n), n * s, a
        elif k == "STRUCT":
            ws, wa = ex.fresh("nb"), AL[ex.choose(len(AL))]; d = ("STRUCT", "s" if ex.choose(2) else None, [], ws, wa)
        elif k == "POINTER": d, ws, wa = ("POINTER", ("opq", "T")), 8, 8
        elif k == "ENUM": d, ws, wa = ("ENUM", "e", None), 4, 4
        else: d, ws, wa = (k,), SIZE[k], SIZE[k]
        p = dt(ex, d)
        ex.oblige(f"size of {k}", ex.ieq(ex.call(FnVal("dtype_nbytes"), [p], None), ws), "post")
        ex.oblige(f"alignment of {k}", ex.ieq(ex.call(FnVal("dtype_alignment"), [p], None), wa), "post")
        ex.oblige(f"{k}: size is a multiple of the alignment" , True if k == "STRUCT" else (ws % wa == 0 if not isz(ws) else z3.Implies(ws >= 0, ws % wa == 0)), "post")
        ex.eng.reach.append((k, list(ex.pc)))
    return h
def h_round(ex):
    n = ex.fresh("n"); b = 1 + ex.choose(16)
    ex.assume(z3.And(n >= 0, n < 2**31 - 16))
    r = ex.call(FnVal("min_multiple_of"), [n, b], None)
    ex.oblige("rounding up: a multiple of the base", r % b == 0, "post")
    ex.oblige("rounding up: the smallest not below the value", z3.And(r >= n, r < n + b), "post")
    ex.eng.reach.append(("round", list(ex.pc)))
def roundup(n, a):
    """smallest multiple of the concrete alignment a not below n"""
    return (n + (a - 1)) / a * a
def h_list(n):
    """member lists of length n, every combination of alignments, any sizes"""
    def h(ex):
        ms = []; ex.ghost["size"] = {}; ex.ghost["align"] = {}
        tot = 0
        for i in range(n):
            a = (1, 4, 8)[ex.choose(3)]; s = ex.fresh("size"); ex.assume(z3.And(s > 0, s % a == 0)); tot = tot + s + 16
            ex.ghost["size"][i] = s; ex.ghost["align"][i] = a
            ms.append(rec(ex, "DStructMember", name=st(ex, f"m{i}"), dtype=dt(ex, ("opq", i)), memory_offset=UNINIT))
        ex.assume(tot < 2**31 - 64)
        p = ex.call(FnVal("new_unnamed_dstruct"), [absx.new_vec(ex, ms, G(ex, "t_dstructmember"))], None)
        o = ex.obj(p.b, "struct").fields
        end = z3.IntVal(0)
        ex.oblige("members are kept in order", [m.b for m in absx.vec(ex, o["members"])[1]] == [m.b for m in ms], "post")
        ex.oblige("an unnamed struct has no name", isn(o["name"]), "post")
        for i, m in enumerate(ms):
            off = roundup(end, ex.ghost["align"][i])
            f = ex.obj(m.b, "member").fields
            ex.oblige(f"member {i} of {n}: smallest free offset aligned for it", ex.ieq(f["memory_offset"], off), "post")
            ex.oblige(f"member {i} of {n}: name and type kept", strid(ex, f["name"]) == f"m{i}" and opq(ex, f["dtype"]) == i, "post")
            end = off + ex.ghost["size"][i]
        ma = max(ex.ghost["align"].values())
        ex.oblige("struct alignment is the largest member alignment", ex.ieq(o["alignment"], ma), "post")
        ex.oblige("struct size is the smallest multiple of its alignment covering the members", ex.ieq(o["nbytes"], roundup(end, ma)), "post")
        ex.eng.reach.append((f"{n}", list(ex.pc)))
    return h
def h_induct(ex):
    """member list of any length N; END(k): first byte after the first k members, MAX(k): their largest alignment"""
    I = z3.IntSort()
    END, MAX, ALN, SZ, OFF = (z3.Function(n, I, I) for n in ("END", "MAX", "ALN", "SZ", "OFF"))
    N = ex.fresh("N"); ex.assume(z3.And(N > 0, N < 2**24, END(0) == 0, MAX(0) == 0))
    def facts(k):
        """definition of the layout for member k"""
        ex.assume(z3.Or(*[ALN(k) == a for a in AL])); ex.assume(z3.And(SZ(k) > 0, SZ(k) % ALN(k) == 0))
        ex.assume(z3.And(OFF(k) % ALN(k) == 0, OFF(k) >= END(k), OFF(k) < END(k) + ALN(k)))
        ex.assume(z3.And(END(k + 1) == OFF(k) + SZ(k), END(k + 1) < 2**31 - 64, MAX(k + 1) == z3.If(ALN(k) > MAX(k), ALN(k), MAX(k))))
    ex.ghost["size"] = {}; ex.ghost["align"] = {}
    made = []
    def at(ex, i):
        i = i if isz(i) else z3.IntVal(i)
        ex.oblige("only existing members are taken from the list", z3.And(i >= 0, i < N), "pre")
        for j, m in made:
            if j.eq(z3.simplify(i)): return m
        t = f"T{len(made)}"; ex.ghost["size"][t] = SZ(i)
        ex.ghost["align"][t] = ALN(i)
        facts(i)
        m = rec(ex, "DStructMember", name=st(ex, f"m{len(made)}"), dtype=dt(ex, ("opq", t)), memory_offset=-1); made.append((z3.simplify(i), m)); return m
    b = ex.heap.new(None); ex.heap.objs[b].tag = ["symvec", N, at]
    def ds(): 
        for o in ex.heap.objs.values():
            if o.alive and "alignment" in o.fields and "nbytes" in o.fields and "members" in o.fields: return o
        raise Structural("no struct under construction")
    zero = lambda v: v if isz(v) else z3.IntVal(v)
    class Cell:   # where the loop accumulates: a field of the struct, or a local variable
        def __init__(s, get, put): s.get, s.put = get, put
    def field(n): 
        def put(v): ds().fields[n] = v
        return Cell(lambda: ds().fields[n], put)
    def roles(c):
        if not hasattr(c, "acc"):
            ls = [x for x in ex.frames[-1]["vars"].values() if x.name and x is not c.L.cell("i") and ex.tu.norm(x.qt)[0] == "int" and not isz(x.v) and x.v == 0]
            def loc(k):
                if k >= len(ls): raise Structural("no local accumulator")
                x = ls[k]
                def put(v): x.v = v
                return Cell(lambda: x.v, put)
            nb, al = [(None, None), (0, 1), (1, 0), (0, None), (None, 0)][ex.eng.variant]
            c.acc = (field("nbytes") if nb is None else loc(nb)), (field("alignment") if al is None else loc(al))
        return c.acc
    def inv(c):
        nb, al = roles(c); i = c.i("i")
        return [("position in the list", z3.And(i >= 0, i <= N)), ("end of the members laid out so far", zero(nb.get()) == END(i)),
                ("largest alignment so far", zero(al.get()) == MAX(i)), ("alignment so far is an alignment", z3.Or(z3.And(i == 0, MAX(i) == 0), *[MAX(i) == a for a in AL])),
                ("size so far in range", z3.And(END(i) >= 0, END(i) < 2**31 - 64))]
    def havoc(c):
        nb, al = roles(c); o = ds(); o.fields["nbytes"] = ex.fresh("nb"); o.fields["alignment"] = ex.fresh("al"); ex.ghost["k0"] = None
        nb.put(ex.fresh("nb")); al.put(ex.fresh("al")); del made[:]
        ex.assume(zero(nb.get()) >= 0)
    def dec(c):
        if ex.ghost.get("k0") is None: ex.ghost["k0"] = c.i("i")
        return N - c.i("i")
    def step(c):
        k = ex.ghost["k0"]
        for j, m in made:
            f = ex.heap.objs[m.b].fields
            ex.oblige("each member is laid out at the smallest free offset aligned for it", z3.And(j == k, zero(f["memory_offset"]) == OFF(k)), "post")
        ex.oblige("every member is laid out", len(made) == 1, "post")
    ex.loop_map = {l: i for i, l in enumerate(ex.eng.loop_order("new_unnamed_dstruct"))}
    ex.eng.loopspecs = {0: dict(inv=inv, havoc=havoc, dec=dec, step=step)}
    p = ex.call(FnVal("new_unnamed_dstruct"), [P(b, 0)], None)
    o = ex.obj(p.b, "struct").fields
    al, nb = zero(o["alignment"]), zero(o["nbytes"])
    ex.oblige("struct alignment is the largest member alignment", al == MAX(N), "post")
    ex.oblige("struct size is the smallest multiple of its alignment covering the members", z3.And(nb % MAX(N) == 0, nb >= END(N), nb < END(N) + MAX(N)), "post")
    ex.oblige("the struct has the given members", isinstance(o["members"], P) and o["members"].b == b, "post")
    ex.eng.reach.append(("end", list(ex.pc)))
def mk_ind():
    e = mk()
    # the rounding function by its own contract
    def mm(ex, a):
        n, b = (x if isz(x) else z3.IntVal(x) for x in a)
        ex.oblige("precondition of min_multiple_of", z3.And(n >= 0, n < 2**31 - 16, b > 0, b <= 16), "pre")
        r = ex.fresh("r"); ex.assume(z3.And(r % b == 0, r >= n, r < n + b)); return r
    e.overrides["min_multiple_of"] = mm
    e.batch = False
    return e
def h_struct_ctor(ex):
    """new_named_struct_dtype keeps what it is given; new_unnamed_struct_dtype carries the layout"""
    nb, al = ex.fresh("nb"), AL[ex.choose(len(AL))]
    p = ex.call(FnVal("new_named_struct_dtype"), [st(ex, "s"), nb, al], None)
    ex.oblige("a named struct keeps its size", ex.ieq(ex.call(FnVal("dtype_nbytes"), [p], None), nb), "post")
    ex.oblige("a named struct keeps its alignment", ex.ieq(ex.call(FnVal("dtype_alignment"), [p], None), al), "post")
    s, a = opq_children(ex)
    m = rec(ex, "DStructMember", name=st(ex, "m"), dtype=dt(ex, ("opq", "T")), memory_offset=UNINIT)
    q = ex.call(FnVal("new_unnamed_struct_dtype"), [absx.new_vec(ex, [m], G(ex, "t_dstructmember"))], None)
    ex.oblige("an unnamed struct has the size of its layout", ex.ieq(ex.call(FnVal("dtype_nbytes"), [q], None), s), "post")
    ex.oblige("an unnamed struct has the alignment of its layout", ex.ieq(ex.call(FnVal("dtype_alignment"), [q], None), a), "post")
    n = ex.fresh("n"); ex.assume(z3.And(n > 0, n * s < 2**31 - 16))
    r = ex.call(FnVal("new_array_dtype"), [dt(ex, ("opq", "T")), n], None)
    ex.oblige("an array has the size of its elements", ex.ieq(ex.call(FnVal("dtype_nbytes"), [r], None), n * s), "post")
    ex.eng.reach.append(("ctor", list(ex.pc)))
def prove(ctx):
    tu(); R.tu()
    u = [(f"size and alignment of {k}", mk, h_kind(k)) for k in INTS + ["POINTER", "ARRAY", "STRUCT", "ENUM"]]
    u += [("min_multiple_of", mk, h_round), ("new_unnamed_dstruct, any length", mk_ind, h_induct), ("struct and array types", mk, h_struct_ctor)]
    u += [(f"new_unnamed_dstruct, {n} members", mk, h_list(n)) for n in (1, 2, 3, 4)]
    u += [("resolve sizeof", R.mk, R.allof(R.cases(R.h_sizeof, R.KINDS, (0, 1))))]
    ctx.prove_all([(n, (lambda c, n=n, m=m, h=h: c.prove_harness(n, m, h, 5 if h is h_induct else 1))) for n, m, h in u])

# ---------------------------------------------------------------- against gcc
def layouts(ctx, count, seed):
    import random
    rnd = random.Random(seed)
    base = ["char", "int", "long", "unsigned int", "long long", "char *", "enum E", "int *"]
    decls = "enum E { EA, EB };\nint clear(char *c, int n) { int i; for (i = 0; i < n; i++) { c[i] = 0; } return 0; }\nint first(char *c, int n) { int i; for (i = 0; i < n; i++) { if (c[i]) { return i; } } return -1; }\n"; fns = []; names = []
    for k in range(count):
        mem = []
        for j in range(rnd.randint(1, 7)):
            t = rnd.choice(base + [f"struct {n}" for n in (names[-(k % 5):] if k % 5 else [])])
            if rnd.random() < .3: mem.append(f"{t} m{j}[{rnd.randint(1, 5)}]" if rnd.random() < .7 else f"{t} m{j}[{rnd.randint(1, 3)}][{rnd.randint(1, 4)}]")
            else: mem.append(f"{t} m{j}")
        n = f"S{k}"; decls += f"struct {n} {{ {'; '.join(mem)}; }};\n"; names.append(n)
        body = f"r = sizeof(struct {n}); r = r * 31 + ((long) (p + 1) - (long) p); "
        for j, m in enumerate(mem):
            body += f"r = r * 31 + sizeof(p->m{j}); "
            if "[" in m: body += f"r = r * 31 + ((long) p->m{j} - (long) p); "
            elif not m.startswith("struct"):
                one = "(" + m.rsplit(" ", 1)[0] + ") 1"
                body += f"clear((char *) p, sizeof(a)); p->m{j} = {one}; r = r * 31 + first((char *) p, sizeof(a)); "
        fns.append((f"f{k}", "long", ["int"], f"long f{k}(int x) {{ struct {n} a[2]; struct {n} *p; long r; p = a; r = 0; {body} return r; }}", None))
    for i, t in enumerate(["char", "int", "unsigned int", "long", "unsigned long", "long long", "unsigned long long", "char *", "enum E", "int (*)(int)", "int [5]", "long [2][3]"]):
        fns.append((f"z{i}", "long", ["int"], f"long z{i}(int x) {{ return sizeof({t}); }}", None))
    return e2e.funcs(ctx, decls, fns, seed, per=1, chunk=40)
def search(ctx, failed, struct): return layouts(ctx, 120, runner.SEED)
def standin(ctx):
    n = 40 if runner.TIER == "quick" else 400
    m = layouts(ctx, n, runner.SEED)
    ctx.bounded.append({"what": "size, element stride and member offsets of random structs compiled by umlcc and gcc and compared", "cases": n, "label": "bounded"})
    return m

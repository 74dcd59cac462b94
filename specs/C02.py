"""C02 maps and sets behave as finite maps and sets.  See DESIGN.md for the split: map.c function by function on every table
satisfying the probe-chain invariant (capacity bounded), set.c over the map contract."""
import z3, os, itertools
from engine import *
from cast import TU
import runner, absmap

FILES = ["src/map/map.c", "src/map/cell.c", "src/set/set.c", "src/common/type.c"]
_tu = None
def tu():
    global _tu
    if _tu is None: _tu = TU(FILES)
    return _tu
H = z3.Function("H", z3.IntSort(), z3.IntSort())

def key(ex, idv, own=True):
    b = ex.heap.new(None); ex.heap.objs[b].tag = ["id", idv]; ex.heap.objs[b].rec = "key" ; return P(b, 0)
def val(ex, nm):
    b = ex.heap.new(None); ex.heap.objs[b].tag = ["val", nm]; return P(b, 0)
def iface(eng):
    def hash_object(ex, owner, a):
        o = ex.obj(a[0].b, "hashed key"); k = o.tag[1]
        ex.assume(z3.And(H(k) >= 0, H(k) <= 0x7fffffff)); return H(k)
    def compare_object(ex, owner, a):
        x, y = (ex.obj(p.b, "compared key").tag[1] for p in a)
        r = ex.fresh("cmp"); ex.assume(z3.And(r >= -1, r <= 1, (r == 0) == (x == y))); return r
    def copy_object(ex, owner, a):
        if isinstance(a[0], GPtr): return a[0]
        o = ex.obj(a[0].b, "copied object"); b = ex.heap.new(None); ex.heap.objs[b].tag = list(o.tag) + ["copy"]; return P(b, 0)
    def delete_object(ex, owner, a):
        if isinstance(a[0], GPtr): return
        o = ex.heap.objs.get(a[0].b)
        ex.oblige("an object is released at most once", o is not None and o.alive, "mem"); o.alive = False
    for f in (hash_object, compare_object, copy_object, delete_object): eng.iface[f.__name__] = f
def types(ex):
    out = []
    for n in (32, 16):
        b = ex.heap.new(n); o = ex.heap.objs[b]
        for f in ("copy_object", "delete_object", "hash_object", "compare_object"): o.fields[f] = FnVal(None, b, f)
        out.append(P(b, 0))
    return out
class Tab:
    """a table in the state every history can leave it in"""
    def __init__(s, ex, cap, pattern, nm="", slack=0):
        s.ex, s.cap = ex, cap
        s.tk, s.tv = types(ex)
        mb = ex.heap.new(32); cb = ex.heap.new(8 * cap)
        s.map = P(mb, 0); mo = ex.heap.objs[mb]; co = ex.heap.objs[cb]; co.elems = {}
        s.cells = []
        for i, c in enumerate(pattern):
            if c == "n": co.elems[i] = NULL; s.cells.append(None); continue
            k = z3.Int(f"{nm}key{i}"); kp = key(ex, k); v = val(ex, f"{nm}v{i}")
            b = ex.heap.new(24); o = ex.heap.objs[b]
            o.fields = {"key": kp, "value": v, "deleted": 0 if c == "l" else 1}
            co.elems[i] = P(b, 0); s.cells.append((c, k, kp, v, P(b, 0)))
        n = sum(c == "l" for c in pattern)
        mo.fields = {"t_key": s.tk, "t_value": s.tv, "container": P(cb, 0), "size": n, "capacity": cap}
        s.live = [(k, kp, v, b) for c in s.cells if c and c[0] == "l" for (_, k, kp, v, b) in [c]]
        if len(s.live) > 1: ex.assume(z3.Distinct(*[k for k, *_ in s.live]))
        for i, c in enumerate(s.cells):
            if not c or c[0] != "l": continue
            ex.assume(z3.And(H(c[1]) >= 0, H(c[1]) <= 0x7fffffff))
            ex.assume(chain(H(c[1]) % cap, i, cap, [x is None for x in s.cells]))
        s.ids = [kp.b for c in s.cells if c for kp in (c[2], c[3])]
def chain(home, i, cap, isnull):
    """no empty slot on the cyclic path from home to i (exclusive)"""
    fs = []
    for o in range(cap):
        path = [(o + d) % cap for d in range((i - o) % cap)]
        if any(isnull[j] for j in path): fs.append(home != o)
    return z3.And(*fs) if fs else z3.BoolVal(True)
def read(ex, mp):
    """table on the heap -> (fields, slots) with slots None or (deleted, key id, key, value)"""
    mo = ex.obj(mp.b, "map").fields
    co = ex.obj(mo["container"].b, "container")
    cap = mo["capacity"]
    if not isinstance(cap, int): raise Structural("symbolic capacity")
    out = []
    for i in range(cap):
        ex.oblige("container covers the capacity", isinstance(co.nbytes, int) and co.nbytes >= 8 * (i + 1), "post")
        c = (co.elems or {}).get(i, UNINIT)
        ex.oblige("every slot is initialised", c is not UNINIT, "post")
        if c.b == 0: out.append(None); continue
        o = ex.obj(c.b, "cell")
        d = ex.tobool(o.fields["deleted"])
        if not isinstance(d, bool): raise Structural("symbolic deleted flag")
        kp, v = o.fields["key"], o.fields["value"]
        out.append((d, ex.obj(kp.b, "key in the table").tag[1], kp, v))
    return mo, out
def wf(ex, mp):
    mo, sl = read(ex, mp); cap = mo["capacity"]
    lv = [s for s in sl if s and not s[0]]
    ex.oblige("size counts the present keys", ex.ieq(ex.toint(mo["size"]), len(lv)), "post")
    ex.oblige("at least one slot more than present keys", cap >= len(lv) + 1 and cap >= 1, "post")
    for i, s in enumerate(sl):
        if s is None or s[0]: continue
        ex.assume(z3.And(H(s[1]) >= 0, H(s[1]) <= 0x7fffffff))
        ex.oblige("every present key is reachable by probing", chain(H(s[1]) % cap, i, cap, [x is None for x in sl]), "post")
        if isinstance(s[3], P): ex.obj(s[3].b, "value in the table")
    if len(lv) > 1: ex.oblige("each key is present once", z3.Distinct(*[s[1] for s in lv]), "post")
    return mo, sl, lv
def content(ex, lv, expect):
    """present (key, value object) pairs are exactly expect: [(cond, key id, value object)]"""
    k = z3.Int("anykey")
    for (c, ke, v) in expect:
        hit = z3.Or(*[z3.And(s[1] == ke) for s in lv if isinstance(s[3], P) and s[3].b == v.b or s[3] is v] or [z3.BoolVal(False)])
        ex.oblige("a key that should be present is, with its value", z3.Implies(c, hit) if c is not True else hit, "post")
    for s in lv:
        e = [z3.And(c if c is not True else z3.BoolVal(True), ke == s[1]) for (c, ke, v) in expect if isinstance(s[3], P) and v.b == s[3].b or v is s[3]]
        ex.oblige("nothing else is present", z3.Or(*e) if e else False, "post")

def update_contract(ex, a):
    """contract of update_capacity (proved separately): same present keys, no removed cells, room enough"""
    mp, nc = a
    mo, sl = read(ex, mp)
    lv = [s for s in sl if s and not s[0]]
    if not isinstance(nc, int): raise Structural("symbolic new capacity")
    ex.oblige("update_capacity: room for all present keys and one more slot", nc >= len(lv) + 1, "pre")
    for s in sl:
        if s and s[0]:
            for p in (s[2], s[3]): ex.call(FnVal(None, 0, "delete_object"), [p], None)
    co = ex.heap.objs[mo["container"].b]
    cells = [co.elems[i] for i, s in enumerate(sl) if s and not s[0]]
    for i, s in enumerate(sl):
        if s and s[0]: ex.heap.objs[co.elems[i].b].alive = False
    co.alive = False
    nb = ex.heap.new(8 * nc); no = ex.heap.objs[nb]; no.elems = {i: NULL for i in range(nc)}
    for i, c in enumerate(cells): no.elems[i] = c
    isn = [i >= len(cells) for i in range(nc)]
    ex.ghost["placed"] = True
    for i, s in enumerate(lv): ex.assume(chain(H(s[1]) % nc, i, nc, isn)) if False else None
    mo["container"] = P(nb, 0); mo["capacity"] = nc
def mk(update=True):
    e = Engine(tu(), heap="conc"); iface(e)
    e.unroll = 64; e.maxpaths = 400000; e.batch = True; e.branch_timeout = 4000
    if update: e.overrides["update_capacity"] = update_contract
    return e
def patterns(cap):
    for p in itertools.product("nld", repeat=cap):
        if 2 * p.count("l") + 1 <= cap: yield "".join(p)
def h_op(op, cap, pats):
    def run(ex):
        pat = pats[ex.choose(len(pats))]
        t = Tab(ex, cap, pat)
        q = z3.Int("q"); qp = key(ex, q); v = val(ex, "newv")
        ex.ghost["case"] = f"{op} on a table of capacity {cap}, slots {pat}"
        ex.assume(z3.And(H(q) >= 0, H(q) <= 0x7fffffff))
        call = lambda f, *a: ex.call(FnVal(f), list(a), None)
        if op == "add":
            call("map_add", t.map, qp, v)
            if ex.ghost.get("placed"):
                mo, sl = read(ex, t.map); lv = [s for s in sl if s and not s[0]]
            else: mo, sl, lv = wf(ex, t.map)
            content(ex, lv, [(True, q, v)] + [(k != q, k, w) for k, kp, w, b in t.live])
            for k, kp, w, b in t.live: ex.oblige("a value that stays is not released", z3.Implies(k != q, z3.BoolVal(ex.heap.objs[w.b].alive)), "post")
            ex.oblige("size counts the present keys", ex.ieq(ex.toint(mo["size"]), len(lv)), "post")
            ex.oblige("occupancy bound", 2 * len(lv) + 1 <= mo["capacity"], "post")
        elif op == "remove":
            call("map_remove", t.map, qp)
            if ex.ghost.get("placed"):
                mo, sl = read(ex, t.map); lv = [s for s in sl if s and not s[0]]
            else: mo, sl, lv = wf(ex, t.map)
            content(ex, lv, [(k != q, k, w) for k, kp, w, b in t.live])
            ex.oblige("size counts the present keys", ex.ieq(ex.toint(mo["size"]), len(lv)), "post")
            ex.oblige("occupancy bound", 2 * len(lv) + 1 <= mo["capacity"], "post")
            ex.obj(qp.b, "the caller's key")
        else:
            d = val(ex, "default")
            if op == "get": r = call("map_get", t.map, qp); d = NULL
            elif op == "default": r = call("map_get_with_default", t.map, qp, d)
            else: r = call("map_contains", t.map, qp)
            if op == "contains":
                c = ex.tobool(r)
                ex.oblige("contains answers presence", (z3.BoolVal(c) if isinstance(c, bool) else c) == z3.Or(*[k == q for k, *_ in t.live] or [z3.BoolVal(False)]), "post")
            else:
                for k, kp, w, b in t.live: ex.oblige("lookup of a present key returns its value", z3.Implies(k == q, z3.BoolVal(r.b == w.b)), "post")
                ex.oblige("lookup of an absent key returns the default", z3.Implies(z3.And(*[k != q for k, *_ in t.live]), z3.BoolVal(r.b == d.b)), "post")
            mo, sl, lv = wf(ex, t.map); content(ex, lv, [(True, k, w) for k, kp, w, b in t.live])
        if ex.live: ex.eng.reach.append((op, list(ex.pc)))
    return run
def h_update(cap, nc, pats):
    def run(ex):
        pat = pats[ex.choose(len(pats))]
        if pat.count("l") + 1 > nc: raise PathEnd()
        t = Tab(ex, cap, pat)
        ex.ghost["case"] = f"update_capacity({nc}) on capacity {cap}, slots {pat}"
        ex.call(FnVal("update_capacity"), [t.map, nc], None)
        mo, sl, lv = wf(ex, t.map)
        ex.oblige("capacity is the new one", ex.ieq(mo["capacity"], nc), "post")
        ex.oblige("no removed cell is kept", all(s is None or not s[0] for s in sl), "post")
        content(ex, lv, [(True, k, w) for k, kp, w, b in t.live])
        if ex.live: ex.eng.reach.append(("update", list(ex.pc)))
    return run
def h_copy(cap, pats):
    def run(ex):
        pat = pats[ex.choose(len(pats))]
        t = Tab(ex, cap, pat); ex.ghost["case"] = f"map_copy/iterate/delete, slots {pat}"
        r = ex.call(FnVal("map_copy"), [t.map], None)
        mo, sl, lv = wf(ex, t.map); content(ex, lv, [(True, k, w) for k, kp, w, b in t.live])
        mo2, sl2, lv2 = wf(ex, r)
        ex.oblige("the copy has as many keys", len(lv2) == len(lv), "post")
        for s in lv2:
            o = ex.obj(s[3].b, "copied value")
            ex.oblige("the copy owns its keys and values", s[3].b not in t.ids and s[2].b not in t.ids, "post")
            ex.oblige("the copy maps the key to an equal value", z3.Or(*[z3.And(k == s[1], z3.BoolVal(ex.heap.objs[w.b].tag[1] == o.tag[1])) for k, kp, w, b in t.live] or [z3.BoolVal(False)]), "post")
        # iteration
        it = ex.call(FnVal("map_iter_begin"), [t.map], None); seen = []
        for _ in range(cap + 2):
            if ex.branch(ex.tobool(ex.call(FnVal("map_iter_end"), [it, t.map], None))): break
            kp = ex.call(FnVal("map_iter_key"), [it, t.map], None); v = ex.call(FnVal("map_iter_value"), [it, t.map], None)
            seen.append((kp.b, v.b))
            it = ex.call(FnVal("map_iter_next"), [it, t.map], None)
        else: ex.oblige("iteration ends", False, "post")
        ex.oblige("iteration visits every present key once, with its value, and nothing else", sorted(seen) == sorted((kp.b, w.b) for k, kp, w, b in t.live), "post")
        ex.oblige("the iterator is released at the end", not ex.heap.objs[it.b].alive, "post")
        ex.call(FnVal("delete_map"), [t.map], None)
        ex.oblige("deleting a map releases every key and value in it", all(not ex.heap.objs[b].alive for b in t.ids), "post")
        ex.oblige("deleting a map leaves its copy alone", all(ex.heap.objs[s[2].b].alive and ex.heap.objs[s[3].b].alive for s in lv2), "post")
        if ex.live: ex.eng.reach.append(("copy", list(ex.pc)))
    return run
def h_new(ex):
    tk, tv = types(ex)
    m = ex.call(FnVal("new_map"), [tk, tv], None)
    mo, sl, lv = wf(ex, m); ex.oblige("a new map is empty", not lv, "post")
    ex.oblige("types recorded", mo["t_key"].b == tk.b and mo["t_value"].b == tv.b, "post")
    if ex.live: ex.eng.reach.append(("new", list(ex.pc)))

# ---- set.c over the map contract
def mkset():
    e = mk(False); absmap.install(e)
    e.builtins = dict(e.builtins)
    return e
def set_of(ex, n, nm):
    tk, tv = types(ex)
    s = ex.call(FnVal("new_set"), [tk], None)
    m = absmap.amap(ex, ex.obj(s.b, "set").fields["inner"])
    ks = [z3.Int(f"{nm}{i}") for i in range(n)]
    if n > 1: ex.assume(z3.Distinct(*ks))
    for k in ks: ex.call(FnVal("set_add"), [s, key(ex, k)], None)
    return s, ks
def members(ex, s):
    return [k for k, kp, v in absmap.amap(ex, ex.obj(s.b, "set").fields["inner"])[1]], [kp.b for k, kp, v in absmap.amap(ex, ex.obj(s.b, "set").fields["inner"])[1]]
def isin(k, ks): return z3.Or(*[k == x for x in ks]) if ks else z3.BoolVal(False)
def h_set(n, m):
    def run(ex):
        a, ka = set_of(ex, n, "a"); b, kb = set_of(ex, m, "b")
        ex.ghost["case"] = f"set operations on sets of {n} and {m} items"
        op = ("set_union", "set_intersection", "set_difference", "set_issubset", "set_equals", "set_contains", "set_remove", "set_copy")[ex.choose(8)]
        x = z3.Int("x"); call = lambda f, *r: ex.call(FnVal(f), list(r), None)
        bo = lambda r: (lambda c: z3.BoolVal(c) if isinstance(c, bool) else c)(ex.tobool(r))
        if op in ("set_union", "set_intersection", "set_difference"):
            r = call(op, a, b); kr, ob = members(ex, r)
            want = {"set_union": z3.Or(isin(x, ka), isin(x, kb)), "set_intersection": z3.And(isin(x, ka), isin(x, kb)),
                    "set_difference": z3.And(isin(x, ka), z3.Not(isin(x, kb)))}[op]
            ex.oblige(f"{op}: members are the mathematical ones", isin(x, kr) == want, "post")
            ex.oblige(f"{op}: the result owns its items", not set(ob) & set(members(ex, a)[1] + members(ex, b)[1]), "post")
        elif op == "set_issubset":
            r = call(op, a, b); ex.oblige("set_issubset answers whether the second set is contained in the first", bo(r) == z3.And(*[isin(k, ka) for k in kb]), "post")
        elif op == "set_equals":
            r = call(op, a, b); ex.oblige("set_equals answers equality", bo(r) == z3.And(*([isin(k, ka) for k in kb] + [isin(k, kb) for k in ka])), "post")
        elif op == "set_contains":
            r = call(op, a, key(ex, x)); ex.oblige("set_contains answers membership", bo(r) == isin(x, ka), "post")
        elif op == "set_remove":
            call(op, a, key(ex, x)); y = z3.Int("y"); ex.oblige("set_remove removes exactly that item", isin(y, members(ex, a)[0]) == z3.And(isin(y, ka), y != x), "post"); ka = [k for k in ka]
        else:
            r = call(op, a); ex.oblige("set_copy has the same members", isin(x, members(ex, r)[0]) == isin(x, ka), "post")
            ex.oblige("set_copy shares no item", not set(members(ex, r)[1]) & set(members(ex, a)[1]), "post")
            call("delete_set", r)
        if op != "set_remove": ex.oblige("operands unchanged", isin(z3.Int("z"), members(ex, a)[0]) == isin(z3.Int("z"), ka), "post")
        ex.oblige("second operand unchanged", isin(z3.Int("z"), members(ex, b)[0]) == isin(z3.Int("z"), kb), "post")
        for o in ex.heap.objs.values():
            if isinstance(o.tag, list) and o.tag[0] == "miter": ex.oblige("every iterator is released", not o.alive, "post")
        if ex.live: ex.eng.reach.append((op, list(ex.pc)))
    return run
# ---- integer keys: the hash is non-negative and equal integers compare equal
def mkint():
    e = Engine(tu(), mode="bv", heap="conc"); e.allow_shift = True; e.unroll = 8; return e
def h_int(ex):
    x, y = z3.BitVec("x", 32), z3.BitVec("y", 32)
    def box(v):
        b = ex.heap.new(4); ex.heap.objs[b].elems = {0: v}; return P(b, 0)
    r = ex.call(FnVal("hash_integer"), [box(x)], None)
    ex.oblige("the hash of an integer is non-negative", r >= 0, "post")
    r2 = ex.call(FnVal("hash_integer"), [box(y)], None); ex.oblige("equal integers have equal hashes", z3.Implies(x == y, r == r2), "post")
    c = ex.toint(ex.call(FnVal("comp_integer"), [box(x), box(y)], None))
    ex.oblige("comparison is zero exactly for equal integers", (c == 0) == (x == y) if isz(c) else z3.BoolVal(c == 0) == (x == y), "post")
    c = ex.call(FnVal("copy_integer"), [box(x)], None); ex.oblige("a copied integer is equal", ex.ieq(ex.eread(c, "int"), x), "post")
    n = ex.call(FnVal("new_integer"), [x], None); ex.oblige("a new integer has its value", ex.ieq(ex.eread(n, "int"), x), "post")
    if ex.live: ex.eng.reach.append(("int", list(ex.pc)))
def h_str(n):
    def run(ex):
        def box(nm):
            b = ex.heap.new(n + 1); cs = [z3.BitVec(f"{nm}{i}", 8) for i in range(n)]
            for c in cs: ex.assume(c != 0)
            ex.heap.objs[b].elems = {**{i: c for i, c in enumerate(cs)}, n: 0}; return P(b, 0), cs
        p, cs = box("c"); q, ds = box("d")
        r = ex.call(FnVal("hash_string"), [p], None)
        ex.oblige("the hash of a string is non-negative", r >= 0, "post")
        r2 = ex.call(FnVal("hash_string"), [q], None)
        ex.oblige("equal strings have equal hashes", z3.Implies(z3.And(*[a == b for a, b in zip(cs, ds)]), (r == r2) if isz(r) or isz(r2) else z3.BoolVal(r == r2)), "post")
        c = ex.call(FnVal("new_string"), [p], None)
        for i in range(n + 1): ex.oblige("a copied string has the same bytes", ex.ieq(ex.eread(P(c.b, i), "char"), cs[i] if i < n else 0), "post")
        if ex.live: ex.eng.reach.append(("str", list(ex.pc)))
    return run

def prove(ctx):
    tu()
    th = runner.TIER == "thorough"
    jobs = []
    J = lambda nm, mkf, h: jobs.append((nm, lambda c, nm=nm, mkf=mkf, h=h: c.prove_harness(nm, mkf, h)))
    J("new_map", mk, h_new); J("integer keys", mkint, h_int)
    for n in range(0, 4): J(f"string keys of {n} bytes", mkint, h_str(n))
    for cap in (1, 3, 5) if not th else (1, 2, 3, 4, 5, 7):
        ps = list(patterns(cap)); ch = [ps[i:i + 12] for i in range(0, len(ps), 12)]
        for op in ("get", "default", "contains", "add", "remove"):
            for i, c in enumerate(ch): J(f"map_{op} capacity {cap} #{i}", mk, h_op(op, cap, c))
        for i, c in enumerate(ch): J(f"map_copy, iteration, delete_map capacity {cap} #{i}", mk, h_copy(cap, c))
        for nc in sorted({2 * (cap + 1) - 1, max(1, cap // 2), cap} & set(range(1, 12 if th else 8))):
            for i, c in enumerate(ch): J(f"update_capacity {cap}->{nc} #{i}", lambda: mk(False), h_update(cap, nc, c))
    for n in range(4 if th else 3):
        for m in range(4 if th else 3): J(f"set operations {n} {m}", mkset, h_set(n, m))
    ctx.prove_all(jobs)

def native(ctx, rounds):
    drv = os.path.join(runner.ROOT, "native", "map_drv.c")
    exe = ctx.cc("map_drv", [drv] + [os.path.join(runner.REPO, f) for f in FILES], flags=["-fsanitize=undefined", "-fno-sanitize-recover=undefined"])
    rc, out, err = ctx.run([exe, str(runner.SEED), str(rounds)], tmo=200)
    ctx.bounded.append({"what": "native map/set driver against a reference map", "bound": f"{rounds} random histories", "result": str(rc)})
    if rc != 0: return f"failing operation history on the real src/map, src/set (driver /verif/native/map_drv.c, seed {runner.SEED}):\n{out[-3000:]}\n{err[-3000:]}"
def search(ctx, failed, struct): return native(ctx, 20000 if runner.TIER == "quick" else 100000)
def standin(ctx): return native(ctx, 3000 if runner.TIER == "quick" else 50000)
TRUSTED = ["CVV generator (/verif/cvv), clang 18 front end, z3/cvc5", "key and value callbacks: hash is a non-negative function of the key's content, compare is 0 exactly for equal content (proved for the integer and string keys used), copy/delete as in C01", "malloc never fails"]
ASSUMPTIONS = ["BOUNDED in table capacity: each map function is checked on every table of capacity 1, 3, 5 (thorough: up to 7) that satisfies the probe-chain invariant, whatever the keys, values, hashes and removal marks; histories are unbounded by induction over that invariant up to that capacity",
               "BOUNDED in set size: set operations on sets of up to 2 (thorough 3) items, over the map contract"]
LEVEL = "other"
EXPLANATION = "contracts of every map and set function discharged for every table satisfying the invariant, all keys, hashes and histories, table capacity bounded; native histories beyond the bound"
META = dict(technique="contract-based: pre/postconditions and the probe-chain table invariant of every map and set function, obligations from the real source discharged by z3; table capacity bounded",
            level_note="inductive invariant over all histories, keys and hash values, but only for the stated table capacities; native random histories beyond that")

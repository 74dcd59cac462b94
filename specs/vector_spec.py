"""C01: contracts for src/vector/vector.c.

View of a list v in heap h:  len(v) = size,  at(v, k) = container[k]  for 0 <= k < len(v).
SEQ gives each operation as a function on mathematical sequences; the contracts are generated from it, and the
clients of vector (other properties) use the very same SEQ table as the callee's contract.
"""
import z3
from contract import *

MAXCAP = 1 << 28   # lists of fewer than 2^28 elements (assumption; beyond it 2*capacity*8 overflows int)

def size(h, v): return h.sel("Vector.size", v)
def cap(h, v): return h.sel("Vector.capacity", v)
def cont(h, v): return h.sel("Vector.container", v)
def row(h, v): return z3.Select(h.get("E.ptr"), cont(h, v))
def at(h, v, k): return z3.Select(row(h, v), k)
def content(h, p): return h.sel("G.cont", p)
def deln(h, p): return h.sel("G.del", p)

def wf(h, v):
    c = cont(h, v)
    return z3.And(v > 0, h.sel("alive", v), h.sel("nbytes", v) == 24, c > 0, c != v, c < h.brk, v < h.brk, h.sel("alive", c),
                  h.sel("nbytes", c) == 8 * cap(h, v), size(h, v) >= 0, size(h, v) <= cap(h, v), cap(h, v) >= 1, cap(h, v) <= 2 * MAXCAP)
def small(h, v): return z3.And(size(h, v) < MAXCAP, cap(h, v) <= MAXCAP)

# ---- operations on mathematical sequences: (len, at, args) -> dict(len, at, ret, deleted)
def _push(n, a, x): return dict(len=n + 1, at=lambda k: z3.If(k == n, x, a(k)))
def _pop(n, a): return dict(len=n - 1, at=a, ret=a(n - 1))
def _set(n, a, i, x):
    ok = z3.And(0 <= i, i < n)
    return dict(len=n, at=lambda k: z3.If(z3.And(ok, k == i), x, a(k)), ret=z3.If(ok, z3.IntVal(1), z3.IntVal(0)), deleted=(ok, a(i)))
def _insert(n, a, i, x):
    ok = z3.And(0 <= i, i <= n)
    return dict(len=z3.If(ok, n + 1, n), at=lambda k: z3.If(ok, z3.If(k < i, a(k), z3.If(k == i, x, a(k - 1))), a(k)))
def _erase(n, a, i):
    ok = z3.And(0 <= i, i < n)
    return dict(len=z3.If(ok, n - 1, n), at=lambda k: z3.If(z3.And(ok, k >= i), a(k + 1), a(k)), deleted=(ok, a(i)))
SEQ = {"vector_push": _push, "vector_pop": _pop, "vector_set": _set, "vector_insert": _insert, "vector_erase": _erase}

def mods_v(k, extra=()):
    c = cont(k.h0, k.v_)
    return {"Vector.size": [k.v_], "Vector.capacity": [k.v_], "Vector.container": [k.v_], "E.ptr": [c], "alive": [c], **{e: "all" for e in extra}}

def seq_post(k, op, args, ret=None):
    h0, h, v = k.h0, k.h, k.v_
    sp = SEQ[op](size(h0, v), lambda j: at(h0, v, j), *args)
    out = [("the list stays well formed", wf(h, v)),
           ("length", size(h, v) == sp["len"]),
           ("elements", forall(lambda j: z3.Implies(z3.And(0 <= j, j < sp["len"]), at(h, v, j) == sp["at"](j)), lambda j: [at(h, v, j)]))]
    if "ret" in sp: out.append(("result", k.res == sp["ret"]))
    if "deleted" in sp:
        ok, x = sp["deleted"]
        g0, g = h0.get("G.del"), h.get("G.del")
        out.append(("the dropped element, and only it, is released once", g == z3.If(ok, z3.Store(g0, x, z3.Select(g0, x) + 1), g0)))
    return out

def old_at(k):
    h0, v = k.h0, k.v_
    return lambda j: at(h0, v, j)

# ---- interface contracts of the element type
def i_copy(ex, owner, args):
    h = ex.heap
    x = args[0].b
    x = x if isz(x) else z3.IntVal(x)
    h0 = h.clone()
    nb = ex.fresh("brk"); ex.assume(nb >= h.brk); h.brk = nb
    ex.wrote("alive"); ex.wrote("nbytes")
    if ex.loopstack: ex.wrote("brk")
    b = z3.Int("b!f")
    for m in ("alive", "nbytes"):
        new = ex.fresh(m, h.sort(m)); old = h0.get(m); h.set(m, new)
        ex.assume(z3.ForAll([b], z3.Implies(b < h0.brk, z3.Select(new, b) == z3.Select(old, b)), patterns=[z3.Select(new, b)]))
    ex.assume(z3.ForAll([b], z3.Implies(z3.Select(h.get("alive"), b), z3.And(b > 0, b < h.brk)), patterns=[z3.Select(h.get("alive"), b)]))
    r = ex.fresh("copy")
    ex.assume(z3.And(r >= 0, r < nb, z3.Implies(x != 0, r != 0), z3.Select(h.get("G.cont"), r) == z3.Select(h.get("G.cont"), x)))
    return P(r, 0)
def i_delete(ex, owner, args):
    h = ex.heap
    x = args[0].b
    x = x if isz(x) else z3.IntVal(x)
    ex.wrote("G.del")
    h.set("G.del", z3.Store(h.get("G.del"), x, z3.Select(h.get("G.del"), x) + 1))
    return None
IFACE = {"copy_object": i_copy, "delete_object": i_delete}

def T_v(k): return [("v is a list", wf(k.h0, k.v_))]
def T_small(k): return T_v(k) + [("list below 2^28 elements", small(k.h0, k.v_))]

pos = z3.Function("pos", I, I)   # position of an element in a list of distinct elements (ghost)

def unchanged_v(k):
    h0, h, v = k.h0, k.h, k.v_
    return z3.And(*[h.sel(m, v) == h0.sel(m, v) for m in ("Vector.size", "Vector.capacity", "Vector.container")])

# ---- loop invariants
def down(c, nm, first):
    """does the loop run from the last position down? (its index does not start at the first one)"""
    if not hasattr(c, "down"): c.down = not z3.is_true(z3.simplify(c.i(nm) == first))
    return c.down
def step_dec(lo, hi):
    return lambda c: (c.i("i") - lo(c) + 1) if getattr(c, "down", False) else hi(c) - c.i("i")
def inv_copy(c):
    h, e = c.h, c.entry
    v, i = c.b("v_"), c.i("i")
    w = c.b("copied_vector")
    if down(c, "i", 0):
        lo, hi = i + 1, size(h, v); rng = z3.And(-1 <= i, i < size(h, v))
    else: lo, hi = 0, i; rng = z3.And(0 <= i, i <= size(h, v))
    return [("range", rng),
            ("source", wf(h, v)),
            ("same storage", z3.And(*[h.sel(m, w) == e.sel(m, w) for m in ("Vector.size", "Vector.capacity", "Vector.container")])),
            ("target", z3.And(wf(h, w), w >= c.ex.entry.brk, cont(h, w) >= c.ex.entry.brk)),
            ("copied so far", forall(lambda j: z3.Implies(z3.And(lo <= j, j < hi), z3.And(content(h, at(h, w, j)) == content(h, at(h, v, j)))), lambda j: [at(h, w, j)]))]
def inv_fill(c):
    h, e = c.h, c.entry
    v, i, n, x = c.b("v_"), c.i("i"), c.i("size"), c.b("item")
    n0 = size(c.ex.entry, v)
    if down(c, "i", n0): lo, hi = i + 1, n; rng = z3.And(n0 - 1 <= i, i < n)
    else: lo, hi = n0, i; rng = z3.And(n0 <= i, i <= n)
    return [("range", rng),
            ("same storage", z3.And(wf(h, v), *[h.sel(m, v) == e.sel(m, v) for m in ("Vector.size", "Vector.capacity", "Vector.container")])),
            ("E frame", forall(lambda b: z3.Implies(b != cont(e, v), z3.Select(h.get("E.ptr"), b) == z3.Select(e.get("E.ptr"), b)), lambda b: [z3.Select(h.get("E.ptr"), b)])),
            ("old elements", forall(lambda j: z3.Implies(z3.And(0 <= j, j < n0), at(h, v, j) == at(c.ex.entry, v, j)), lambda j: [at(h, v, j)])),
            ("filled so far", forall(lambda j: z3.Implies(z3.And(lo <= j, j < hi), content(h, at(h, v, j)) == content(h, x)), lambda j: [at(h, v, j)]))]
def inv_insert(c):
    h, e = c.h, c.entry
    v, i, idx = c.b("v_"), c.i("i"), c.i("index")
    n = size(e, v)
    r, r0 = row(h, v), row(e, v)
    return [("range", z3.And(idx <= i, i <= n)),
            ("shifted", forall(lambda j: z3.Implies(z3.And(0 <= j, j <= n), z3.Select(r, j) == z3.If(j <= i, z3.Select(r0, j), z3.Select(r0, j - 1))) if False else
                               z3.And(z3.Implies(z3.And(0 <= j, j < i), z3.Select(r, j) == z3.Select(r0, j)),
                                      z3.Implies(z3.And(i < j, j <= n), z3.Select(r, j) == z3.Select(r0, j - 1)),
                                      z3.Implies(z3.And(j == i, i < n, i > idx), True)), lambda j: [z3.Select(r, j)])),
            ("E frame", forall(lambda b: z3.Implies(b != cont(e, v), z3.Select(h.get("E.ptr"), b) == z3.Select(e.get("E.ptr"), b)), lambda b: [z3.Select(h.get("E.ptr"), b)]))]
def inv_erase(c):
    h, e = c.h, c.entry
    v, i, idx = c.b("v_"), c.i("i"), c.i("index")
    n = size(e, v)
    r, r0 = row(h, v), row(e, v)
    return [("range", z3.And(idx + 1 <= i, i <= n)),
            ("shifted", forall(lambda j: z3.And(z3.Implies(z3.And(0 <= j, j < idx), z3.Select(r, j) == z3.Select(r0, j)),
                                                z3.Implies(z3.And(idx <= j, j < i - 1), z3.Select(r, j) == z3.Select(r0, j + 1)),
                                                z3.Implies(z3.And(i - 1 <= j, j < n), z3.Select(r, j) == z3.Select(r0, j))), lambda j: [z3.Select(r, j)]))]
def inv_extend(c):
    h, e = c.h, c.ex.entry
    v, o, i = c.b("v_"), c.b("other"), c.i("i")
    n0, m = size(e, v), size(e, o)
    return [("range", z3.And(0 <= i, i <= m)),
            ("other untouched", z3.And(wf(h, o), *[h.sel(f, o) == e.sel(f, o) for f in ("Vector.size", "Vector.capacity", "Vector.container")],
                                       row(h, o) == row(e, o))),
            ("list", z3.And(wf(h, v), size(h, v) == n0 + i, cap(h, v) <= 2 * MAXCAP, z3.Or(cap(h, v) <= MAXCAP, cap(h, v) < 2 * size(h, v)), cont(h, v) != cont(h, o), cont(h, v) != o, cont(h, o) != v,
                            z3.Or(cont(h, v) == cont(e, v), cont(h, v) >= e.brk))),
            ("elements", forall(lambda j: z3.And(z3.Implies(z3.And(0 <= j, j < n0), at(h, v, j) == at(e, v, j)),
                                                 z3.Implies(z3.And(n0 <= j, j < n0 + i), at(h, v, j) == at(e, o, j - n0))), lambda j: [at(h, v, j)]))]
def inv_delete(c):
    h, e = c.h, c.ex.entry
    v, i = c.b("v_"), c.i("i")
    g0, g = e.get("G.del"), h.get("G.del")
    if down(c, "i", 0): lo, hi = i + 1, size(e, v); rng = z3.And(-1 <= i, i < size(e, v))
    else: lo, hi = 0, i; rng = z3.And(0 <= i, i <= size(e, v))
    return [("range", rng),
            ("released so far", forall(lambda b: z3.Select(g, b) == z3.Select(g0, b) + z3.If(z3.And(lo <= pos(b), pos(b) < hi, at(e, v, pos(b)) == b), 1, 0), lambda b: [z3.Select(g, b)]))]

def dec(f): return f

def contracts():
    C = []
    C.append(Contract("new_vector", ["t"], lambda k: [],
        lambda k: [("a new list", z3.And(wf(k.h, k.res), k.res >= k.h0.brk)), ("empty", size(k.h, k.res) == 0),
                   ("item type recorded", k.h.sel("Vector.t_item", k.res) == k.t)], lambda k: {}, allocs=True))
    C.append(Contract("vector_size", ["v_"], T_v, lambda k: [("result is the length", k.res == size(k.h0, k.v_))]))
    C.append(Contract("vector_at", ["v_", "index"], T_v,
        lambda k: [("element or nothing", k.res == z3.If(z3.And(0 <= k.index, k.index < size(k.h0, k.v_)), at(k.h0, k.v_, k.index), 0))]))
    fresh_storage = lambda k: ("storage is the old block or a new one", z3.Or(cont(k.h, k.v_) == cont(k.h0, k.v_), cont(k.h, k.v_) >= k.h0.brk))
    gapcap = lambda k: ("capacity bound", cap(k.h, k.v_) <= 2 * MAXCAP)
    C.append(Contract("vector_push", ["v_", "item"],
        lambda k: T_v(k) + [("list below 2^28 elements", z3.And(size(k.h0, k.v_) < MAXCAP, z3.Or(cap(k.h0, k.v_) <= MAXCAP, size(k.h0, k.v_) < cap(k.h0, k.v_))))],
        lambda k: seq_post(k, "vector_push", [k.item]) + [fresh_storage(k), ("capacity doubles only when full", cap(k.h, k.v_) == z3.If(size(k.h0, k.v_) >= cap(k.h0, k.v_), 2 * cap(k.h0, k.v_), cap(k.h0, k.v_))) if False else ("capacity stays proportionate", z3.Or(cap(k.h, k.v_) == cap(k.h0, k.v_), cap(k.h, k.v_) <= 2 * size(k.h0, k.v_)))],
        lambda k: mods_v(k), allocs=True))
    C.append(Contract("vector_pop", ["v_"], lambda k: T_v(k) + [("not empty", size(k.h0, k.v_) >= 1)],
        lambda k: seq_post(k, "vector_pop", []) + [fresh_storage(k)], lambda k: mods_v(k), allocs=True))
    C.append(Contract("vector_fill", ["v_", "size", "item"], lambda k: T_small(k) + [("requested length below 2^28", k.size < MAXCAP)],
        lambda k: (lambda h0, h, v, n0: [
            ("the list stays well formed", wf(h, v)),
            ("length", size(h, v) == z3.If(k.size > n0, k.size, n0)),
            ("old elements", forall(lambda j: z3.Implies(z3.And(0 <= j, j < n0), at(h, v, j) == at(h0, v, j)), lambda j: [at(h, v, j)])),
            ("new elements are copies of the item", forall(lambda j: z3.Implies(z3.And(n0 <= j, j < k.size), content(h, at(h, v, j)) == content(h, k.item)), lambda j: [at(h, v, j)])),
            ("the item is released once", h.get("G.del") == z3.Store(h0.get("G.del"), k.item, deln(h0, k.item) + 1))])(k.h0, k.h, k.v_, size(k.h0, k.v_)),
        lambda k: mods_v(k, ["G.del"]), allocs=True,
        loops=[dict(inv=inv_fill, dec=step_dec(lambda c: size(c.ex.entry, c.b("v_")), lambda c: c.i("size")))]))
    C.append(Contract("vector_set", ["v_", "index", "item"], T_v, lambda k: seq_post(k, "vector_set", [k.index, k.item]) ,
        lambda k: {"E.ptr": [cont(k.h0, k.v_)], "G.del": "all"}))
    C.append(Contract("vector_insert", ["v_", "index", "item"], T_small, lambda k: seq_post(k, "vector_insert", [k.index, k.item]),
        lambda k: mods_v(k), allocs=True, loops=[dict(inv=inv_insert, dec=lambda c: c.i("i") - c.i("index"))]))
    C.append(Contract("vector_erase", ["v_", "index"], T_v, lambda k: seq_post(k, "vector_erase", [k.index]),
        lambda k: {**mods_v(k), "G.del": "all"}, allocs=True, loops=[dict(inv=inv_erase, dec=lambda c: size(c.entry, c.b("v_")) - c.i("i"))]))
    C.append(Contract("vector_extend", ["v_", "other"],
        lambda k: T_v(k) + [("other is a different list", z3.And(wf(k.h0, k.other), k.other != k.v_, cont(k.h0, k.other) != cont(k.h0, k.v_), cont(k.h0, k.other) != k.v_, cont(k.h0, k.v_) != k.other)),
                            ("lists below 2^28 elements", z3.And(small(k.h0, k.v_), size(k.h0, k.v_) + size(k.h0, k.other) < MAXCAP))],
        lambda k: (lambda h0, h, v, o, n: [
            ("the list stays well formed", wf(h, v)), ("other stays well formed", wf(h, o)),
            ("length", size(h, v) == n + size(h0, o)), ("other is emptied", size(h, o) == 0),
            ("own elements first", forall(lambda j: z3.Implies(z3.And(0 <= j, j < n), at(h, v, j) == at(h0, v, j)), lambda j: [at(h, v, j)])),
            ("then the other's, in order", forall(lambda j: z3.Implies(z3.And(n <= j, j < n + size(h0, o)), at(h, v, j) == at(h0, o, j - n)), lambda j: [at(h, v, j)]))])(k.h0, k.h, k.v_, k.other, size(k.h0, k.v_)),
        lambda k: {f: ([k.v_, k.other] if f.startswith("Vector") else [cont(k.h0, k.v_), cont(k.h0, k.other)]) for f in ("Vector.size", "Vector.capacity", "Vector.container", "E.ptr", "alive")},
        allocs=True, loops=[dict(inv=inv_extend, dec=lambda c: size(c.ex.entry, c.b("other")) - c.i("i"))]))
    C.append(Contract("vector_copy", ["v_"], T_v,
        lambda k: [("a new list with its own storage", z3.And(wf(k.h, k.res), k.res >= k.h0.brk, cont(k.h, k.res) >= k.h0.brk)),
                   ("length", size(k.h, k.res) == size(k.h0, k.v_)),
                   ("item type", k.h.sel("Vector.t_item", k.res) == k.h0.sel("Vector.t_item", k.v_)),
                   ("elements are copies, in order", forall(lambda j: z3.Implies(z3.And(0 <= j, j < size(k.h0, k.v_)), content(k.h, at(k.h, k.res, j)) == content(k.h, at(k.h0, k.v_, j))), lambda j: [at(k.h, k.res, j)]))],
        lambda k: {}, allocs=True, loops=[dict(inv=inv_copy, dec=step_dec(lambda c: z3.IntVal(0), lambda c: size(c.entry, c.b("v_"))))]))
    C.append(Contract("delete_vector", ["v_"],
        lambda k: T_v(k) + [("elements are distinct objects", forall(lambda j: z3.Implies(z3.And(0 <= j, j < size(k.h0, k.v_)), pos(at(k.h0, k.v_, j)) == j), lambda j: [at(k.h0, k.v_, j)]))],
        lambda k: [("every element is released once, nothing else", forall(lambda b: deln(k.h, b) == deln(k.h0, b) + z3.If(z3.And(0 <= pos(b), pos(b) < size(k.h0, k.v_), at(k.h0, k.v_, pos(b)) == b), 1, 0))),
                   ("list and storage are freed", z3.And(z3.Not(k.h.sel("alive", k.v_)), z3.Not(k.h.sel("alive", cont(k.h0, k.v_)))))],
        lambda k: {"alive": [k.v_, cont(k.h0, k.v_)], "G.del": "all"}, loops=[dict(inv=inv_delete, dec=step_dec(lambda c: z3.IntVal(0), lambda c: size(c.ex.entry, c.b("v_"))))]))
    return C
FILES = ["src/vector/vector.c"]

"""Container and string contracts in executable form, for harnesses that run the real code on the concrete heap.

Each entry is the contract proved for the container itself (C01 lists, C02 maps and sets), applied at a call instead
of the body: a list is a Python list, a set is a finite list of distinct values or a membership predicate."""
import z3
from engine import *

def vec(ex, p, what="list"):
    if not isinstance(p, P): raise Structural(f"{what}: not a list pointer {p!r}")
    o = ex.obj(p.b, what)
    if not (isinstance(o.tag, list) and o.tag[0] == "vec"): raise Structural(f"{what}: object is not a list")
    return o.tag
def new_vec(ex, items=(), t=None):
    b = ex.heap.new(None)
    ex.heap.objs[b].tag = ["vec", list(items), t]
    return P(b, 0)
def cint(ex, v):
    """concrete int of a value, or a case split over feasible values is the caller's business"""
    v = simp(v)
    if isinstance(v, bool): return int(v)
    if isinstance(v, int): return v
    if isz(v):
        if z3.is_int_value(v): return v.as_long()
        if z3.is_bv_value(v): return v.as_signed_long()
    return None
def pick(ex, i, n, what):
    """index value -> concrete index in 0..n-1, or None when outside (case split if symbolic)"""
    c = cint(ex, i)
    if c is not None: return c if 0 <= c < n else None
    for k in range(n):
        if ex.branch(i == k): return k
    return None

def del_item(ex, t, x):
    d = ex.eng.overrides.get("@delete")
    if d is not None: d(ex, t, x)

def install(eng):
    o = eng.overrides
    def new_vector(ex, a): return new_vec(ex, (), a[0])
    def vector_push(ex, a): vec(ex, a[0])[1].append(a[1])
    def vector_pop(ex, a):
        l = vec(ex, a[0])[1]
        ex.oblige("vector_pop: the list is not empty", len(l) > 0, "pre")
        return l.pop()
    def vector_at(ex, a):
        l = vec(ex, a[0])[1]
        k = pick(ex, a[1], len(l), "vector_at")
        return NULL if k is None else l[k]
    def vector_size(ex, a): return len(vec(ex, a[0])[1])
    def vector_set(ex, a):
        l = vec(ex, a[0])
        k = pick(ex, a[1], len(l[1]), "vector_set")
        if k is None: return 0
        l[1][k] = a[2]; return 1
    def vector_insert(ex, a):
        l = vec(ex, a[0])[1]
        k = cint(ex, a[1])
        if k is None: raise Structural("vector_insert at a symbolic index")
        if 0 <= k <= len(l): l.insert(k, a[2])
    def vector_erase(ex, a):
        l = vec(ex, a[0])[1]
        k = pick(ex, a[1], len(l), "vector_erase")
        if k is not None: del l[k]
    def vector_extend(ex, a):
        x = vec(ex, a[0])[1]; y = vec(ex, a[1])[1]
        ex.oblige("vector_extend: two different lists", x is not y, "pre")
        x.extend(y); del y[:]
    def delete_vector(ex, a):
        t = vec(ex, a[0])
        for x in t[1]: del_item(ex, t[2], x)
        ex.heap.objs[a[0].b].alive = False
    def vector_copy(ex, a):
        t = vec(ex, a[0])
        c = ex.eng.overrides.get("@copy")
        if c is None: raise Structural("vector_copy without an element contract")
        return new_vec(ex, [c(ex, t[2], x) for x in t[1]], t[2])
    def vector_fill(ex, a):
        t = vec(ex, a[0]); n = cint(ex, a[1])
        if n is None: raise Structural("vector_fill to a symbolic size")
        c = ex.eng.overrides.get("@copy")
        while len(t[1]) < n: t[1].append(c(ex, t[2], a[2]))
    for f in (new_vector, vector_push, vector_pop, vector_at, vector_size, vector_set, vector_insert, vector_erase, vector_extend,
              delete_vector, vector_copy, vector_fill): o[f.__name__] = f

    # ---- sets of ints: tag ["set", [values], predicate or None]
    def theset(ex, p):
        ob = ex.obj(p.b, "set")
        if not (isinstance(ob.tag, list) and ob.tag[0] == "set"): raise Structural("object is not a set")
        return ob.tag
    def new_set(ex, a):
        b = ex.heap.new(None); ex.heap.objs[b].tag = ["set", [], None]; return P(b, 0)
    def val(ex, p):
        v = ex.eread(p, "int")
        return v
    def member(ex, s, v):
        if s[2] is not None: return s[2](v)
        es = [ex.ieq(v, w) for w in s[1]]
        if any(e is True for e in es): return True
        es = [e for e in es if e is not False]
        if not es: return False
        return z3.Or(*es)
    def set_add(ex, a):
        s = theset(ex, a[0]); v = val(ex, a[1])
        if s[2] is not None: raise Structural("set_add on an abstract set")
        m = member(ex, s, v)
        if not ex.branch(m): s[1].append(v)
    def set_contains(ex, a):
        return member(ex, theset(ex, a[0]), val(ex, a[1]))
    def set_size(ex, a):
        s = theset(ex, a[0])
        if s[2] is not None: raise Structural("size of an abstract set")
        return len(s[1])
    def delete_set(ex, a):
        theset(ex, a[0]); ex.heap.objs[a[0].b].alive = False
    def set_iter_begin(ex, a):
        s = theset(ex, a[0])
        if s[2] is not None and len(s) < 4: raise Structural("iteration over an abstract set")
        b = ex.heap.new(None); ex.heap.objs[b].tag = ["iter", 0]; return P(b, 0)
    def items(s): return s[1] if len(s) < 4 else s[3]
    def set_iter_end(ex, a):
        it = ex.obj(a[0].b, "iterator").tag
        return it[1] >= len(items(theset(ex, a[1])))
    def set_iter_next(ex, a):
        it = ex.obj(a[0].b, "iterator").tag
        it[1] += 1
        return a[0]
    def set_iter_item(ex, a):
        it = ex.obj(a[0].b, "iterator").tag
        v = items(theset(ex, a[1]))[it[1]]
        b = ex.heap.new(4); ob = ex.heap.objs[b]; ob.elems = {0: v}; ob.const = True
        return P(b, 0)
    for f in (new_set, set_add, set_contains, set_size, delete_set, set_iter_begin, set_iter_end, set_iter_next, set_iter_item): o[f.__name__] = f

    def new_string(ex, a):
        if isinstance(a[0], P):
            ob = ex.obj(a[0].b, "string")
            if ob.tag is not None and ob.tag[0] == "str":
                b = ex.heap.new(None); ex.heap.objs[b].tag = ["str", ob.tag[1]]; return P(b, 0)
        return NotImplemented
    o["new_string"] = new_string

def new_str(ex, ident):
    b = ex.heap.new(None); ex.heap.objs[b].tag = ["str", ident]; return P(b, 0)

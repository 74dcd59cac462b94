"""Contract of the hash map (C02) in executable form: a map is a finite list of (key id, key, value), keys pairwise different."""
import z3
from engine import *

def kid(ex, p):
    """identity of a key's content: concrete for concrete strings and ints, symbolic otherwise"""
    if isinstance(p, GPtr): return ("s", cstr(ex, p))
    o = ex.obj(p.b, "key")
    if isinstance(o.tag, list) and o.tag[0] in ("id", "str"): return o.tag[1]
    if o.elems and isinstance(o.elems.get(0), int) and o.nbytes == 4 and len(o.elems) == 1: return ("i", o.elems[0])
    if o.elems: return ("s", cstr(ex, p))
    raise Structural("key without content")
def same(ex, a, b):
    if isz(a) or isz(b):
        if isz(a) and isz(b): return ex.ieq(a, b)
        return False
    return a == b
def amap(ex, p):
    o = ex.obj(p.b, "map")
    if not (isinstance(o.tag, list) and o.tag[0] == "map"): raise Structural("object is not a map")
    return o.tag
def new_amap(ex, items=(), tk=None, tv=None):
    b = ex.heap.new(None); ex.heap.objs[b].tag = ["map", list(items), tk, tv]; return P(b, 0)
def find(ex, m, k):
    for i, (j, kp, v) in enumerate(m[1]):
        if ex.branch(same(ex, j, k)): return i
    return None
def drop(ex, t, x):
    if isinstance(t, P):
        f = ex.obj(t.b, "type").fields.get("delete_object")
        if f is not None and isinstance(x, P): ex.call(f, [x], None)
    elif isinstance(t, GPtr) and isinstance(t.data, dict):
        ex.call(t.data["delete_object"], [x], None)
def install(eng):
    o = eng.overrides
    def new_map(ex, a): return new_amap(ex, (), a[0], a[1])
    def map_get_with_default(ex, a):
        m = amap(ex, a[0]); i = find(ex, m, kid(ex, a[1]))
        return a[2] if i is None else m[1][i][2]
    def map_get(ex, a): return map_get_with_default(ex, [a[0], a[1], NULL])
    def map_contains(ex, a):
        m = amap(ex, a[0]); return int(find(ex, m, kid(ex, a[1])) is not None)
    def map_add(ex, a):
        m = amap(ex, a[0]); k = kid(ex, a[1]); i = find(ex, m, k)
        if i is None: m[1].append((k, a[1], a[2]))
        else:
            _, kp, v = m[1][i]
            m[1][i] = (k, a[1], a[2])
            drop(ex, m[2], kp); drop(ex, m[3], v)
    def map_remove(ex, a):
        m = amap(ex, a[0]); i = find(ex, m, kid(ex, a[1]))
        if i is not None: del m[1][i]
    def delete_map(ex, a):
        m = amap(ex, a[0])
        for k, kp, v in m[1]: drop(ex, m[2], kp); drop(ex, m[3], v)
        ex.heap.objs[a[0].b].alive = False
    def map_iter_begin(ex, a):
        amap(ex, a[0]); b = ex.heap.new(None); ex.heap.objs[b].tag = ["miter", 0]; return P(b, 0)
    def it(ex, p):
        o = ex.obj(p.b, "map iterator")
        if not (isinstance(o.tag, list) and o.tag[0] == "miter"): raise Structural("not an iterator")
        return o.tag
    def map_iter_next(ex, a):
        t = it(ex, a[0]); n = len(amap(ex, a[1])[1])
        if t[1] < n: t[1] += 1
        return a[0]
    def map_iter_end(ex, a):
        t = it(ex, a[0]); e = t[1] >= len(amap(ex, a[1])[1])
        if e: ex.heap.objs[a[0].b].alive = False
        return int(e)
    def map_iter_exit(ex, a): it(ex, a[0]); ex.heap.objs[a[0].b].alive = False
    def map_iter_key(ex, a):
        t = it(ex, a[0]); m = amap(ex, a[1])
        return m[1][t[1]][1] if t[1] < len(m[1]) else NULL
    def map_iter_value(ex, a):
        t = it(ex, a[0]); m = amap(ex, a[1])
        return m[1][t[1]][2] if t[1] < len(m[1]) else NULL
    def map_copy(ex, a):
        m = amap(ex, a[0])
        def cp(t, x):
            f = t.data["copy_object"] if isinstance(t, GPtr) else ex.obj(t.b, "type").fields["copy_object"]
            return ex.call(f, [x], None)
        return new_amap(ex, [(k, cp(m[2], kp), cp(m[3], v)) for k, kp, v in m[1]], m[2], m[3])
    for f in (new_map, map_get, map_get_with_default, map_contains, map_add, map_remove, delete_map, map_copy, map_iter_begin, map_iter_next,
              map_iter_end, map_iter_exit, map_iter_key, map_iter_value): o[f.__name__] = f

"""C strings and character buffers of any length as sequences of pieces (mode "int", concrete heap).

A character buffer's content is a list of pieces: characters (numbers or terms) and opaque pieces ("opq", identity, length) of
symbolic length.  A position in the buffer is resolved to a boundary between pieces (proved with the path condition).  Writing
beyond the buffer's size and reading what was never written are obligations."""
import z3, re
import engine
from engine import *

def istext(o): return isinstance(o.tag, list) and o.tag[0] == "text"
class Text:
    """["text", pieces, terminated, zeros]: zeros = the buffer was filled with zeros up to here"""
def new_text(ex, pieces, nbytes=None, const=False):
    b = ex.heap.new(None); o = ex.heap.objs[b]
    o.tag = ["text", list(pieces), True, None]
    o.nbytes = simp(total(pieces) + 1) if nbytes is None else nbytes; o.const = const
    return P(b, 0)
def plen(p): return p[2] if isinstance(p, tuple) else 1
def total(ps):
    n = 0; e = None
    for p in ps:
        k = plen(p)
        if isinstance(k, int): n += k
        else: e = k if e is None else e + k
    return n if e is None else simp(e + n)
def eqn(ex, a, b):
    """are two positions equal on this path?"""
    if isinstance(a, int) and isinstance(b, int): return a == b
    d = simp(a - b)
    if isz(d) and z3.is_int_value(d): return d.as_long() == 0
    if isinstance(d, int): return d == 0
    return ex._chk(a != b) == z3.unsat
def totext(ex, b, what="text"):
    o = ex.obj(b, what)
    if istext(o): return o
    if o.tag is not None: raise Structural(f"not a character buffer: {o.tag}")
    ps = []; term = False
    if o.elems:
        i = 0
        while i in o.elems and o.elems[i] is not UNINIT:
            if isinstance(o.elems[i], int) and o.elems[i] == 0: term = True; break
            ps.append(o.elems[i]); i += 1
        z = i
        while term and o.elems.get(z) == 0 and isinstance(o.elems.get(z), int): z += 1
        o.tag = ["text", ps, term, z if term else None]
    else: o.tag = ["text", [], False, None]
    o.elems = None
    return o
def find(ex, o, off):
    ps = o.tag[1]
    for k in range(len(ps), -1, -1):   # the last one: an empty piece lies before the position
        if eqn(ex, off, total(ps[:k])): return k
    return None
def pieces(ex, p):
    """content of the string at p"""
    if isinstance(p, GPtr):
        return [ord(c) for c in cstr(ex, p)]
    if not isinstance(p, P): raise Structural(f"string {p!r}")
    if isn0(p): ex.oblige("string is not null", False, "mem")
    o = totext(ex, p.b, "string")
    ex.oblige("string is terminated", o.tag[2], "mem")
    k = find(ex, o, p.o)
    if k is None: raise Structural("string starts inside an opaque piece")
    return o.tag[1][k:]
def isn0(p): return isinstance(p.b, int) and p.b == 0
def lt(a, b):
    """a < b as a formula"""
    return a < b
def fits(ex, o, n, what):
    if o.nbytes is not None: ex.oblige(what, lt(n, o.nbytes) if isz(n) or isz(o.nbytes) else n < o.nbytes, "mem")
def put(ex, p, new, what="the text fits its buffer", keep=True):
    """write a terminated string at p"""
    o = totext(ex, p.b, "buffer"); ex.oblige("write to a read-only object", not o.const, "mem")
    k = find(ex, o, p.o)
    if k is None: raise Structural("write inside an opaque piece")
    ps = o.tag[1][:k] + list(new)
    fits(ex, o, total(ps), what)
    o.tag[1] = ps; o.tag[2] = True
class TextEx(Ex):
    def _t(s, p, qt, write):
        if not isinstance(p, P) or not isinstance(p.b, int) or p.b == 0 or p.b not in s.heap.objs: return None
        o = s.heap.objs[p.b]
        if istext(o): return s.obj(p.b, "character access")
        if o.tag is None and o.rec is None and not o.fields and not o.elems and s.tu.size_align(qt)[0] == 1 and write and (isz(o.nbytes) or isz(p.o)): return totext(s, p.b)
        if o.tag is None and isz(p.o) and s.tu.size_align(qt)[0] == 1 and o.elems: return totext(s, p.b)
        return None
    def eread(s, p, qt):
        o = s._t(p, qt, False)
        if o is None: return Ex.eread(s, p, qt)
        h = s.ghost.get("textread")
        if h is not None:
            r = h(s, p, o)
            if r is not None: return r
        k = find(s, o, p.o); ps = o.tag[1]
        if k is None: raise Structural("read inside an opaque piece")
        if k == len(ps):
            s.oblige("the character read was written", o.tag[2], "mem"); return 0
        if isinstance(ps[k], tuple):
            if eqn(s, ps[k][2], 0): raise Structural("empty piece")
            raise Structural(f"read of an opaque piece {ps[k][1]}")
        return sgn(ps[k])
    def ewrite(s, p, v, qt):
        o = s._t(p, qt, True)
        if o is None: return Ex.ewrite(s, p, v, qt)
        s.oblige("write to a read-only object", not o.const, "mem")
        k = find(s, o, p.o); ps = o.tag[1]
        fits(s, o, p.o, "array write in bounds")
        if k is None: raise Structural("write inside an opaque piece")
        isz0 = not s.ghost.get("binary") and (isinstance(v, int) and v == 0 or isz(v) and s._chk(v != 0) == z3.unsat)
        if isz0:
            o.tag[1] = ps[:k]; o.tag[2] = True; return
        if isz(v): s.ghost.setdefault("nonzero", True)
        if k < len(ps):
            if isinstance(ps[k], tuple): raise Structural("overwriting an opaque piece")
            o.tag[1] = ps[:k] + [v] + ps[k + 1:]; return
        o.tag[1] = ps + [v]
        z = o.tag[3]
        o.tag[2] = z is not None and (s._chk(z3.Not(lt(p.o + 1, z)) if isz(p.o) or isz(z) else z3.BoolVal(not p.o + 1 < z)) == z3.unsat)
def sgn(c): return c if not isinstance(c, int) else (c - 256 if c > 127 else c)
def format_pieces(ex, f, args):
    out = []; args = list(args); i = 0
    while i < len(f):
        c = f[i]
        if c != "%": out.append(ord(c)); i += 1; continue
        m = re.match(r"%(0?)(\d*)(ll|l|h|hh|z)?([a-z%])", f[i:])
        if not m: raise Structural("format " + f)
        i += m.end(); k = m.group(4)
        if k == "%": out.append(37); continue
        a = args.pop(0)
        if isz(a): 
            a2 = simp(a); a = a2.as_long() if isz(a2) and z3.is_int_value(a2) else a2
        if k == "s": out += pieces(ex, a); continue
        if k == "c":
            if isinstance(a, int) and a & 255 == 0: raise Structural("%c of zero")
            out.append(a); continue
        bits = 64 if m.group(3) in ("l", "ll", "z") else 32; sg = k in "di"
        if isinstance(a, int):
            a = Ex.wrap(a, ("int", bits, sg)); t = {"d": "%d", "i": "%d", "u": "%d", "x": "%x", "o": "%o", "X": "%X"}[k] % a
            if m.group(2): t = t.rjust(int(m.group(2)), "0" if m.group(1) else " ")
            out += [ord(x) for x in t]; continue
        if k == "o" and m.group(1) and m.group(2) == "3":
            ex.oblige("three octal digits hold the value", z3.And(a >= 0, a < 512), "vc")
            out += [48 + a / 64, 48 + (a / 8) % 8, 48 + a % 8]; continue
        if m.group(2): raise Structural("format " + f)
        ident = ("num", bits, k if k in "xXo" else "s" if sg else "u", a)
        key = str(ident); L = ex.ghost.setdefault("numlen", {}).get(key)
        if L is None:
            L = ex.fresh("digits"); ex.assume(z3.And(L >= 1, L <= {("s", 32): 11, ("u", 32): 10, ("s", 64): 20, ("u", 64): 20}.get((ident[2], bits), 22))); ex.ghost["numlen"][key] = L
        out.append(("opq", ident, L))
    return out
def same_ident(ex, a, b):
    if isinstance(a, tuple) and isinstance(b, tuple) and a and b and a[0] == b[0] == "num":
        if a[1:3] != b[1:3]:
            # a signed and an unsigned spelling of the same small value agree
            return False
        return a[3] == b[3] if not (isz(a[3]) or isz(b[3])) else z3.simplify(a[3] == b[3])
    return a == b
def same_text(ex, a, b):
    """formula: two contents are equal"""
    a, b = list(a), list(b); fs = []
    def lit(x): return not isinstance(x, tuple)
    if len(a) != len(b): return False
    for x, y in zip(a, b):
        if lit(x) != lit(y): return False
        if lit(x):
            if isinstance(x, int) and isinstance(y, int):
                if (x - y) % 256: return False
                continue
            fs.append((x - y) % 256 == 0)
        else:
            r = same_ident(ex, x[1], y[1])
            if r is False: return False
            if r is not True: fs.append(r)
    return z3.And(*fs) if fs else True
def show(ps): return "".join((chr(x & 255) if isinstance(x, int) else f"<{x}>" if not isinstance(x, tuple) else "{%s}" % (x[1],)) for x in ps)

def install(e):
    e.exclass = TextEx
    o = e.overrides
    def strlen(ex, a): return total(pieces(ex, a[0]))
    def strcpy(ex, a): put(ex, a[0], pieces(ex, a[1])); return a[0]
    def strcat(ex, a):
        old = pieces(ex, a[0]); put(ex, a[0], old + pieces(ex, a[1])); return a[0]
    def sprintf(ex, a):
        ps = format_pieces(ex, cstr(ex, a[1]), a[2:]); put(ex, a[0], ps); return total(ps)
    def snprintf(ex, a):
        ps = format_pieces(ex, cstr(ex, a[2]), a[3:]); ex.oblige("the text is not cut off", lt(total(ps), a[1]), "post"); put(ex, a[0], ps); return total(ps)
    def memset(ex, a):
        p, v, k = a
        if not (isinstance(v, int) and v == 0): return NotImplemented
        ob = ex.obj(p.b, "buffer")
        if ob.nbytes is not None: ex.oblige("memset in bounds", k <= ob.nbytes if isz(k) or isz(ob.nbytes) else k <= ob.nbytes, "mem")
        if not (isinstance(p.o, int) and p.o == 0): raise Structural("memset inside a buffer")
        ob.tag = ["text", [], True, k]; ob.elems = None; return p
    def calloc(ex, a):
        p = ex.malloc(a[0] * a[1] if not (isz(a[0]) or isz(a[1])) else simp(a[0] * a[1])); ex.heap.objs[p.b].tag = ["text", [], True, a[0]]; return p
    def realloc(ex, a):
        p, n = a
        if not isinstance(p, P) or isn0(p): return NotImplemented
        ob = ex.obj(p.b, "realloc")
        if ob.tag is None and not isz(n) and not isz(ob.nbytes): return NotImplemented
        ob = totext(ex, p.b)
        if not (isinstance(p.o, int) and p.o == 0): ex.oblige("realloc of an allocated block", False, "mem")
        t = total(ob.tag[1]); need = simp(t + 1) if ob.tag[2] and not ex.ghost.get("binary") else t
        ex.oblige("the text fits its reallocated buffer", need <= n, "mem")
        q = ex.malloc(n); ex.heap.objs[q.b].tag = ["text", list(ob.tag[1]), ob.tag[2], None]; ob.alive = False
        return q
    def new_string(ex, a): return new_text(ex, pieces(ex, a[0]))
    def strchr(ex, a):
        s = [x for x in pieces(ex, a[0])]
        if any(not isinstance(x, int) for x in s): raise Structural("strchr in a symbolic string")
        c = a[1]
        if ex.branch(ex.tobool(c % 256 == 0 if isz(c) else c % 256 == 0)): return new_text(ex, [], const=True)
        g = z3.Or(*[(c - x) % 256 == 0 for x in s]) if isz(c) else any((c - x) % 256 == 0 for x in s)
        if ex.branch(g): return new_text(ex, [c, ("opq", "rest", ex.fresh("rest"))], const=True)
        return NULL
    def strcmp(ex, a):
        x, y = pieces(ex, a[0]), pieces(ex, a[1])
        f = same_text(ex, x, y)
        if f is True: return 0
        if f is False:
            if any(isinstance(p, tuple) for p in x + y):
                r = ex.fresh("strcmp"); ex.assume(z3.And(r >= -255, r <= 255)); return r
            return 1
        return 0 if ex.branch(f) else 1
    o.update(strlen=strlen, strcpy=strcpy, strcat=strcat, sprintf=sprintf, snprintf=snprintf, memset=memset, calloc=calloc, realloc=realloc, new_string=new_string, strchr=strchr, strcmp=strcmp)

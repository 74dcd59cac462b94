"""The scanner against C's lexical grammar, for texts of any length and content.

The text is an uninterpreted function from positions to bytes with a symbolic length.  Each reader is executed on the text from
an arbitrary position; loops are cut: one iteration consumes exactly one element and appends exactly its value to the buffer, and
the reader leaves the loop exactly where the longest match ends.  The word tables are compared, entry by entry, with the C tables
below."""
import z3, os
import absx, absmap, objs, runner, text as T
from engine import *
from objs import rec, isn, opaque
from cast import TU
FILES = ["src/lexer/lexer.c", "src/lexer/reader.c", "src/lexer/util.c", "src/lexer/lexerret.c", "src/ctoken/ctoken.c", "src/literal/iliteral.c", "src/literal/sliteral.c", "src/error/error.c", "src/error/errint.c", "src/error/errstr.c", "src/common/util.c", "src/common/type.c"]
_tu = None
def tu():
    global _tu
    if _tu is None: _tu = TU([f for f in FILES if os.path.exists(os.path.join(runner.REPO, f))])
    return _tu
KW = "break case char continue default else enum for if int long return sizeof struct switch typedef unsigned void while".split()
PN = {"[": "LBRACKET", "]": "RBRACKET", "(": "LPAREN", ")": "RPAREN", "{": "LBRACE", "}": "RBRACE", ".": "DOT", "->": "ARROW", "++": "PLUS_PLUS", "--": "MINUS_MINUS", "&": "AND", "*": "ASTERISK", "+": "PLUS", "-": "MINUS", "~": "TILDE", "!": "EXCLAM", "/": "SLASH", "%": "PERCENT", "<": "LESS", ">": "GREATER", "<<": "LESS_LESS", ">>": "GREATER_GREATER", "<=": "LESS_EQUAL", ">=": "GREATER_EQUAL", "==": "EQUAL_EQUAL", "!=": "EXCLAM_EQUAL", "^": "CARET", "|": "VBAR", "&&": "AND_AND", "||": "VBAR_VBAR", "?": "QUESTION", ":": "COLON", ";": "SEMICOLON", "=": "EQUAL", "*=": "ASTERISK_EQUAL", "/=": "SLASH_EQUAL", "%=": "PERCENT_EQUAL", "+=": "PLUS_EQUAL", "-=": "MINUS_EQUAL", "<<=": "LESS_LESS_EQUAL", ">>=": "GREATER_GREATER_EQUAL", "&=": "AND_EQUAL", "^=": "CARET_EQUAL", "|=": "VBAR_EQUAL", ",": "COMMA"}
SUF = {}
for u in ("u", "U"):
    SUF[u] = "UNSIGNED_INT"
    for l in ("l", "L"):
        for a in (u + l, l + u): SUF[a] = "UNSIGNED_LONG"
        for a in (u + l + l, l + l + u): SUF[a] = "UNSIGNED_LONGLONG"
for l in ("l", "L"): SUF[l] = "LONG"; SUF[l + l] = "LONGLONG"
ESC = {"'": 39, '"': 34, "?": 63, "\\": 92, "a": 7, "b": 8, "f": 12, "n": 10, "r": 13, "t": 9, "v": 11}
def rng(c, a, b): return z3.And(c >= ord(a), c <= ord(b))
CLASS = {"nondigit": lambda c: z3.Or(c == 95, rng(c, "a", "z"), rng(c, "A", "Z")), "digit": lambda c: rng(c, "0", "9"), "oct": lambda c: rng(c, "0", "7"),
         "hex": lambda c: z3.Or(rng(c, "0", "9"), rng(c, "a", "f"), rng(c, "A", "F")), "space": lambda c: z3.Or(c == 32, z3.And(c >= 9, c <= 12))}
VALUE = {"digit": lambda c: c - 48, "oct": lambda c: c - 48, "hex": lambda c: z3.If(c <= 57, c - 48, z3.If(c >= 97, c - 87, c - 55))}
TABLE = {"keyword_map": {k: "CTOKEN_KEYWORD_" + k.upper() for k in KW}, "punctuator_map": {k: "CTOKEN_" + v for k, v in PN.items()}, "integer_suffix_map": {k: "INTEGER_" + v for k, v in SUF.items()}}
FIELD = {"nondigit_set": "nondigit", "white_space_set": "space", "octdigit_map": "oct", "digit_map": "digit", "hexdigit_map": "hex"}
def holds(ex, f):
    """is f valid on this path?"""
    return f is True or (f is not False and ex._chk(z3.Not(f)) == z3.unsat)
class L:
    def __init__(s, ex, at=None):
        s.ex = ex; s.E = ex.tu.enums; ex.ghost["lex"] = s
        s.N = ex.fresh("size"); s.i0 = ex.fresh("at"); ex.assume(z3.And(s.N >= 0, s.N < 2**26, s.i0 >= 0, s.i0 <= s.N))
        s.CH = z3.Function("char_at", z3.IntSort(), z3.IntSort()); s.known = {}
        f = {}
        for n in list(TABLE) + list(FIELD):
            b = ex.heap.new(None); ex.heap.objs[b].tag = ["lexmap", n]; f[n] = P(b, 0)
        b = ex.heap.new(None); ex.heap.objs[b].tag = ["content"]
        s.p = rec(ex, "Lexer", content=P(b, 0), content_index=s.i0, content_size=s.N, **f); s.o = ex.heap.objs[s.p.b]
        s.errors = 0
    @property
    def at(s): return s.o.fields["content_index"]
    def ch(s, i):
        """the byte at a position known to be inside the text"""
        i = simp(i); c = s.CH(i)
        if str(i) not in s.known: s.known[str(i)] = c; s.ex.assume(z3.And(c >= 1, c <= 255))
        return c
    def top(s, i): i = simp(i); return z3.If(i < s.N, s.ch(i), -1)
    def inside(s, i): return i < s.N
    def isa(s, cls, i): return z3.And(i < s.N, CLASS[cls](s.CH(simp(i))))
    def src(s, a, b): return ("opq", ("src", str(simp(a))), simp(b - a))
    def spell(s, a, w): return z3.And(*[s.CH(simp(a + k)) == ord(x) for k, x in enumerate(w)])
def lx(ex): return ex.ghost["lex"]
def same(ex, ps, want): return T.same_text(ex, ps, want)
def is_src(ex, ps, a, b):
    """formula: the content is the text between two positions"""
    w = lx(ex); n = simp(b - a)
    f = [T.total(ps) == n if isz(T.total(ps)) or isz(n) else z3.BoolVal(T.total(ps) == n)]; pos = a
    for p in ps:
        if isinstance(p, tuple):
            if p[1][0] != "src": return False
            f.append(z3.Int(p[1][1]) == pos if False else z3.BoolVal(True)); f.append(p[1][2] == pos if len(p[1]) > 2 else z3.BoolVal(False))
        else: f.append((p - w.CH(simp(pos))) % 256 == 0)
        pos = simp(pos + T.plen(p))
    return z3.And(*f)
def piece(a, b): return ("opq", ("src", str(simp(a)), simp(a)), simp(b - a))
def mk():
    e = Engine(tu(), mode="int", heap="conc"); objs.install(e); T.install(e); e.batch = True; o = e.overrides
    def get_content_top(ex, a):
        w = lx(ex); i = ex.obj(a[0].b, "lexer").fields["content_index"]
        if ex.branch(i < w.N): return w.ch(i)
        return -1
    def table(ex, p):
        t = ex.obj(p.b, "map").tag
        if not (isinstance(t, list) and t[0] == "lexmap"): raise Structural("not a map of the lexer")
        return t[1]
    def member(ex, a):
        n = table(ex, a[0])
        if n not in FIELD: raise Structural("membership in a word table")
        v = ex.eread(a[1], "int"); v = v if isz(v) else z3.IntVal(v)
        return CLASS[FIELD[n]](v)
    def word(ex, n, ps):
        """a word looked up in a table of words"""
        w = lx(ex); t = TABLE[n]
        if len(ps) == 1 and isinstance(ps[0], tuple):
            if ps[0][1][0] != "src" or len(ps[0][1]) < 3: raise Structural("word of unknown origin")
            a, ln = ps[0][1][2], ps[0][2]
            hit = lambda k: z3.And(ln == len(k), w.spell(a, k)); keys = sorted(t)
        elif any(isinstance(p, tuple) for p in ps):
            a = None; ln = T.total(ps); pos = 0; fs = []
            raise Structural("word in pieces")
        else:
            keys = [k for k in sorted(t) if len(k) == len(ps)]; hit = lambda k: z3.And(*[(p - ord(x)) % 256 == 0 for p, x in zip(ps, k)])
        hs = {k: hit(k) for k in keys}
        if not keys or not ex.branch(z3.Or(*hs.values())): return NULL
        for k in keys[:-1]:
            if ex.branch(hs[k]): break
        else: k = keys[-1]
        b = ex.heap.new(4); ob = ex.heap.objs[b]; ob.elems = {0: ex.tu.enums[t[k]]}; ob.const = True
        ex.ghost.setdefault("words", []).append((n, k)); return P(b, 0)
    def map_get(ex, a):
        n = table(ex, a[0])
        if n in TABLE: return word(ex, n, T.pieces(ex, a[1]))
        v = ex.eread(a[1], "int"); v = v if isz(v) else z3.IntVal(v)
        if not ex.branch(CLASS[FIELD[n]](v)): return NULL
        b = ex.heap.new(4); ob = ex.heap.objs[b]; ob.elems = {0: VALUE[FIELD[n]](v)}; ob.const = True; return P(b, 0)
    def map_contains(ex, a):
        n = table(ex, a[0])
        if n in TABLE: return int(not isn(word(ex, n, T.pieces(ex, a[1]))))
        return member(ex, a)
    def new_error(ex, a): lx(ex).errors += 1; return opaque(ex, "error", "error")
    o.update(get_content_top=get_content_top, set_contains=member, map_contains=map_contains, map_get=map_get, new_error=new_error)
    return e
def own_loops(ex, fn):
    ls = ex.eng.loop_order(fn)
    if len(ls) != 1: raise Structural(f"{fn}: {len(ls)} loops, an invariant for one")
    return {ls[0]: 0}
def buffer_cell(ex):
    """the pointer variable holding the buffer being filled"""
    for fr in reversed(ex.frames):
        cs = [c for c in fr["vars"].values() if isinstance(c.v, P) and c.v.b in ex.heap.objs and (T.istext(ex.heap.objs[c.v.b]) or (ex.heap.objs[c.v.b].tag is None and ex.heap.objs[c.v.b].rec is None))]
        if len(cs) == 1: return cs[0]
        if cs: break
    raise Structural("the buffer of the loop was not found")
def fill_spec(ex, w, start, mkpiece, elem, dec=True):
    """a loop that appends one value per element of the text to a growing buffer; the loop may look at the next character
    at its head (then that character may be held in a variable, with the scan in front of or behind it)"""
    g = {}
    def buf(): c = buffer_cell(ex); return T.totext(ex, c.v.b)
    def at(): return simp(w.at - g["off"]) if g["off"] else w.at
    def val(c): return c.v if isz(c.v) else z3.IntVal(c.v)
    def setup(c):
        g["off"] = 0; here = w.at; n = T.total(buf().tag[1])
        ints = [x for x in c.cells if x.name and isinstance(x.v, (int, z3.ArithRef)) and ex.tu.norm(x.qt)[0] == "int"]
        def holds_top(i): return [x for x in ints if holds(ex, val(x) == w.top(i))]
        prev = holds_top(simp(here - 1)) if holds(ex, here - start == n + 1) else []
        if prev: g["off"] = 1
        g["next"] = prev or holds_top(here)
    def inv(c):
        if "off" not in g: setup(c)
        o = buf(); n = T.total(o.tag[1]); ln, cap = c.i("length"), c.i("capacity"); A = at()
        return [("the length is the number of characters stored", ln == n), ("the capacity is the size of the buffer", cap == o.nbytes), ("room for one more character and the end", ln + 1 < cap),
                ("the capacity grows with the length", z3.Or(cap <= 4, cap <= 2 * (ln + 1))), ("the scan stays inside the text", z3.And(A >= start, A <= w.N)), ("one element per character at least", z3.And(n >= 0, n <= A - start))] + [
                ("the variable holds the next character", val(x) == w.top(A)) for x in g["next"]]
    def havoc(c):
        J = ex.fresh("J"); ex.assume(z3.And(J >= start, J <= w.N)); w.o.fields["content_index"] = simp(J + g["off"]); g["J"] = J
        cell = buffer_cell(ex); o = T.totext(ex, cell.v.b); b = ex.heap.new(None); nb = ex.heap.objs[b]; k = ex.fresh("cap"); p, n = mkpiece(J); ex.assume(n >= 0)
        nb.nbytes = k; nb.tag = ["text", [p], False, None]; o.alive = False; cell.v = P(b, 0); g["p"] = p; g["n"] = n
        c.L.cell("capacity").v = k; c.L.cell("length").v = n
        for x in g["next"]: x.v = w.top(J)
    def step(c):
        o = buf(); ps = o.tag[1]; J = g["J"]
        ok = len(ps) == 2 and ps[0] is g["p"]
        ex.oblige("an iteration appends exactly one character", ok, "inv")
        if ok: elem(J, at(), ps[1])
        ex.eng.reach.append(("loop iteration", list(ex.pc)))
    return dict(inv=inv, ptr=lambda c, x: x.v, havoc=havoc, step=step, dec=(lambda c: w.N - at()) if dec else None), g
def item(ex, r):
    o = ex.obj(r.b, "result").fields; return o["ctoken"], o["err"]
def token(ex, t): return ex.obj(t.b, "token").fields
def accept(ex, r, what):
    """the reader's result is a token and no error -> its fields"""
    t, e = item(ex, r); ok = isn(e) and not isn(t) and lx(ex).errors == 0
    ex.oblige(f"{what}: a token and no error", ok, "post")
    return token(ex, t) if ok else None
def reject(ex, r, what):
    t, e = item(ex, r); ex.oblige(f"{what}: an error and no token", isn(t) and not isn(e), "post")
def end_at(ex, e, what): ex.oblige(f"{what}: scanning goes on right behind it", lx(ex).at == e, "post")
def tell(ex, what): ex.eng.reach.append((what, list(ex.pc)))
def idc(w, i): return z3.And(i < w.N, z3.Or(CLASS["nondigit"](w.CH(simp(i))), CLASS["digit"](w.CH(simp(i)))))
# ---------------------------------------------------------------- units
def h_top(ex):
    w = L(ex); ex.eng.overrides.pop("get_content_top", None); i = w.i0
    ex.ghost["byte"] = w
    r = ex.call(FnVal("get_content_top"), [w.p], None); r = r if isz(r) else z3.IntVal(r)
    ex.oblige("the next character, or the end of the text", r == w.top(i), "post"); end_at(ex, i, "looking ahead"); tell(ex, "top")
def mk_top():
    e = mk(); cls = e.exclass
    class TopEx(cls):
        def eread(s, p, qt):
            if isinstance(p, P) and isinstance(p.b, int) and p.b in s.heap.objs and s.heap.objs[p.b].tag == ["content"]:
                w = lx(s); s.oblige("read inside the text", z3.And(p.o >= 0, p.o <= w.N), "mem")
                c = z3.If(p.o < w.N, w.ch(p.o), 0); return z3.If(c > 127, c - 256, c) if s.tu.norm(qt)[2] else c
            return cls.eread(s, p, qt)
    e.exclass = TopEx; return e
def h_new(ex):
    w = L(ex); made = {}
    for n in list(TABLE) + list(FIELD):
        def f(ex, a, n=n):
            b = ex.heap.new(None); ex.heap.objs[b].tag = ["lexmap", n]; made[n] = b; return P(b, 0)
        ex.eng.overrides["new_" + n] = f
    n = ex.fresh("n"); ex.assume(z3.And(n >= 0, n < 2**26)); s = T.new_text(ex, [("opq", "content", n)])
    r = ex.obj(ex.call(FnVal("new_lexer"), [s], None).b, "lexer").fields
    ex.oblige("a new scanner starts at the first character of the whole text", z3.And(z3.BoolVal(isinstance(r["content"], P) and r["content"].b == s.b and r["content_index"] == 0), r["content_size"] == n), "post")
    ex.oblige("a new scanner has its word tables", all(isinstance(r[k], P) and r[k].b == made.get(k) for k in list(TABLE) + list(FIELD)), "post"); tell(ex, "new")
def table_unit(fn, want, kind):
    def h(ex):
        r = ex.call(FnVal(fn), [], None); o = ex.obj(r.b, "table").tag; E = ex.tu.enums
        if kind == "set": got = set(o[1]) - {0}; ok = got == want
        else:
            got = {}
            for k, kp, v in o[1]: got[k[1]] = ex.obj(v.b, "value").elems[0]
            ok = got == {k: E[x] if isinstance(x, str) else x for k, x in want.items()}
        ex.oblige(f"the table holds exactly its C entries", ok, "post", extra=str(got)); tell(ex, fn)
    return h
def mk_table():
    e = Engine(tu(), mode="int", heap="conc"); objs.install(e); e.batch = True; return e
def h_space(ex):
    w = L(ex); i0 = w.i0; fn = "skip_white_spaces"; ex.loop_map = own_loops(ex, fn); g = {}
    def inv(c):
        v = c.i("c"); return [("the scan stays inside the text", z3.And(w.at >= i0, w.at <= w.N)), ("the variable holds the next character", v == w.top(w.at))]
    def havoc(c): J = ex.fresh("J"); w.o.fields["content_index"] = J; ex.assume(z3.And(J >= i0, J <= w.N)); g["J"] = J; c.L.cell("c").v = w.top(J)
    def step(c): ex.oblige("one blank is skipped per iteration", z3.And(w.at == g["J"] + 1, w.isa("space", g["J"])), "inv"); tell(ex, "blank")
    ex.eng.loopspecs = {0: dict(inv=inv, ptr=lambda c, x: x.v, havoc=havoc, step=step, dec=lambda c: w.N - w.at)}
    ex.call(FnVal(fn), [w.p], None)
    ex.oblige("blanks end at the first other character", z3.And(w.at >= i0, w.at <= w.N, z3.Not(w.isa("space", w.at))), "post"); tell(ex, "spaces")
def h_word(ex):
    w = L(ex); i0 = w.i0; ex.assume(w.isa("nondigit", i0)); w.ch(i0); fn = "read_keyword_or_identifier"; ex.loop_map = own_loops(ex, fn)
    def elem(J, e, p):
        ex.oblige("the character appended is the one scanned, a letter, digit or underscore", z3.And(e == J + 1, (p - w.CH(simp(J))) % 256 == 0, idc(w, J)), "inv")
    sp, g = fill_spec(ex, w, i0, lambda J: (piece(i0, J), simp(J - i0)), elem)
    ex.eng.loopspecs = {0: sp}
    r = ex.call(FnVal(fn), [w.p], None); e = w.at
    ex.oblige("a word is not empty and ends where no letter, digit or underscore follows", z3.And(e > i0, z3.Not(idc(w, e))), "post")
    t = accept(ex, r, "word")
    if t is None: return
    ks = [k for n, k in ex.ghost.get("words", []) if n == "keyword_map"]
    for k in KW:
        f = z3.And(e - i0 == len(k), w.spell(i0, k)); ex.oblige(f"'{k}' is a keyword exactly when spelled so", (t["type"] == w.E["CTOKEN_KEYWORD_" + k.upper()]) == holds(ex, f), "post")
    if t["type"] not in [w.E["CTOKEN_KEYWORD_" + k.upper()] for k in KW]:
        ex.oblige("other words are identifiers", t["type"] == w.E["CTOKEN_IDENT"], "post")
        ex.oblige("an identifier's name is its spelling", isinstance(t["ident_name"], P) and not isn(t["ident_name"]) and is_src(ex, T.pieces(ex, t["ident_name"]), i0, e), "post")
        tell(ex, "identifier")
    else: ex.oblige("a keyword carries no name", isn(t["ident_name"]), "post"); tell(ex, "keyword")
    ex.oblige("a word carries no constant", isn(t["iliteral"]) and isn(t["sliteral"]), "post")
def h_digits(field):
    def h(ex):
        w = L(ex); i0 = w.i0; cls = FIELD[field]; fn = "read_integer_constant_digits"; ex.loop_map = own_loops(ex, fn)
        def elem(J, e, p): ex.oblige("the character appended is the digit scanned", z3.And(e == J + 1, (p - w.CH(simp(J))) % 256 == 0, w.isa(cls, J)), "inv")
        sp, g = fill_spec(ex, w, i0, lambda J: (piece(i0, J), simp(J - i0)), elem); ex.eng.loopspecs = {0: sp}
        r = ex.call(FnVal(fn), [w.p, w.o.fields[field]], None); o = ex.obj(r.b, "result").fields; e = w.at
        if isn(o["err"]):
            ex.oblige("digits are read to the first other character", z3.And(e > i0, z3.Not(w.isa(cls, e))), "post")
            ex.oblige("the text returned is the digits", not isn(o["value"]) and is_src(ex, T.pieces(ex, o["value"]), i0, e), "post"); tell(ex, "digits")
        else: ex.oblige("only a missing digit is an error", z3.Not(w.isa(cls, i0)), "post"); tell(ex, "no digit")
    return h
def longest(ex, w, table, at):
    """the longest entry of a table at a position: -> entry or None (case split on the path)"""
    for n in (3, 2, 1):
        for k in sorted(x for x in table if len(x) == n):
            f = z3.And(at + n <= w.N, w.spell(at, k))
            if holds(ex, f): return k
            if ex._chk(f) != z3.unsat: return ex.branch(f) and k or longest_rest(ex, w, table, at, n, k)
    return None
def longest_rest(ex, w, table, at, n, k):
    ks = [x for x in sorted(table, key=lambda x: (-len(x), x))]
    for x in ks:
        if (-len(x), x) <= (-n, k): continue
        f = z3.And(at + len(x) <= w.N, w.spell(at, x))
        if ex.branch(f): return x
    return None
def h_suffix(ex):
    w = L(ex); i0 = w.i0; r = ex.call(FnVal("read_integer_suffix"), [w.p], None); k = longest(ex, w, SUF, i0)
    ex.oblige("the type of the longest suffix, int without suffix", r == w.E["INTEGER_" + (SUF[k] if k else "INT")], "post", extra=str(k)); end_at(ex, i0 + len(k or ""), "suffix"); tell(ex, "suffix")
def h_punct(ex):
    w = L(ex); i0 = w.i0; r = ex.call(FnVal("read_punctuator"), [w.p], None); k = longest(ex, w, PN, i0)
    if k is None and holds(ex, i0 == w.N):
        t = accept(ex, r, "end of the text")
        if t: ex.oblige("the end of the text is the end token", t["type"] == w.E["CTOKEN_EOF"], "post"); end_at(ex, i0, "end of the text"); tell(ex, "end")
    elif k is None: reject(ex, r, "a character that starts no token"); tell(ex, "no token")
    else:
        t = accept(ex, r, "punctuator")
        if t: ex.oblige("the longest punctuator", t["type"] == w.E["CTOKEN_" + PN[k]], "post", extra=k); end_at(ex, i0 + len(k), "punctuator"); tell(ex, "punctuator")
def h_constant(ex):
    """prefix, digits of the base, suffix; digits, suffix and value by contract"""
    w = L(ex); i0 = w.i0; ex.assume(w.isa("digit", i0)); w.ch(i0); g = {}
    def digits(ex, a):
        cls = FIELD[ex.obj(a[1].b, "map").tag[1]]; at = w.at
        if not ex.branch(w.isa(cls, at)): w.errors += 1; g["nodigit"] = (cls, at); return rec(ex, "ErrorableString", value=NULL, err=opaque(ex, "error", "error"))
        e = ex.fresh("e"); ex.assume(z3.And(e > at, e <= w.N)); w.o.fields["content_index"] = e; g["digits"] = (cls, at, e)
        return rec(ex, "ErrorableString", value=T.new_text(ex, [piece(at, e)]), err=NULL)
    def suffix(ex, a): s = ex.fresh("sfx"); k = ex.fresh("k"); ex.assume(z3.And(k >= 0, k <= 3, w.at + k <= w.N)); g["suffix"] = (w.at, s); w.o.fields["content_index"] = w.at + k; g["end"] = w.at; return s
    def create(ex, a): g["create"] = (T.pieces(ex, a[0]), a[1], a[2]); p = opaque(ex, "iliteral", "lit"); g["lit"] = p.b; return p
    ex.eng.overrides.update(read_integer_constant_digits=digits, read_integer_suffix=suffix, create_iliteral=create)
    r = ex.call(FnVal("read_integer_constant"), [w.p], None)
    zero = ex.branch(w.CH(i0) == 48); hexa = zero and ex.branch(z3.And(i0 + 1 < w.N, z3.Or(w.CH(simp(i0 + 1)) == 120, w.CH(simp(i0 + 1)) == 88)))
    cls, base, at = ("hex", 16, simp(i0 + 2)) if hexa else ("oct", 8, i0) if zero else ("digit", 10, i0)
    if "nodigit" in g:
        ex.oblige("only a hexadecimal prefix without digits is an error", z3.And(z3.BoolVal(hexa and g["nodigit"][0] == "hex"), g["nodigit"][1] == i0 + 2), "post"); reject(ex, r, "prefix without digits"); tell(ex, "no digits"); return
    d = g.get("digits"); ex.oblige("the digits read are those of the base, from behind the prefix", z3.And(z3.BoolVal(d is not None and d[0] == cls), d[1] == at) if d else False, "post")
    if not d: return
    ex.oblige("the suffix is read right behind the digits", g["suffix"][0] == d[2] if "suffix" in g else False, "post")
    ps, b, ty = g["create"]
    ex.oblige("the value is that of exactly these digits in this base", z3.And(is_src(ex, ps, at, d[2]), z3.BoolVal(b == base)), "post"); ex.oblige("the suffix selects the type", ty == g["suffix"][1], "post")
    t = accept(ex, r, "integer constant"); ex.oblige("scanning goes on behind the suffix", w.at == g["end"], "post")
    if t: ex.oblige("the token is the constant", t["type"] == w.E["CTOKEN_INT"] and isinstance(t["iliteral"], P) and t["iliteral"].b == g["lit"] and isn(t["ident_name"]) and isn(t["sliteral"]), "post"); tell(ex, f"base {base}")
def mk_create():
    e = Engine(tu(), mode="bv", heap="conc"); objs.install(e); e.batch = True; return e
ORDER = ["INT", "UNSIGNED_INT", "LONG", "UNSIGNED_LONG", "LONGLONG", "UNSIGNED_LONGLONG"]
def clist(suf, base):
    if suf == "INT": return ["INT", "LONG", "LONGLONG"] if base == 10 else ORDER
    if suf == "LONG": return ["LONG", "LONGLONG"] if base == 10 else ORDER[2:]
    if suf == "LONGLONG": return ["LONGLONG"] if base == 10 else ORDER[4:]
    return [x for x in ORDER[ORDER.index(suf):] if "UNSIGNED" in x]
def h_create(ex):
    E = ex.tu.enums; base = (8, 10, 16)[ex.choose(3)]; suf = ORDER[ex.choose(6)]; V = z3.BitVec("value", 64); s = absx.new_str(ex, "digits"); ex.ghost["case"] = (base, suf)
    def strtoull(ex, a):
        ex.oblige("the digits are converted in their base", isinstance(a[0], P) and a[0].b == s.b and a[0].o == 0 and a[2] == base, "post"); return V
    ex.eng.overrides["strtoull"] = strtoull; ex.eng.allow_shift = True
    r = ex.call(FnVal("create_iliteral"), [s, base, E["INTEGER_" + suf]], None); o = ex.obj(r.b, "constant").fields
    rank = {"INT": 31, "UNSIGNED_INT": 32, "LONG": 63, "UNSIGNED_LONG": 64, "LONGLONG": 63, "UNSIGNED_LONGLONG": 64}
    fit = lambda x: z3.ULT(V, z3.BitVecVal(1 << rank[x], 64)) if rank[x] < 64 else z3.BoolVal(True)
    ls = clist(suf, base); ty = o["type"]; prev = []; some = z3.Or(*[fit(x) for x in ls])
    for x in ls:
        f = z3.And(fit(x), *[z3.Not(fit(y)) for y in prev]); prev.append(x)
        ex.oblige(f"base {base}, suffix {suf}: {x} exactly when it is the first type of the list that holds the value", z3.Implies(f, ex.tobool(ex.ieq(ty, E["INTEGER_" + x]))), "post")
    un = isinstance(ty, int) and ty in [E["INTEGER_" + x] for x in ORDER if "UNSIGNED" in x]
    ex.oblige("the value is the number the digits spell", z3.Implies(some, ex.tobool(ex.ieq(o["unsigned_value"] if un else o["signed_value"], V))), "post"); tell(ex, "constant")
# ---- escapes, character constants, strings
def esc_contract(ex, w, log):
    """the escape sequence behind a backslash: an error, or a value and the position behind it, a function of the position"""
    V = z3.Function("escape_value", z3.IntSort(), z3.IntSort()); END = z3.Function("escape_end", z3.IntSort(), z3.IntSort()); BAD = z3.Function("escape_invalid", z3.IntSort(), z3.BoolSort())
    def f(ex, a):
        at = simp(w.at); log.append(at)
        if ex.branch(BAD(at)): w.errors += 1; k = ex.fresh("k"); ex.assume(z3.And(k >= at, k <= w.N + 2)); w.o.fields["content_index"] = k; return rec(ex, "ErrorableInt", value=-1, err=opaque(ex, "error", "error"))
        v, e = V(at), END(at); ex.assume(z3.And(v >= 0, v < 2**31, e > at, e <= w.N)); w.o.fields["content_index"] = e
        return rec(ex, "ErrorableInt", value=v, err=NULL)
    return V, END, BAD, f
def h_escape(ex):
    """the value and length of an escape sequence, the number of hexadecimal digits unbounded"""
    w = L(ex); i0 = w.i0; fn = "read_escape_seqence"; hx = "read_hexadecimal_escape_seqence"; ex.loop_map = own_loops(ex, hx) if hx in ex.tu.funcs else {}; g = {}
    def inv(c): v = c.i("value"); return [("digits scanned so far", z3.And(w.at >= i0 + 2, w.at <= w.N)), ("the value is that of the digits scanned", z3.And(v >= 0, v == (g["H"] if g.get("loop") and not g.get("done") else (g["want"] if g.get("done") else VALUE["hex"](w.CH(simp(i0 + 1)))))))]
    def havoc(c):
        J = ex.fresh("J"); w.o.fields["content_index"] = J; H = ex.fresh("H"); ex.assume(z3.And(J >= i0 + 2, J <= w.N, H >= 0, H < 2**27)); g.update(J=J, H=H, loop=True); c.L.cell("value").v = H
    def step(c):
        J = g["J"]; ex.oblige("one digit per iteration", z3.And(w.at == J + 1, w.isa("hex", J)), "inv"); g["done"] = True; g["want"] = 16 * g["H"] + VALUE["hex"](w.CH(simp(J))); tell(ex, "hex digit")
    ex.eng.loopspecs = {0: dict(inv=inv, ptr=lambda c, x: x.v, havoc=havoc, step=step, dec=lambda c: w.N - w.at)}
    r = ex.call(FnVal(fn), [w.p], None); o = ex.obj(r.b, "result").fields; c = w.CH(i0); v = o["value"]; v = v if isz(v) else z3.IntVal(v); e = w.at
    ok = isn(o["err"])
    if ex.branch(z3.And(i0 < w.N, c == 120)) and ex.branch(w.isa("hex", simp(i0 + 1))):
        ex.oblige("a hexadecimal escape is no error", ok, "post"); ex.oblige("a hexadecimal escape takes all its digits", z3.And(e >= i0 + 2, z3.Not(w.isa("hex", e))), "post"); ex.oblige("its value is that of its digits", v == g["H"], "post"); tell(ex, "hex escape"); return
    if ex.branch(w.isa("oct", i0)):
        d = [VALUE["oct"](w.CH(simp(i0 + k))) for k in range(3)]; n = 1
        if ex.branch(w.isa("oct", simp(i0 + 1))):
            n = 2
            if ex.branch(w.isa("oct", simp(i0 + 2))): n = 3
        val = d[0]
        for k in range(1, n): val = val * 8 + d[k]
        ex.oblige("an octal escape is no error", ok, "post"); ex.oblige("an octal escape takes up to three digits", e == i0 + n, "post"); ex.oblige("its value is that of its digits", v == val, "post"); tell(ex, "octal escape"); return
    for k, x in ESC.items():
        if ex.branch(z3.And(i0 < w.N, c == ord(k))):
            ex.oblige(f"\\{k} is an escape with its value", z3.And(z3.BoolVal(ok), v == x, e == i0 + 1), "post"); tell(ex, "escape"); return
    ex.oblige("another character after a backslash is an error", not ok, "post"); tell(ex, "no escape")
def h_char(ex):
    w = L(ex); i0 = w.i0; ex.assume(z3.And(i0 < w.N, w.CH(i0) == 39)); w.ch(i0); fn = "read_character_constant"; log = []; g = {}
    V, END, BAD, f = esc_contract(ex, w, log); ex.eng.overrides["read_escape_seqence"] = f; ex.loop_map = own_loops(ex, fn); J1 = simp(i0 + 1)
    def inv(c): return [("the scan goes on inside the text", z3.Or(z3.BoolVal(not isn(c.L["err"])), z3.And(w.at >= i0 + 2, w.at <= w.N)))]
    def havoc(c):
        if not isn(c.L["err"]): g["first"] = True; return
        if ex.choose(2): g["late"] = True; c.L.cell("err").v = opaque(ex, "error", "error"); w.errors += 1; return
        J = ex.fresh("J"); w.o.fields["content_index"] = J; ex.assume(z3.And(J >= i0 + 2, J <= w.N)); g["J"] = J; del log[:]
    def step(c):
        J = g["J"]; esc = w.CH(simp(J)) == 92
        if isn(c.L["err"]): ex.oblige("one character or escape per iteration, no line end", z3.And(J < w.N, w.CH(simp(J)) != 39, w.CH(simp(J)) != 10, z3.If(esc, z3.And(z3.Not(BAD(simp(J + 1))), w.at == END(simp(J + 1))), w.at == J + 1)), "inv")
        tell(ex, "further character")
        if not isn(c.L["err"]):
            # an error ends the scan: the loop is left at its condition
            ex.oblige("only a cut off constant or a bad escape ends the scan with an error", z3.Or(J >= w.N, w.CH(simp(J)) == 10, z3.And(esc, BAD(simp(J + 1)))), "inv"); raise PathEnd()
    ex.eng.loopspecs = {0: dict(inv=inv, ptr=lambda c, x: x.v, havoc=havoc, step=step, dec=lambda c: w.N - w.at)}
    r = ex.call(FnVal(fn), [w.p], None); t, e = item(ex, r); c1 = w.CH(J1); first = J1 < w.N
    bad1 = z3.Or(z3.Not(first), c1 == 10, c1 == 39, z3.And(c1 == 92, BAD(simp(i0 + 2))))
    if "late" in g: reject(ex, r, "an error in a further character"); tell(ex, "late error"); return
    if "J" not in g: ex.oblige("a constant without a first character is an error, and nothing else", z3.And(z3.BoolVal(isn(t) and not isn(e)), bad1), "post"); tell(ex, "bad constant"); return
    ex.oblige("a constant has a first character", z3.Not(bad1), "post")
    t = accept(ex, r, "character constant"); ex.oblige("the constant ends behind its closing quote", z3.And(w.at == g["J"] + 1, g["J"] < w.N, w.CH(simp(g["J"])) == 39), "post")
    if t:
        il = ex.obj(t["iliteral"].b, "constant").fields; v = il["signed_value"]
        ex.oblige("a character constant is an int with the value of its first character", z3.And(z3.BoolVal(t["type"] == w.E["CTOKEN_CHAR"] and il["type"] == w.E["INTEGER_INT"]), (v - z3.If(c1 == 92, V(simp(i0 + 2)), c1)) % 256 == 0), "post"); tell(ex, "character")
def h_string(ex):
    w = L(ex); i0 = w.i0; ex.ghost["binary"] = True; ex.assume(z3.And(i0 < w.N, w.CH(i0) == 34)); w.ch(i0); fn = "read_string_literal"; log = []
    V, END, BAD, f = esc_contract(ex, w, log); ex.eng.overrides["read_escape_seqence"] = f; ex.loop_map = own_loops(ex, fn); start = simp(i0 + 1)
    def elem(J, e, p):
        c = w.CH(simp(J)); esc = c == 92
        ex.oblige("the byte stored is the character or escape scanned", z3.And(J < w.N, c != 34, c != 10, z3.If(esc, z3.And(z3.Not(BAD(simp(J + 1))), e == END(simp(J + 1)), (p - V(simp(J + 1))) % 256 == 0), z3.And(e == J + 1, (p - c) % 256 == 0))), "inv")
    def mkp(J): n = ex.fresh("stored"); return ("opq", ("decoded", str(J)), n), n
    sp, g = fill_spec(ex, w, start, mkp, elem); ex.eng.loopspecs = {0: sp}
    r = ex.call(FnVal(fn), [w.p], None); t, e = item(ex, r); J = g["J"]; c = w.CH(simp(J))
    if not isn(e):
        ex.oblige("only a string cut off or with a bad escape is an error", z3.And(z3.BoolVal(isn(t)), z3.Or(J >= w.N, c == 10, z3.And(c == 92, BAD(simp(J + 1))))), "post"); tell(ex, "bad string"); return
    t = accept(ex, r, "string"); ex.oblige("the string ends behind its closing quote", z3.And(w.at == J + 1, J < w.N, c == 34), "post")
    if t:
        s = ex.obj(t["sliteral"].b, "string").fields; ps = T.totext(ex, s["value"].b).tag[1] if isinstance(s["value"], P) else []
        ok = len(ps) == 2 and ps[0] is g["p"] and isinstance(ps[1], int) and ps[1] == 0
        ex.oblige("a string is its bytes followed by one zero", z3.And(z3.BoolVal(ok and t["type"] == w.E["CTOKEN_STRING"]), s["size"] == g["n"] + 1), "post"); tell(ex, "string")
# ---- the whole text
def h_main(ex):
    w = L(ex); ex.assume(w.i0 == 0); w.o.fields["content_index"] = w.i0; fn = "lexer_read_ctokens"; g = {"read": []}; ov = ex.eng.overrides
    classes = {"read_keyword_or_identifier": lambda c: CLASS["nondigit"](c), "read_integer_constant": lambda c: CLASS["digit"](c), "read_character_constant": lambda c: c == 39, "read_string_literal": lambda c: c == 34}
    def reader(name):
        def f(ex, a):
            J = w.at; c = w.top(J)
            cond = classes[name](c) if name in classes else z3.Not(z3.Or(*[x(c) for x in classes.values()]))
            ex.oblige(f"{name} is used for its tokens", cond, "pre"); ex.oblige("no token starts with a blank", z3.Not(w.isa("space", J)), "pre")
            end = name == "read_punctuator" and ex.branch(J >= w.N)
            if not end and ex.choose(2): g["read"].append(("error", J)); w.o.fields["content_index"] = ex.fresh("k"); return rec(ex, "LexerReturnItem", ctoken=NULL, err=opaque(ex, "error", "error"))
            if end: ty = w.E["CTOKEN_EOF"]; e = J
            else: ty = ex.fresh("kind"); ex.assume(z3.And(ty >= 0, ty < len([k for k in w.E if k.startswith("CTOKEN_")]), ty != w.E["CTOKEN_EOF"])); e = ex.fresh("e"); ex.assume(z3.And(e > J, e <= w.N))
            w.o.fields["content_index"] = e; t = rec(ex, "CToken", type=ty, ident_name=NULL, iliteral=NULL, sliteral=NULL); g["read"].append(("end" if end else "token", J, t.b))
            return rec(ex, "LexerReturnItem", ctoken=t, err=NULL)
        return f
    for n in list(classes) + ["read_punctuator"]: ov[n] = reader(n)
    def skip(ex, a): e = ex.fresh("e"); ex.assume(z3.And(e >= w.at, e <= w.N)); ex.assume(z3.Not(w.isa("space", e))); w.o.fields["content_index"] = e
    ov["skip_white_spaces"] = skip; ov["delete_ctoken"] = lambda ex, a: 0; ex.loop_map = own_loops(ex, fn)
    def lst():
        for fr in reversed(ex.frames):
            for c in fr["vars"].values():
                if isinstance(c.v, P) and c.v.b in ex.heap.objs and isinstance(ex.heap.objs[c.v.b].tag, list) and ex.heap.objs[c.v.b].tag[0] == "vec": return ex.heap.objs[c.v.b]
        raise Structural("list of tokens")
    def inv(c):
        return [("the scan is inside the text, at no blank", z3.And(w.at >= 0, w.at <= w.N, z3.Not(w.isa("space", w.at))))] + ([("no error so far", isn(c.L["err"]))] if True else [])
    def havoc(c):
        J = ex.fresh("J"); ex.assume(z3.And(J >= 0, J <= w.N)); w.o.fields["content_index"] = J
        if not g.get("J"): ex.oblige("the list of tokens starts empty", lst().tag[1] == [], "inv")
        g["J"] = J; pre = opaque(ex, "tokens", "before"); g["pre"] = pre.b; lst().tag[1][:] = [pre]; g["read"] = []
    def check(last, what):
        l = [x.b for x in lst_of()]; rd = g["read"]
        ex.oblige(what, len(rd) == 1 and rd[0][0] == last and l == [g["pre"], rd[0][2]], "post")
        if rd: ex.oblige("the token is read where the scan stands", rd[0][1] == g["J"], "post")
    def lst_of(): return g["list"] if "list" in g else lst().tag[1]
    def step(c): check("token", "an iteration appends exactly the token read"); tell(ex, "token")
    ex.eng.loopspecs = {0: dict(inv=inv, ptr=lambda c, x: x.v, havoc=havoc, step=step, dec=lambda c: w.N - w.at)}
    r = ex.obj(ex.call(FnVal(fn), [w.p], None).b, "result").fields
    if not isn(r["err"]): ex.oblige("an error of a reader is the scanner's error", isn(r["ctokens"]) and len(g["read"]) == 1 and g["read"][0][0] == "error", "post"); tell(ex, "error"); return
    g["list"] = absx.vec(ex, r["ctokens"])[1]; check("end", "the list ends with the one end token"); tell(ex, "end")
def chars(s): return {ord(c) for c in s}
def table_units():
    import string
    lo = string.ascii_lowercase; up = string.ascii_uppercase; d = {ord(c): i for i, c in enumerate("0123456789")}
    hexa = dict(d); hexa.update({ord(c): 10 + i for i, c in enumerate("abcdef")}); hexa.update({ord(c): 10 + i for i, c in enumerate("ABCDEF")})
    t = {"keyword_map": (TABLE["keyword_map"], "map"), "punctuator_map": (TABLE["punctuator_map"], "map"), "integer_suffix_map": (TABLE["integer_suffix_map"], "map"), "nondigit_set": (chars("_" + lo + up), "set"), "white_space_set": (chars(" \t\n\v\f"), "set"),
         "octdigit_map": ({k: v for k, v in d.items() if v < 8}, "map"), "digit_map": (d, "map"), "hexdigit_map": (hexa, "map")}
    return {n: (f"new_{n}", mk_table, table_unit("new_" + n, *t[n])) for n in t}
def h_literal(ex):
    E = ex.tu.enums; k = ex.choose(6); un = "UNSIGNED" in ORDER[k]; ty = E["INTEGER_" + ORDER[k]]; sv, uv = z3.BitVec("sv", 64), z3.BitVec("uv", 64); ex.ghost["case"] = ORDER[k]
    if ex.choose(2):
        l = rec(ex, "IntegerLiteral", type=ty, signed_value=sv, unsigned_value=uv); c = ex.call(FnVal("iliteral_copy"), [l], None); o = ex.obj(c.b, "copy").fields
        ex.oblige("a copy is a constant of its own with the same type and value", z3.And(z3.BoolVal(c.b != l.b and o["type"] == ty), o["signed_value"] == sv, o["unsigned_value"] == uv), "post")
    else:
        l = ex.call(FnVal("new_unsigned_iliteral" if un else "new_signed_iliteral"), [ty, uv if un else sv], None); o = ex.obj(l.b, "constant").fields
        ex.oblige("a constant has the type and value given", z3.And(z3.BoolVal(o["type"] == ty), ex.tobool(ex.ieq(o["unsigned_value" if un else "signed_value"], uv if un else sv))), "post")
    ex.oblige("unsigned exactly for the unsigned types", ex.tobool(ex.call(FnVal("iliteral_isunsigned"), [l], None) != 0) if not isinstance(ex.call(FnVal("iliteral_isunsigned"), [l], None), int) else bool(ex.call(FnVal("iliteral_isunsigned"), [l], None)) == un, "post")
    ex.oblige("int is 4 bytes, the long types 8", ex.call(FnVal("iliteral_nbytes"), [l], None) == (4 if ORDER[k] in ("INT", "UNSIGNED_INT") else 8), "post"); tell(ex, "constant")
def literal_units(): return [("integer constants: construction and copy", mk_create, h_literal)]
TRUSTED = ["clang 18 front end (AST of /repo) and the CVV symbolic executor", "z3 / cvc5", "libc string functions", "list, map and set contracts of C01/C02"]
ASSUMPTIONS = ["the text is shorter than 2^26 bytes and contains no NUL", "plain char is signed and the machine is x86-64"]
def native_checks(pid, quick, deep):
    """search and stand-in of a property over random texts"""
    import lexgen
    def search(ctx, failed, struct):
        for k in range(3):
            m = lexgen.native(ctx, 4 * quick, runner.SEED + k, pid)[0]
            if m: return m
    def standin(ctx):
        m, a, n = lexgen.native(ctx, quick if runner.TIER == "quick" else deep, runner.SEED, pid)
        ctx.bounded.append({"what": "random texts scanned by the real scanner and by a reference scanner written from C's lexical grammar", "cases": n, "accepted": a, "label": "bounded"})
        return m
    return search, standin

"""C05: string and character bytes from the source text to the assembler text."""
import z3, os, random
import absx, objs, runner, text as T, lex_spec as S
from engine import *
from objs import rec, isn, opaque
META = dict(technique="contract-based deductive verification (CVV: VCs from the clang AST of /repo, z3/cvc5); loop invariants over strings of any length with uninterpreted bytes: each iteration decodes, encodes or stores exactly one byte",
            level_note="every byte value, escape sequence and string length (2^26 bytes at most); a hexadecimal escape whose value fits 27 bits")
TRUSTED = ["clang 18 front end (AST of /repo) and the CVV symbolic executor", "z3 / cvc5", "libc string functions and printf conversions %s %c %03o", "list, map and set contracts of C01/C02", "GNU as decodes \\b \\f \\n \\r \\t \\v \\\\ \\\" and octal escapes in .ascii, and stands for itself behind any other backslash"]
ASSUMPTIONS = ["source text and strings are shorter than 2^26 bytes", "the value of a hexadecimal escape fits in 27 bits", "a local character array lies in its variable's area, which ends at a multiple of 4"]
def tu():
    import C21; return C21.tu()
def mk():
    e = Engine(tu(), mode="int", heap="conc"); objs.install(e); T.install(e); e.batch = True
    cls = e.exclass
    class SrcEx(cls):
        """objects ["src", f, n]: n bytes given by a function of the index"""
        def eread(s, p, qt):
            if isinstance(p, P) and isinstance(p.b, int) and p.b in s.heap.objs and isinstance(s.heap.objs[p.b].tag, list) and s.heap.objs[p.b].tag[0] == "src":
                o = s.obj(p.b, "bytes"); i = p.o if isz(p.o) else z3.IntVal(p.o); s.oblige("read inside the string", z3.And(i >= 0, i < o.tag[2]), "mem")
                v = o.tag[1](i); s.assume(z3.And(v >= -128, v < 128)) if not isinstance(v, int) else None
                return v
            return cls.eread(s, p, qt)
    e.exclass = SrcEx
    def src(ex, p):
        o = ex.obj(p.b, "bytes")
        if o.tag is None: o.tag = ["src", lambda i: z3.Int("unwritten") + i, 0]
        if o.tag[0] != "src": raise Structural("not a block of bytes")
        return o
    def memcpy(ex, a):
        if not (isinstance(a[0], P) and isinstance(a[1], P)): return NotImplemented
        d, s, k = src(ex, a[0]), src(ex, a[1]), a[2]; k = k if isz(k) else z3.IntVal(k)
        ex.oblige("memcpy reads what is there", z3.And(k >= 0, k <= s.tag[2], z3.BoolVal(a[0].o == 0 and a[1].o == 0)), "mem")
        if d.nbytes is not None: ex.oblige("memcpy stays inside its destination", k <= d.nbytes, "mem")
        f, g, n0 = s.tag[1], d.tag[1], d.tag[2]
        d.tag = ["src", lambda i: z3.If(i < k, f(i), g(i)), z3.If(k > n0, k, n0)]; return a[0]
    def memset(ex, a):
        o = ex.obj(a[0].b, "bytes")
        if ex.ghost.get("copying") and isinstance(a[1], int):
            if o.nbytes is not None: ex.oblige("memset in bounds", a[2] <= o.nbytes, "mem")
            v = a[1]; o.tag = ["src", lambda i: z3.IntVal(v), a[2]]; return a[0]
        return old(ex, a)
    old = e.overrides["memset"]; e.overrides.update(memcpy=memcpy, memset=memset); e.overrides.pop("sliteral_copy", None)
    return e
def string(ex, lim=2**26):
    n = ex.fresh("size"); ex.assume(z3.And(n >= 0, n < lim)); F = z3.Function("byte_at", z3.IntSort(), z3.IntSort())
    b = ex.heap.new(None); o = ex.heap.objs[b]; o.tag = ["src", lambda i: F(i), n]; o.nbytes = n
    return rec(ex, "StringLiteral", value=P(b, 0), size=n), F, n
def tell(ex, w): ex.eng.reach.append((w, list(ex.pc)))
SIMPLE = {ord(k): v for k, v in S.ESC.items()}
def denotes(ps, v):
    """formula: these characters spell one byte of a string, as C source does"""
    if any(isinstance(p, tuple) for p in ps): return z3.BoolVal(False)
    ps = [p if isz(p) else z3.IntVal(p) for p in ps]; m = lambda p: p % 256; eqv = lambda x: (x - v) % 256 == 0
    if len(ps) == 1: return z3.And(eqv(ps[0]), m(ps[0]) >= 32, m(ps[0]) < 127, m(ps[0]) != 34, m(ps[0]) != 92)
    if len(ps) == 2: return z3.And(ps[0] == 92, z3.Or(*[z3.And(ps[1] == k, eqv(z3.IntVal(x))) for k, x in SIMPLE.items()]))
    if len(ps) == 4: return z3.And(ps[0] == 92, *[z3.And(p >= 48, p <= 55) for p in ps[1:]], eqv((ps[1] - 48) * 64 + (ps[2] - 48) * 8 + ps[3] - 48))
    return z3.BoolVal(False)
def text_cell(ex):
    for fr in reversed(ex.frames):
        cs = [c for c in fr["vars"].values() if isinstance(c.v, P) and c.v.b in ex.heap.objs and T.istext(ex.heap.objs[c.v.b]) and not ex.heap.objs[c.v.b].const and ("@in" not in ex.ghost or c.v.b != ex.ghost["@in"])]
        cs = [c for i, c in enumerate(cs) if c.v.b not in [x.v.b for x in cs[:i]]]
        if len(cs) == 1: return cs[0]
        if cs: break
    raise Structural("the buffer of the loop was not found")
def h_display(ex):
    s, F, n = string(ex); fn = "sliteral_display_string"; ex.loop_map = S.own_loops(ex, fn); g = {}
    def buf(): return T.totext(ex, text_cell(ex).v.b)
    def inv(c):
        i, ln = c.i("i"), c.i("len"); ps = buf().tag[1]; t = T.total(ps)
        return [("the length counts the characters written", ln == t), ("the index runs through the string", z3.And(i >= 0, i <= n)), ("four characters per byte at most", t - 1 <= 4 * i), ("a quote first", z3.BoolVal(len(ps) > 0 and isinstance(ps[0], int) and ps[0] == 34)), ("written and terminated", z3.BoolVal(buf().tag[2] is True))]
    def havoc(c):
        o = buf()
        if "done" not in g: ex.oblige("a quote before the loop", len(o.tag[1]) == 1, "inv")
        g["done"] = 1; Lx = ex.fresh("written"); ex.assume(Lx >= 0); i = ex.fresh("i"); c.L.cell("i").v = i; c.L.cell("len").v = simp(Lx + 1); g["p"] = ("opq", ("units of the bytes before", str(i)), Lx); o.tag[1] = [34, g["p"]]; o.tag[2] = True; g["i"] = i
    def step(c):
        ps = buf().tag[1]; ok = len(ps) > 2 and ps[0] == 34 and ps[1] is g["p"]
        ex.oblige("an iteration adds to the text", ok, "inv")
        if ok: ex.oblige("an iteration spells exactly the byte at the index", z3.And(denotes(ps[2:], F(g["i"])), c.i("i") == g["i"] + 1), "inv")
        tell(ex, "byte")
    ex.eng.loopspecs = {0: dict(inv=inv, ptr=lambda c, x: x.v, havoc=havoc, step=step, dec=lambda c: n - c.i("i"))}
    r = ex.call(FnVal(fn), [s], None); ps = T.pieces(ex, r)
    ex.oblige("the text is a quote, one unit for each byte, and a quote", z3.And(z3.BoolVal(len(ps) == 3 and ps[0] == 34 and ps[2] == 34 and ps[1] is g["p"]), g["i"] == n), "post"); tell(ex, "end")
def h_datastr(ex):
    """the directive for a string repeats the display text, with the alert escape as an octal one"""
    s, F, n = string(ex); fn = "x64data_tostring"; E = ex.tu.enums; g = {}
    D = ex.fresh("display"); ex.assume(z3.And(D >= 0, D <= 4 * n)); disp = T.new_text(ex, [("opq", "display text", simp(D + 2))]); ex.ghost["@in"] = disp.b
    def sds(ex2, a): ex.oblige("the display text is that of the string", isinstance(a[0], P) and a[0].b == s.b, "pre"); return disp
    ex.eng.overrides["sliteral_display_string"] = sds; ex.loop_map = S.own_loops(ex, fn)
    x = ex.call(FnVal("new_str_x64data"), [E["X64_DATA_STR"], s], None); hdr = [ord(c) for c in "\t.ascii\t"]
    def buf(): return T.totext(ex, text_cell(ex).v.b)
    bound = lambda ph, K: {"S": z3.IntVal(0), "U": 1 + 4 * K, "1": 3 + 4 * K, "2": 4 + 4 * K, "E": 2 + 4 * K}[ph]
    def ccell(c): return c.L.cell("c")
    def inv(c):
        ps = buf().tag[1]; p = ccell(c).v; ln = c.i("len"); t = T.total(ps)
        f = [("the length counts the characters written", ln == t), ("the directive first", z3.BoolVal(ps[:len(hdr)] == hdr))]
        if "ph" not in g: f += [("nothing but the directive yet", z3.BoolVal(ps == hdr)), ("the scan starts at the start", z3.BoolVal(isinstance(p, P) and p.b == disp.b and isinstance(p.o, int) and p.o == 0))]
        else: f += [("the scan goes on behind what was copied", p.o == g["pos"]), ("the text written so far is bounded", t - len(hdr) <= bound(*g["now"]))]
        return f
    def havoc(c):
        ph = ["S", "U", "1", "2", "E"][ex.choose(5)]; K = ex.fresh("units"); ex.assume(z3.And(K >= 0, K <= n)); A = ex.fresh("A"); B = ex.fresh("B"); R = ex.fresh("R"); ex.assume(z3.And(A >= 0, B >= 0, R >= 0))
        if ph in "12": ex.assume(K < n)
        kind, nxt = None, None
        if ph == "S": ex.assume(z3.And(A == 0, B == 0, K == 0)); tok = [34]; nxt = ("U", K)
        elif ph == "E": tok = []; ex.assume(R == 0)
        elif ph in "12":
            c0 = ex.fresh("c"); ex.assume(z3.And(c0 >= 48, c0 <= 55)); tok = [c0]; nxt = ("2", K) if ph == "1" else ("U", K + 1)
        elif ex.choose(2): ex.assume(K == n); tok = [34]; nxt = ("E", K)
        else:
            ex.assume(K < n); c0 = ex.fresh("c"); k = ex.choose(3)
            if k == 0: ex.assume(z3.And(c0 >= 32, c0 < 127, c0 != 34, c0 != 92)); tok = [c0]; nxt = ("U", K + 1)
            elif k == 1: ex.assume(z3.Or(*[c0 == x for x in SIMPLE])); tok = [92, c0]; nxt = ("U", K + 1)
            else: ex.assume(z3.And(c0 >= 48, c0 <= 55)); tok = [92, c0]; nxt = ("1", K)
        ex.assume(B <= bound(ph, K)); ex.assume(A + len(tok) + R == D + 2)
        ex.heap.objs[disp.b].tag[1] = ([("opq", "copied part", A)] if ph != "S" else []) + tok + ([("opq", "rest", R)] if ph != "E" else [])
        o = buf(); g["p"] = ("opq", ("spelling of the copied part",), B); o.tag[1] = hdr + [g["p"]]; o.tag[2] = False
        ccell(c).v = P(disp.b, A); c.L.cell("len").v = simp(B + len(hdr)); g.update(ph=ph, now=(ph, K), nxt=nxt, tok=tok, pos=A, A=A)
    def step(c):
        ps = buf().tag[1]; tok = g["tok"]; ok = ps[:len(hdr)] == hdr and len(ps) > len(hdr) and ps[len(hdr)] is g["p"]; new = ps[len(hdr) + 1:]; f = z3.BoolVal(False)
        if ok:
            s_ = lambda t: T.same_text(ex, new, t)
            bl = len(tok) == 2 and isz(tok[1])
            same = s_(tok); oct_ = s_([92, 48, 48, 55])
            f = z3.If(tok[1] == 97, z3.And(oct_) if oct_ is not True else z3.BoolVal(True), z3.And(same)) if bl else z3.And(same)
        ex.oblige("what is copied is one unit of the text, the alert escape as \\007", f, "inv"); g["now"] = g["nxt"] or g["now"]; g["pos"] = simp(g["A"] + len(tok)); tell(ex, "unit")
    ex.eng.loopspecs = {0: dict(inv=inv, ptr=lambda c, x: x.v, havoc=havoc, step=step, dec=lambda c: D + 2 - ccell(c).v.o)}
    r = ex.call(FnVal(fn), [x], None); ps = T.pieces(ex, r)
    ex.oblige("the directive, the whole text of the string, and the end of the line", g.get("ph") == "E" and ps[:len(hdr)] == hdr and len(ps) == len(hdr) + 2 and ps[len(hdr)] is g["p"] and isinstance(ps[-1], int) and ps[-1] == 10, "post"); tell(ex, "end")
def h_copy(pad):
    def h(ex):
        ex.ghost["copying"] = True; s, F, n = string(ex); j = ex.fresh("j")
        if pad: m = ex.fresh("to"); ex.assume(z3.And(m >= 0, m < 2**26)); r = ex.call(FnVal("sliteral_zero_padding_copy"), [s, m], None)
        else: m = n; r = ex.call(FnVal("sliteral_copy"), [s], None)
        o = ex.obj(r.b, "copy").fields; b = ex.obj(o["value"].b, "bytes"); so = ex.obj(s.b, "string").fields
        ok = isinstance(b.tag, list) and b.tag[0] == "src" and o["value"].b != so["value"].b and r.b != s.b
        ex.oblige("the copy has bytes of its own and the size asked for", z3.And(z3.BoolVal(ok), o["size"] == m, b.tag[2] >= m if ok else False), "post")
        if ok: ex.oblige("byte for byte the same, zeros behind the end", z3.Implies(z3.And(j >= 0, j < m), b.tag[1](j) == z3.If(j < n, F(j), 0)), "post")
        ex.oblige("the original is kept", ex.ieq(so["size"], n), "post"); tell(ex, "copy")
    return h
# ---- a string stored into a local array
def mk_store():
    import x64spec as X
    e = X.mk(); cls = e.exclass if hasattr(e, "exclass") and e.exclass else Ex
    class StoreEx(cls):
        def eread(s, p, qt):
            if isinstance(p, P) and isinstance(p.b, int) and p.b in s.heap.objs and isinstance(s.heap.objs[p.b].tag, list) and s.heap.objs[p.b].tag[0] == "src8":
                o = s.heap.objs[p.b]; i = p.o if isz(p.o) else z3.BitVecVal(p.o, 32)
                if i.size() > 32: i = z3.Extract(31, 0, i)
                s.oblige("read inside the string", z3.And(i >= 0, i < o.tag[2]), "mem"); return o.tag[1](z3.simplify(i))
            return cls.eread(s, p, qt)
    e.exclass = StoreEx; e.unroll = 10; return e
def h_store(ex):
    import x64spec as X, x86
    w = X.World(ex); en = w.en; n = z3.BitVec("size", 32); m0 = z3.BitVec("offset", 32); q = z3.BitVec("q", 32); al = ex.choose(4); F = z3.Function("sbyte", z3.BitVecSort(32), z3.BitVecSort(8)); g = {}
    ex.assume(z3.And(n >= 1, n < 1 << 26, m0 >= n, m0 < 1 << 28, q >= 0, q < 1 << 26, m0 == 4 * q + al))
    b = ex.heap.new(None); ex.heap.objs[b].tag = ["src8", lambda i: F(i), n]
    s = w.call("new_sliteral", P(b, 0), n); w.case["inst"] = "STR"
    im = w.call("new_inst_immc", en["IMMC_INST_STR"], w.call("new_mem_immcope", m0), w.call("new_str_immcope", s), NULL)
    loops = []
    def walk(x):
        if x is None: return
        if x.kind in ("WhileStmt",): loops.append(x.id)
        for y in x.inner: walk(y)
    if "gen_str_x64code" not in ex.tu.funcs: raise Structural("gen_str_x64code")
    walk(ex.tu.funcs["gen_str_x64code"])
    if len(loops) != 2: raise Structural("two loops expected")
    ex.loop_map = {loops[0]: 0}; bp = z3.Select(w.regs0, x86.BV(en["BP_REG_ID"], 4))
    def codes():
        for fr in reversed(ex.frames):
            for c in fr["vars"].values():
                if c.name == "codes" and isinstance(c.v, P): return ex.heap.objs[c.v.b].tag[1]
        raise Structural("list of instructions")
    def effect(cs, I, cnt, area):
        """running them from any memory stores the bytes I..I+cnt-1 and nothing outside the area"""
        m = x86.Machine(ex, w.regs0, w.mem0); x86.Asm(ex, m).run(list(cs)); base = bp - z3.SignExt(32, m0 - I); t = m.mem; ws = []
        while t.decl().kind() == z3.Z3_OP_STORE: ws.append((t.arg(1), t.arg(2))); t = t.arg(0)
        ex.oblige("only stores change the memory", t.eq(w.mem0), "post"); at = {}
        for ad, v in reversed(ws):      # in the order they are made
            i = next((i for i in range(-16, 32) if ex._chk(ad != base + x86.BV(i, 64)) == z3.unsat), None)
            ex.oblige("a store goes to a place of the string", z3.And(z3.BoolVal(i is not None and 0 <= i < area), ad == base + x86.BV(i or 0, 64)), "post")
            if i is not None: at[i] = v
        for i in range(cnt): ex.oblige("each byte of the string is at its place", at[i] == F(z3.simplify(I + i)) if i in at else False, "post")
        r = z3.BitVec("anyr", 4); ex.oblige("the stack and frame pointers are kept", z3.Implies(z3.Or(r == x86.BV(en["BP_REG_ID"], 4), r == x86.BV(en["SP_REG_ID"], 4)), z3.Select(m.regs, r) == z3.Select(w.regs0, r)), "post")
    I0 = z3.BitVec("I", 32)
    def cell(c, nm): v = c.L[nm]; return v if isz(v) else z3.BitVecVal(v, 32)
    def inv(c):
        i, mo = cell(c, "index_offset"), cell(c, "mem_offset"); return [("the bytes before the index are stored", z3.And(i >= 0, i <= n, z3.Extract(2, 0, i) == 0)), ("the place follows the index", mo == m0 - i)]
    def havoc(c):
        if "done" not in g: ex.oblige("no instruction before the first byte", len(codes()) == 0, "inv")
        g["done"] = 1; i = I0; ex.assume(z3.And(i >= 0, i <= n, z3.Extract(2, 0, i) == 0)); c.L.cell("index_offset").v = i; c.L.cell("mem_offset").v = m0 - i; del codes()[:]
    def step(c):
        i = cell(c, "index_offset"); k = next((k for k in (8, 4, 2, 1) if ex._chk(i != I0 + k) == z3.unsat), None); ex.oblige("the index advances over the bytes stored", k is not None, "inv")
        if k: effect(codes(), I0, k, k)
        tell(ex, "eight bytes")
    ex.eng.loopspecs = {0: dict(inv=inv, ptr=lambda c, x: x.v, havoc=havoc, step=step)}
    rest = None
    def exit(c):
        k = ex.choose(8); ex.assume(n == I0 + k); g["k"] = k
        for o in ex.heap.objs.values():      # the size, spelled from the index
            if o.fields and isz(o.fields.get("size")) and o.fields["size"].eq(n): o.fields["size"] = z3.simplify(I0 + k)
    ex.eng.loopspecs[0]["exit"] = exit
    cs = w.genimmc([im], entry="gen_inst_x64code"); k = g["k"]
    if not ex.live: raise PathEnd()
    pad = (al - k) % 4      # I0 is a multiple of 8: the array ends at offset m0 - n = al - k (mod 4) before the frame pointer
    effect(cs, I0, k, k + pad); tell(ex, "tail")
# ---- trees
def h_char(ex):
    import resolve_spec as R
    v = z3.BitVec("v", 64); ast = rec(ex, "Ast", type=ex.tu.enums["AST_CHAR_EXPR"], ident_name=NULL, sliteral=NULL, children=absx.new_vec(ex, []), iliteral=rec(ex, "IntegerLiteral", type=ex.tu.enums["INTEGER_INT"], signed_value=v, unsigned_value=0))
    r = R.resolver(ex, ast); o = ex.obj(ex.call(FnVal("resolve_primary_expr"), [r], None).b, "result").fields
    ex.oblige("a character constant is accepted", isn(o["errs"]) and not isn(o["srt"]), "post"); t = ex.obj(o["srt"].b, "tree").fields; il = ex.obj(t["iliteral"].b, "constant").fields
    ex.oblige("a character constant is an int with the value of its char", z3.And(z3.BoolVal(t["type"] == ex.tu.enums["SRT_ILITERAL_EXPR"] and ex.obj(t["dtype"].b, "type").fields["type"] == ex.tu.enums["DTYPE_INT"] and il["type"] == ex.tu.enums["INTEGER_INT"]), z3.SignExt(56, z3.Extract(7, 0, v)) == il["signed_value"]), "post"); tell(ex, "char")
def h_strexpr(ex):
    import resolve_spec as R
    E = ex.tu.enums; n = z3.BitVec("n", 32); ex.assume(z3.And(n >= 1, n < 1 << 26)); b = opaque(ex, "bytes", "bytes"); s = rec(ex, "StringLiteral", value=b, size=n); cp = []
    def copy(ex2, a): ex.oblige("the string copied is the one written", a[0].b == s.b, "post"); c = rec(ex, "StringLiteral", value=opaque(ex, "bytes", "copy"), size=n); cp.append(c.b); return c
    ex.eng.overrides["sliteral_copy"] = copy
    ast = rec(ex, "Ast", type=E["AST_STRING_EXPR"], ident_name=NULL, iliteral=NULL, sliteral=s, children=absx.new_vec(ex, [])); tr = rec(ex, "Srt", type=E["SRT_TRAS_UNIT"] if "SRT_TRAS_UNIT" in E else 0, children=absx.new_vec(ex, []))
    k = z3.BitVec("id", 32); ex.assume(z3.And(k >= -1, k < 1 << 26)); r = R.resolver(ex, ast, trans_unit_srt=tr, sliteral_id=k); o = ex.obj(ex.call(FnVal("resolve_primary_expr"), [r], None).b, "result").fields
    ok = isn(o["errs"]) and not isn(o["srt"]); ex.oblige("a string is accepted", ok, "post")
    f = lambda p: ex.obj(p.b, "tree").fields; kids = lambda p: absx.vec(ex, f(p)["children"])[1]
    arr = lambda p: (lambda d: z3.And(z3.BoolVal(d["type"] == E["DTYPE_ARRAY"] and f(f(d["darray"])["of_dtype"])["type"] == E["DTYPE_CHAR"]), f(d["darray"])["size"] == n))(f(p))
    t = f(o["srt"]); ex.oblige("a string is an array of its bytes, under a number of its own", z3.And(z3.BoolVal(t["type"] == E["SRT_STR_EXPR"]), arr(t["dtype"]), t["sliteral_id"] == k + 1, f(r)["sliteral_id"] == k + 1), "post")
    ds = kids(tr); ok = len(ds) == 1 and f(ds[0])["type"] == E["SRT_DECL_LIST"] and len(kids(ds[0])) == 1; ex.oblige("a string has one definition", ok, "post")
    if not ok: return
    d = kids(ds[0])[0]; de, ini = kids(d); sl = f(kids(ini)[0])["sliteral"]
    ex.oblige("the definition has its number, type and bytes", z3.And(z3.BoolVal(f(d)["type"] == E["SRT_INIT_DECL"] and f(de)["type"] == E["SRT_STR_DECL"] and f(ini)["type"] == E["SRT_INIT"] and len(kids(ini)) == 1 and sl.b in cp), f(de)["sliteral_id"] == k + 1, arr(f(de)["dtype"])), "post"); tell(ex, "string")
def prove(ctx):
    import x64spec as X, resolve_spec as R
    S.tu(); tu(); X.tu(); R.tu()
    u = [("read_escape_seqence", S.mk, S.h_escape), ("read_character_constant", S.mk, S.h_char), ("read_string_literal", S.mk, S.h_string), ("new_octdigit_map", *S.table_units()["octdigit_map"][1:]), ("new_hexdigit_map", *S.table_units()["hexdigit_map"][1:]), ("get_content_top", S.mk_top, S.h_top),
         ("sliteral_display_string", mk, h_display), ("x64data_tostring: strings", mk, h_datastr), ("sliteral_copy", mk, h_copy(False)), ("sliteral_zero_padding_copy", mk, h_copy(True)),
         ("gen_str_x64code", mk_store, h_store), ("resolve_character_expr", R.mk, h_char), ("resolve_string_expr", R.mk, h_strexpr)]
    ctx.prove_all([(n, (lambda c, n=n, m=m, h=h: c.prove_harness(n, m, h))) for n, m, h in u])
# ---- native: whole programs against gcc
def program(r):
    """functions that return checksums over strings in every place they can be written"""
    def lit(n):
        o = ""
        for _ in range(n):
            x = r.random()
            if x < .4: o += r.choice("abcXYZ09 ~!#$%&'()*+,-./:;<=>@[]^_`{|}")
            elif x < .6: o += "\\" + r.choice("'\"?\\abfnrtv")
            elif x < .8: o += "\\%03o" % r.randrange(256)
            else: o += "\\x%02x\" \"" % r.randrange(256) if False else "\\%03o" % r.choice([0, 7, 127, 128, 255])
        return o
    g, f = [], []; sizes = [1, 2, 3, 4, 5, 6, 7, 8, 9, 11, 12, 13, 15, 16, 17, 20, 31, 33, 64]
    for i in range(10):
        n = r.choice(sizes); k = r.randrange(0, n)
        g.append(f'char g{i}[{n}] = "{lit(k)}";')
        f.append((f"tg{i}", f"int tg{i}(int s) {{ for (int i = 0; i < {n}; i++) s = s * 31 + g{i}[i]; return s; }}"))
    for i in range(14):
        n = r.choice(sizes); k = r.randrange(0, n); pre = r.choice(["", "char a = 5;", "int a = 6;", "char a = 1; char b = 2;"]); use = "s = s * 7 + a;" if "a" in pre else ""
        f.append((f"tl{i}", f'int tl{i}(int s) {{ {pre} char v[{n}] = "{lit(k)}"; char z = 77; for (int i = 0; i < {n}; i++) s = s * 31 + v[i]; {use} return s * 3 + z; }}'))
    for i in range(6):
        k = r.randrange(0, 30); l = lit(k)
        f.append((f"tp{i}", f'int tp{i}(int s) {{ char* p = "{l}"; for (int i = 0; i < {k + 1}; i++) s = s * 31 + p[i]; return s; }}'))
    for i in range(4):
        n = r.choice([1, 2, 3, 5, 8, 9]); a, b = lit(r.randrange(n)), lit(r.randrange(n))
        f.append((f"ts{i}", f'struct S{i} {{ char c; char v[{n}]; int k; char w[{n}]; }}; int ts{i}(int s) {{ struct S{i} x = {{3, {{"{a}"}}, 9, {{"{b}"}}}}; for (int i = 0; i < {n}; i++) s = s * 31 + x.v[i] * 5 + x.w[i]; return s + x.c + x.k; }}'))
    for i in range(6):
        n = r.choice([1, 2, 3, 5, 6, 7, 10, 11, 13]); k = r.randrange(1, 4); l = lit(r.randrange(n)); cs = "".join(f" char c{j};" for j in range(k)); vs = "".join(f"{j + 3}, " for j in range(k))
        f.append((f"tu{i}", f'struct U{i} {{{cs} char v[{n}]; }}; int tu{i}(int s) {{ int a = 1111111; struct U{i} x = {{{vs}{{"{l}"}}}}; char z = 99; for (int i = 0; i < {n}; i++) s = s * 31 + x.v[i]; return s * 5 + a + z + x.c0; }}'))
    for i in range(6):
        cs = [r.choice(["'%s'" % r.choice(["\\" + e for e in "'\"?\\abfnrtv"] + ["a", "Z", "~", '"'] + ["\\%o" % r.randrange(256), "\\x%x" % r.randrange(256), "\\%o" % r.randrange(128, 256)])]) for _ in range(6)]
        f.append((f"tc{i}", f"int tc{i}(int s) {{ " + " ".join(f"s = s * 31 + {c};" for c in cs) + " return s; }"))
    return g, f
def native(ctx, n, seed):
    import e2e, tempfile, shutil
    exe = e2e.build_umlcc(ctx); st = [0, 0]
    import concurrent.futures as cf
    def go(k):
        r = random.Random(seed * 977 + k); g, f = program(r); src = "\n".join(g + [x for _, x in f]) + "\n"; d = tempfile.mkdtemp(dir=ctx.scratch)
        try:
            m = e2e.compile_pair(d, exe, src)
            if m is None:
                drv = "#include <stdio.h>\n#include <unistd.h>\n" + "".join(f"int u_{x}(int), r_{x}(int);\n" for x, _ in f) + "int main(void) { int bad = 0; alarm(20);\n" + "".join(f'if (u_{x}(1) != r_{x}(1)) {{ printf("{x}: umlcc %d gcc %d\\n", u_{x}(1), r_{x}(1)); bad = 1; }}\n' for x, _ in f) + 'if (!bad) printf("same\\n"); return bad; }\n'
                m = e2e.run_pair(d, drv)
            return m, src
        finally: shutil.rmtree(d, ignore_errors=True)
    with cf.ThreadPoolExecutor(8) as ex: rs = list(ex.map(go, range(n)))
    rej = [m for m, _ in rs if m and m[0] in ("gcc", "link")]
    for m, src in rs:
        if m and m[0] not in ("gcc", "link"): return f"{m[1]}\n\nprogram:\n{src}", n, len(rej)
    if rej: ctx.notes.append("programs set aside: " + rej[0][1][-200:])
    return None, n, len(rej)
def both(ctx, nl, ne, seed):
    import lexgen
    m, a, n = lexgen.native(ctx, nl, seed, "C05")
    if m: return m, 0
    m, k, rej = native(ctx, ne, seed); return m, n
def search(ctx, failed, struct):
    for k in range(3):
        m = both(ctx, 4000, 24, runner.SEED + k)[0]
        if m: return m
def standin(ctx):
    q = runner.TIER == "quick"; m, n = both(ctx, 2000 if q else 40000, 16 if q else 200, runner.SEED)
    ctx.bounded.append({"what": "random texts scanned by the real scanner and a reference scanner; random programs with strings and character constants in every place, compiled by umlcc and gcc and compared", "cases": n, "label": "bounded"})
    return m

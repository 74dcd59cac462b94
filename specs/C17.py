"""C17: expressions evaluate their operands and produce the value C prescribes."""
import z3, runner, itertools
import absx, objs, e2e
from objs import *
import imm_spec as M, resolve_spec as R
import x86, x64spec as X
import C12, C13, C14, C15, exprgen
from x86 import BV, lo, sx, zx, B64, B8, divop
from imm_spec import W, SUF, UNSIGNED, nbytes, zi
META = dict(technique="contract-based deductive verification (CVV: VCs from the clang AST of /repo, z3/cvc5); each operator's generator is run with its operands by contract, and the intermediate code it emits is executed symbolically under the instruction meanings proved in C12-C15",
            level_note="every operator and operand type, operands of any value (and any constant, folded or not), memory of any content; every emitted instruction is one whose machine code is proved in C12-C15; member access with structs up to 3 members and calls up to 8 arguments stand for more")
TRUSTED = M.TRUSTED + ["meaning of the intermediate instructions as proved for their machine code in C12-C15"]
ASSUMPTIONS = ["operands are translated by contract (induction over the tree): they define new registers only, leave their value in the register they name, and may change memory",
               "the scaled index of pointer arithmetic fits the width of the index (32-bit indices are scaled at 32 bits: known finding)", "pointers that are compared lie in the lower half of the address space",
               "compound assignment is resolved into its long form, evaluating the left side twice (known finding)"]
SHAPES = set(C12.SHAPES) | set(C12.SH) | set(C12.UN) | set(C13.SHAPES) | set(C14.SHAPES) | set(C15.SHAPES)
INTT = [("CHAR",), ("INT",), ("UNSIGNED_INT",), ("LONG",), ("UNSIGNED_LONG",), ("LONGLONG",), ("UNSIGNED_LONGLONG",)]
PROM = INTT[1:]
PTR = lambda d: ("POINTER", d)
ST = ("STRUCT", "s", (("a", ("INT",), 0), ("b", ("CHAR",), 4), ("c", ("LONG",), 8)), 16, 8)
OBJ = [("CHAR",), ("INT",), ("LONG",), PTR(("INT",)), ("ARRAY", ("INT",), 3), ST]
bits = lambda d: 8 * nbytes(d)
uns = lambda d: d[0] in UNSIGNED
def conv(v, u, w): return lo(v, w) if w <= v.size() else zx(v, w) if u else sx(v, w)
def load(mem, a, w):
    bs = [z3.Select(mem, a + BV(i, 64)) for i in range(w // 8)]
    return z3.Concat(*reversed(bs)) if len(bs) > 1 else bs[0]
def save(mem, a, v):
    for i in range(v.size() // 8): mem = z3.Store(mem, a + BV(i, 64), z3.Extract(8 * i + 7, 8 * i, v))
    return mem
def mk():
    e = M.mk("bv")
    def symboltable_search(ex, a):
        n = strid(ex, a[1]); s = ex.ghost["syms"].get(n)
        ex.oblige("only names of the program are looked up", s is not None, "post")
        ex.oblige("names are looked up in the current scope", a[0] == ex.ghost["w"].sp, "post")
        return s[1]
    def create_sliteral_label(ex, a): return absx.new_str(ex, ("sl", a[0]))
    def tagtable_search(ex, a):
        n = strid(ex, a[1]); t = ex.ghost["tags"].get(n); ex.oblige("only tags of the program are looked up", t is not None, "post"); return t
    e.overrides.update(symboltable_search=symboltable_search, create_sliteral_label=create_sliteral_label, tagtable_search=tagtable_search)
    return e
def S64(v): return v if isz(v) else BV(v, 64)
class T:
    """an expression world: operands, the node, its code executed"""
    def __init__(s, ex): s.ex = ex; s.kids = []; ex.ghost["syms"] = {}; ex.ghost["tags"] = {}; s.nk = 0; s.names = 0; s.real = set()
    # ---- operands: (tree, description of value, names of kids needed)
    def kid(s, d, name=None):
        s.nk += 1; n = name or f"operand {s.nk}"; p = mksrt(s.ex, "CALL_EXPR" if d[0] != "VOID" else "CALL_EXPR", d, ident=n)
        s.kids.append((p, n, dict(dtype=d))); return dict(p=p, d=d, kids=[n], val=lambda: s.w_val(n))
    def w_val(s, n): return s.vals[n]
    def lit(s, d, cast=None):
        """a literal of type d (any value of the type), wrapped in a conversion to cast"""
        ex = s.ex; E = ex.tu.enums; s.nk += 1; t = d[0]; u = uns(d)
        v = z3.BitVec(f"lit{s.nk}", bits(d)); v64 = zx(v, 64) if u else sx(v, 64)
        il = rec(ex, "IntegerLiteral", type=E["INTEGER_" + t], signed_value=0 if u else v64, unsigned_value=v64 if u else 0)
        p = mksrt(ex, "ILITERAL_EXPR", d, il=il); dd = d; s.real.add(p.b)
        if cast: v = conv(v, u, bits(cast)); p = mksrt(ex, "CAST_EXPR", cast, [p]); dd = cast; s.real.add(p.b)
        return dict(p=p, d=dd, kids=[], val=lambda: v, lit=1)
    def charlit(s):
        """a character constant's type is int; small literals under a conversion to char"""
        return s.lit(("INT",), ("CHAR",))
    def sym(s, d, kind):
        """a named object; kind: label or mem"""
        ex = s.ex; s.names += 1; n = f"x{s.names}"; E = ex.tu.enums
        off = z3.BitVec(f"off{s.names}", 32); ex.assume(z3.And(off > 0, off < 1 << 28))
        sy = rec(ex, "Symbol", type=E["SYMBOL_LABEL"] if kind == "label" else E["SYMBOL_MEM"], name=absx.new_str(ex, n), dtype=dt(ex, d), memory_offset=off if kind == "mem" else 0, iliteral=NULL)
        ex.ghost["syms"][n] = (kind, sy)
        return n, (s.laddr(n) if kind == "label" else z3.BitVec("rbp", 64) - sx(off, 64))
    def laddr(s, n): return z3.Const(f"addr_{n}", B64)
    def addrof(s, d, kind):
        n, a = s.sym(d, kind); p = mksrt(s.ex, "ADDR_EXPR", PTR(d), [mksrt(s.ex, "IDENT_EXPR", d, ident=n)]); s.real.add(p.b)
        return dict(p=p, d=PTR(d), kids=[], val=lambda: a)
    def rel(s, op, a, b):
        """a comparison as a condition: looked into by the code, so not by contract"""
        p = mksrt(s.ex, op + "_EXPR", ("INT",), [a["p"], b["p"]]); s.real.add(p.b); f = X.REL[M.OPN[op]][1 if uns(a["d"]) else 0]
        return dict(p=p, d=("INT",), kids=a["kids"] + b["kids"], val=lambda: z3.If(f(a["val"](), b["val"]()), BV(1, 32), BV(0, 32)))
    # ---- running
    def go(s, kind, d, ops, what, **kw):
        ex = s.ex; s.what = what; ex.ghost["case"] = what
        s.srt = mksrt(ex, kind, d, [o["p"] if isinstance(o, dict) else o for o in ops], **kw)
        s.w = w = W(ex, s.srt); ex.ghost["w"] = w; w.hook["real"] = s.real; w.hook["named"] = 1; s.d = d
        for p, n, k in s.kids: w.kid(p, n, **k)
        orig = w.child; regof = s.regof = {}
        def child(ex, a):
            r = orig(ex, a)
            if r is NotImplemented: return r
            k = w.last
            for c in absx.vec(ex, r)[1]: regof[c.b] = (k["name"], k.get("reg"), k["dtype"])
            return r
        ex.ghost["child"] = child
        w.run(); w.restored(); s.exec()
        return s
    def reads(s, o, w=None):
        k, suf = o[0], o[1]
        if k == "REG":
            s.ex.oblige(f"{s.what}: a register is read after it was written", o[2] in s.regs, "post")
            v = s.regs[o[2]]; n = 8 * M.NB[suf]
            s.ex.oblige(f"{s.what}: a register is read at the width of its value", v.size() == n or n < v.size(), "post")
            return lo(v, n)
        if k == "INT": return lo(S64(o[2]), 8 * M.NB[suf]) if M.NB[suf] else S64(o[2])
        raise Structural("operand kind " + k)
    def addr(s, o):
        if o[0] == "MEM": return z3.BitVec("rbp", 64) - sx(o[2] if isz(o[2]) else BV(o[2], 32), 64)
        if o[0] == "LABEL": return s.laddr(o[2] if isinstance(o[2], str) else str(o[2]))
        s.ex.oblige(f"{s.what}: an address register is written before it is used", o[2] in s.regs and s.regs[o[2]].size() == 64, "post")
        return s.regs[o[2]]
    def put(s, o, v):
        ex = s.ex
        ex.oblige(f"{s.what}: a result goes to a register of its width", o is not None and o[0] == "REG" and 8 * M.NB[o[1]] == v.size(), "post")
        own = s.w.reg0 < o[2] <= s.w.f["next_reg_id"]
        ex.oblige(f"{s.what}: only registers of this expression are written", own, "post")
        for r in s.spent: pass
        s.regs[o[2]] = v
    def use(s, o, dst):
        """C12: a first operand is consumed"""
        if o[0] == "REG" and not (dst is not None and dst[2] == o[2]): s.spent.add(o[2])
    def shape(s, t): s.ex.oblige(f"{s.what}: the instruction is one proved in C12-C15 ({' '.join(map(str, t))})", t in SHAPES, "post")
    def exec(s):
        ex = s.ex; prog = s.w.prog; codes = s.w.codes; s.regs = {}; s.vals = {}; s.evald = []; s.spent = set(); s.mem = z3.Const("mem", z3.ArraySort(B64, B8)); s.stores = []; s.events = []; pos = 0; steps = 0; s.memk = s.mem
        while pos < len(prog):
            steps += 1
            if steps > 300: ex.oblige(f"{s.what}: the code comes to an end", False, "post")
            c = prog[pos]
            if c[0] == "label": pos += 1; continue
            if c[0] == "mark":
                n, reg, d = s.regof[codes[pos].b]
                ex.oblige(f"{s.what}: {n} is evaluated once", n not in s.evald, "post")
                s.evald.append(n); s.events.append(("eval", n))
                if d[0] != "VOID":
                    s.vals[n] = s.regs[reg] = z3.BitVec("v " + n, bits(d))
                    if d[0] == "POINTER": ex.assume(z3.Extract(63, 63, s.vals[n]) == 0)
                s.mem = s.memk = z3.Const(f"mem after {n}", z3.ArraySort(B64, B8)) if not s.stores else z3.Const(f"mem after {n} and stores", z3.ArraySort(B64, B8))
                pos += 1; continue
            i, d, f, g = c[1:]
            for o in (f, g):
                if o is not None and o[0] in ("REG", "PTR"): ex.oblige(f"{s.what}: a consumed register is not read again", o[2] not in s.spent, "post")
            if d is not None and d[0] == "PTR": ex.oblige(f"{s.what}: a consumed register is not read again", d[2] not in s.spent, "post")
            nx = pos + 1
            if i == "LOAD":
                w = 8 * M.NB[d[1]]
                if f[0] == "REG": s.shape(("LOAD", "REG", f[1], d[1])); v = conv(s.reads(f), bool(f[3]), w)
                elif f[0] == "INT":
                    s.shape(("LOAD", "INT", f[1], d[1])); v = lo(S64(f[2]), w)
                else: s.shape(("LOAD", f[0], "LONG", d[1])); v = load(s.mem, s.addr(f), w)
                s.put(d, v)
            elif i == "STORE":
                s.shape(("STORE", d[0], f[0], f[1])); v = s.reads(f); a = s.addr(d); s.mem = save(s.mem, a, v); s.stores.append((a, v)); s.events.append(("store",))
            elif i == "ADDR": s.shape(("ADDR", f[0])); s.put(d, s.addr(f))
            elif i in X.OPS:
                s.shape((i, g[0], f[1], g[1], d[1]))
                a, b = s.reads(f), s.reads(g); ww = max(a.size(), b.size())
                if g[0] == "REG": ex.oblige(f"{s.what}: the two operands are in different registers", f[2] != g[2], "post")
                if i in ("DIV", "MOD"): ex.oblige(f"{s.what}: division with one signedness", bool(f[3]) == bool(d[3]) and (bool(g[3]) == bool(d[3]) if g[0] == "REG" else str(g[3]).startswith("UNSIGNED") == bool(d[3])), "post")
                gu = bool(g[3]) if g[0] == "REG" else str(g[3]).startswith("UNSIGNED")
                r = X.OPS[i](conv(a, bool(f[3]), ww), conv(b, gu, ww), z3.BoolVal(bool(d[3])))
                s.put(d, conv(z3.simplify(r) if False else r, bool(d[3]), 8 * M.NB[d[1]])); s.use(f, d)
            elif i in ("SAL", "SAR"):
                s.shape((i, f[1], g[1])); a = s.reads(f); ex.oblige(f"{s.what}: shift count is a constant", g[0] == "INT", "post"); cnt = lo(S64(g[2]), a.size())
                ex.oblige(f"{s.what}: a shift keeps width and signedness", f[1] == d[1] and bool(f[3]) == bool(d[3]), "post")
                s.put(d, a << cnt if i == "SAL" else z3.LShR(a, cnt) if f[3] else a >> cnt); s.use(f, d)
            elif i in ("NEG", "NOT"):
                s.shape((i, f[0], f[1])); a = s.reads(f); s.put(d, -a if i == "NEG" else ~a); s.use(f, d)
            elif i.startswith("SET") or i.startswith("J") and i != "JMP":
                rel = i[3:] if i.startswith("SET") else i[1:]
                s.shape((i, g[0], f[1], g[1])); a, b = s.reads(f), s.reads(g)
                gu = bool(g[3]) if g[0] == "REG" else str(g[3]).startswith("UNSIGNED")
                if rel not in ("EQ", "NEQ"): ex.oblige(f"{s.what}: compared with one signedness", bool(f[3]) == gu, "post")
                cond = X.REL[rel][1 if f[3] else 0](a, b)
                if i.startswith("SET"): s.put(d, z3.If(cond, BV(1, 32), BV(0, 32))); s.use(f, d)
                elif ex.branch(cond): nx = s.target(d)
            elif i == "JMP": nx = s.target(d)
            elif i in ("PREP", "CLEAN"): s.events.append((i, f[2]))
            elif i == "STARG": s.shape(("STARG", f[0], f[1])); s.events.append((i, d[2], s.reads(f), f[1]))
            elif i == "CALL":
                s.shape(("CALL", f[0], d[1] if d is not None else None))
                s.events.append((i, s.addr(f), g[2], s.mem)); s.mem = z3.Const("mem after call", z3.ArraySort(B64, B8)); s.stores.append("call")
                if d is not None: s.result = z3.BitVec("returned", 8 * M.NB[d[1]]); s.put(d, s.result)
            else: raise Structural("instruction " + i)
            pos = nx
    def target(s, d):
        for k, c in enumerate(s.w.prog):
            if c[0] == "label" and M.leq(c[1], d[2]): return k
        s.ex.oblige(f"{s.what}: a jump stays inside the expression", False, "post")
    # ---- the outcome
    def value(s, v):
        ex = s.ex; f = s.w.f; r = f["expr_reg"]
        ex.oblige(f"{s.what}: leaves its value in a register", isinstance(r, P) and not isn(r), "post")
        rf = ex.obj(r.b, "register").fields; d = s.d; i = rf["reg_id"]
        ex.oblige(f"{s.what}: the value has the width of its type", f["expr_reg_suffix"] == s.w.E["IMMC_SUFFIX_" + SUF[nbytes(d)]], "post")
        ex.oblige(f"{s.what}: the value's register belongs to this expression", i in s.regs and s.w.reg0 < i <= f["next_reg_id"] and i not in s.spent, "post")
        ex.oblige(f"{s.what}: the value's register has the width of the type", s.regs[i].size() == bits(d), "post")
        ex.oblige(f"{s.what}: the value has the signedness of its type", bool(rf["is_unsigned"]) == uns(d), "post") if not getattr(s, "anysign", 0) else None
        ex.oblige(f"{s.what}: the value is the one C prescribes", s.regs[i] == v, "post")
        ex.eng.reach.append((s.what, list(ex.pc)))
    def once(s, *ops):
        want = [n for o in ops for n in o["kids"]]
        s.ex.oblige(f"{s.what}: every operand is evaluated exactly once", sorted(s.evald) == sorted(want), "post")
    def nostore(s): s.ex.oblige(f"{s.what}: nothing is stored", not s.stores, "post")
    def stored(s, a, v):
        ex = s.ex; x = z3.Const("anyaddr", B64)
        ex.oblige(f"{s.what}: one object is stored, after its operands are evaluated", len(s.stores) == 1 and s.stores[0] != "call" and s.events[-1] == ("store",), "post")
        ex.oblige(f"{s.what}: exactly the designated object changes, to the value", z3.Select(s.mem, x) == z3.Select(save(s.memk, a, v), x), "post")
# ---------------------------------------------------------------- operators
def shapes(t, d):
    """operands of type d: an expression, a constant, a converted constant"""
    lt = d if d[0] in ("INT", "UNSIGNED_INT", "LONG", "UNSIGNED_LONG", "LONGLONG", "UNSIGNED_LONGLONG") else None
    r = [lambda: t.kid(d)]
    if lt: r.append(lambda: t.lit(d))
    if d[0] in SIZE and d[0] != "POINTER": r.append(lambda: t.lit(("INT",) if d[0] != "INT" else ("LONG",), d)); r.append(lambda: t.lit(("UNSIGNED_INT",), d))
    return r
BIN = {"ADD": "ADD", "SUB": "SUB", "MUL": "MUL", "DIV": "DIV", "MOD": "MOD", "AND": "AND", "OR": "OR", "XOR": "XOR"}
def h_bin(op, d, i, j):
    def h(ex):
        t = T(ex); s1, s2 = shapes(t, d), shapes(t, d); a, b = s1[i](), s2[j]()
        t.go(op + "_EXPR", d, [a, b], f"{op} {d[0]} {i}{j}")
        t.once(a, b); t.nostore(); t.value(X.OPS[op](a["val"](), b["val"](), z3.BoolVal(uns(d))))
    return h
def h_shift(op, d, i, dc):
    def h(ex):
        t = T(ex); a = shapes(t, d)[i](); b = t.lit(dc); c = b["val"](); ex.assume(z3.ULT(c, bits(d)))
        t.go(op + "_EXPR", d, [a, b], f"{op} {d[0]} by {dc[0]} {i}"); t.once(a, b); t.nostore()
        v = a["val"](); c = conv(c, uns(dc), bits(d)); t.value(v << c if op == "LSHIFT" else z3.LShR(v, c) if uns(d) else v >> c)
    return h
def h_rel(op, d, i, j):
    def h(ex):
        t = T(ex); a, b = shapes(t, d)[i](), shapes(t, d)[j]()
        t.go(op + "_EXPR", ("INT",), [a, b], f"{op} {d[0]} {i}{j}"); t.once(a, b); t.nostore()
        f = X.REL[M.OPN[op]][1 if uns(d) else 0]; t.value(z3.If(f(a["val"](), b["val"]()), BV(1, 32), BV(0, 32)))
    return h
def h_un(op, d, i):
    def h(ex):
        t = T(ex); a = shapes(t, d)[i]()
        t.go(op + "_EXPR", ("INT",) if op == "LNOT" else d, [a], f"{op} {d[0]} {i}"); t.once(a); t.nostore(); v = a["val"]()
        t.value({"POS": lambda: v, "NEG": lambda: -v, "NOT": lambda: ~v, "LNOT": lambda: z3.If(v == 0, BV(1, 32), BV(0, 32))}[op]())
    return h
def h_cast(src, d, i):
    def h(ex):
        t = T(ex); a = shapes(t, src)[i]()
        t.go("CAST_EXPR", d, [a], f"({d[0]}) {src[0]} {i}"); t.once(a); t.nostore()
        if d[0] == "VOID": voidres(t)
        else: t.value(conv(a["val"](), uns(src), bits(d)))
    return h
def voidres(t):
    f = t.w.f; t.ex.oblige(f"{t.what}: a void expression has no value", isn(f["expr_reg"]) and f["expr_reg_suffix"] == t.w.E["IMMC_SUFFIX_NONE"], "post"); t.ex.eng.reach.append((t.what, list(t.ex.pc)))
def h_voidcast(ex):
    t = T(ex); a = t.kid(("VOID",)); t.go("CAST_EXPR", ("VOID",), [a], "(void) void"); t.once(a); voidres(t)
def conds(t):
    r = [lambda d=d: t.kid(d) for d in (("INT",), ("CHAR",), ("UNSIGNED_INT",), ("LONG",), ("UNSIGNED_LONG",), PTR(("INT",)))] + [lambda: t.lit(("INT",)), lambda: t.lit(("UNSIGNED_LONG",)), lambda: t.lit(("INT",), ("CHAR",))]
    for op in M.OPN:
        for d in (("INT",), ("UNSIGNED_LONG",), PTR(("INT",))):
            r.append(lambda op=op, d=d: t.rel(op, t.kid(d), t.kid(d)))
        r.append(lambda op=op: t.rel(op, t.kid(("INT",)), t.lit(("INT",)))); r.append(lambda op=op: t.rel(op, t.lit(("UNSIGNED_INT",)), t.kid(("UNSIGNED_INT",))))
    return r
NC = 9 + 30
def nz(o): v = o["val"](); return v != 0
def h_logic(op, i, j):
    def h(ex):
        t = T(ex); a, b = conds(t)[i](), conds(t)[j]()
        t.go(op + "_EXPR", ("INT",), [a, b], f"{op} {i} {j}"); t.nostore()
        left = nz(a); need = left if op == "LAND" else z3.Not(left)
        got = all(n in t.evald for n in b["kids"]); non = not any(n in t.evald for n in b["kids"])
        ex.oblige(f"{t.what}: the left operand is evaluated first", all(n in t.evald[:len(a["kids"])] for n in a["kids"]), "post")
        if b["kids"]:
            ex.oblige(f"{t.what}: the right operand is evaluated exactly when the left one does not decide", z3.And(z3.Implies(need, z3.BoolVal(got)), z3.Implies(z3.Not(need), z3.BoolVal(non))), "post")
        if got:
            r = nz(b); t.value(z3.If(z3.And(left, r) if op == "LAND" else z3.Or(left, r), BV(1, 32), BV(0, 32)))
        else: t.value(z3.If(left, BV(1, 32), BV(0, 32)))
    return h
def h_cond(c, d, i, j):
    def h(ex):
        t = T(ex); q = conds(t)[c](); a, b = shapes(t, d)[i](), shapes(t, d)[j]()
        t.go("COND_EXPR", d, [q, a, b], f"?: {c} {d[0]} {i}{j}"); t.nostore(); z = nz(q)
        ex.oblige(f"{t.what}: the condition is evaluated first", all(n in t.evald[:len(q["kids"])] for n in q["kids"]), "post")
        for o, need in ((a, z), (b, z3.Not(z))):
            for n in o["kids"]: ex.oblige(f"{t.what}: exactly the chosen operand is evaluated", z3.BoolVal(n in t.evald) == need, "post")
        v = [o["val"]() if all(n in t.evald for n in o["kids"]) else z3.BitVec("not evaluated", bits(d)) for o in (a, b)]
        t.value(z3.If(z, v[0], v[1]))
    return h
def h_padd(op, obj, d, i):
    def h(ex):
        t = T(ex); a = t.kid(PTR(obj)); b = shapes(t, d)[i]()
        nb = nbytes(obj); v = b["val"]() if b["kids"] == [] else None
        t.go(op + "_EXPR", PTR(obj), [a, b], f"{op} pointer to {obj[0]}, {d[0]} {i}"); t.once(a, b); t.nostore()
        v = b["val"](); w = bits(d); wide = conv(v, uns(d), 64)
        if w == 32:
            prod = conv(v, uns(d), 40) * BV(nb, 40); ex.assume(conv(z3.Extract(31, 0, prod), uns(d), 40) == prod)
            sc = conv(divop("mul", v, BV(nb, 32)), uns(d), 64)
            ex.assume(z3.And(divop("mul", v, BV(nb, 32)) == v * BV(nb, 32), sc == wide * BV(nb, 64)))
        else: ex.assume(divop("mul", v, BV(nb, 64)) == v * BV(nb, 64))
        t.value(a["val"]() + wide * BV(nb, 64) if op == "PADD" else a["val"]() - wide * BV(nb, 64))
    return h
def h_pdiff(obj):
    def h(ex):
        t = T(ex); t.anysign = 1; a, b = t.kid(PTR(obj)), t.kid(PTR(obj))
        t.go("PDIFF_EXPR", ("UNSIGNED_LONGLONG",), [a, b], f"pointer difference, {obj[0]}"); t.once(a, b); t.nostore()
        t.value(divop("sdiv", a["val"]() - b["val"](), BV(nbytes(obj), 64)))
    return h
def ptrs(t, d):
    """addresses of an object of type d"""
    return [lambda: t.kid(PTR(d)), lambda: t.addrof(d, "mem"), lambda: t.addrof(d, "label")]
SC = INTT + [PTR(("INT",)), PTR(("VOID",)), PTR(ST)]
def h_assign(d, i, j):
    def h(ex):
        t = T(ex); p = ptrs(t, d)[j](); v = shapes(t, d)[i]() if d[0] != "POINTER" else [lambda: t.kid(d), lambda: t.kid(d)][0]()
        t.go("ASSIGN_EXPR", d, [p, v], f"assignment {d[0]} {i}{j}"); t.once(p, v)
        t.stored(p["val"](), v["val"]()); t.anysign = 1 if v.get("lit") else 0; t.value(v["val"]())
    return h
def h_incdec(op, d, j):
    def h(ex):
        t = T(ex); p = ptrs(t, d)[j](); t.go(op + "_EXPR", d, [p], f"{op} {d} {j}"); t.once(p)
        a = p["val"](); old = load(t.memk, a, bits(d)); st = 1 if d[0] != "POINTER" else max(1, R.sizeof(d[1]) if d[1][0] != "VOID" else 1)
        new = old + BV(st, bits(d)) if op.endswith("INC") else old - BV(st, bits(d))
        t.stored(a, new); t.value(new if op.startswith("PRE") else old)
    return h
def h_indir(d, j):
    def h(ex):
        t = T(ex); p = ptrs(t, d)[j](); t.go("INDIR_EXPR", d, [p], f"indirection {d[0]} {j}"); t.once(p); t.nostore(); t.value(load(t.memk, p["val"](), bits(d)))
    return h
def h_addr(d, kind):
    def h(ex):
        t = T(ex); n, a = t.sym(d, kind); t.go("ADDR_EXPR", PTR(d), [mksrt(ex, "IDENT_EXPR", d, ident=n)], f"address of a named object, {d[0]} {kind}"); t.nostore(); t.value(a)
    return h
def h_addr_indir(d):
    def h(ex):
        t = T(ex); p = t.kid(PTR(d)); x = mksrt(ex, "INDIR_EXPR", d, [p["p"]]); t.go("ADDR_EXPR", PTR(d), [x], f"&* {d[0]}"); t.once(p); t.nostore(); t.value(p["val"]())
    return h
def h_addr_str(ex):
    t = T(ex); sid = 5; x = mksrt(ex, "STR_EXPR", ("ARRAY", ("CHAR",), 4), sid=sid); t.go("ADDR_EXPR", PTR(("CHAR",)), [x], "address of a string"); t.nostore(); t.value(t.laddr(str(("sl", sid))))
def h_ident(d, kind):
    def h(ex):
        t = T(ex); n, a = t.sym(d, kind); t.go("IDENT_EXPR", d, [], f"variable {d[0]} {kind}", ident=n); t.nostore(); t.value(load(t.mem, a, bits(d)))
    return h
def h_literal(d):
    def h(ex):
        t = T(ex); u = uns(d); v = z3.BitVec("lit", bits(d)); v64 = zx(v, 64) if u else sx(v, 64)
        il = rec(ex, "IntegerLiteral", type=ex.tu.enums["INTEGER_" + d[0]], signed_value=0 if u else v64, unsigned_value=v64 if u else 0)
        t.go("ILITERAL_EXPR", d, [], f"literal {d[0]}", il=il); t.nostore(); t.value(v)
    return h
def h_member(mi, tagged, addr, deep):
    """value or address of member mi of the struct a pointer points to"""
    MEM = [[("a", ("INT",), 0)], [("a", ("INT",), 0), ("b", ("CHAR",), 4), ("c", ("LONG",), 8)], [("x", ("CHAR",), 0), ("y", PTR(("INT",)), 8), ("z", ("UNSIGNED_INT",), 16)], [("q", ("ARRAY", ("INT",), 4), 0), ("r", ("INT",), 16)]][deep]
    def h(ex):
        t = T(ex); name, d, off = MEM[mi]; full = ("STRUCT", "s", tuple(MEM), 24, 8)
        base = ("STRUCT", "s", None, 24, 8) if tagged else full
        ex.ghost["tags"]["s"] = dt(ex, full); p = t.kid(PTR(base)); mem = mksrt(ex, "IDENT_EXPR", d, ident=name)
        if addr:
            x = mksrt(ex, "TOMEMBER_EXPR", d, [p["p"], mem]); t.go("ADDR_EXPR", PTR(d), [x], f"address of member {name}"); t.once(p); t.nostore(); t.value(p["val"]() + BV(off, 64))
        else: t.go("TOMEMBER_EXPR", d, [p, mem], f"member {name} {d[0]}"); t.once(p); t.nostore(); t.value(load(t.memk, p["val"]() + BV(off, 64), bits(d)))
    return h
def h_call(args, rd, fk):
    """args: list of (type, shape)"""
    def h(ex):
        t = T(ex); ft = ("FUNCTION", tuple((f"p{i}", d) for i, (d, _) in enumerate(args)), rd)
        f = t.addrof(ft, "label") if fk == "name" else t.kid(PTR(ft)); av = [shapes(t, d)[i]() for d, i in args]
        lst = mksrt(ex, "ARG_LIST", None, [a["p"] for a in av]); t.real.add(lst.b)
        t.go("CALL_EXPR", rd, [f["p"], lst], f"call {fk} {[(d[0], i) for d, i in args]} {rd[0]}"); t.once(f, *av)
        ev = [e for e in t.events if e[0] != "eval"]; n = len(args); w = t.what
        ex.oblige(f"{w}: the call is prepared before its arguments and cleaned up after it", len(ev) == n + 3 and t.events[0] == ("PREP", n) and t.events[-1] == ("CLEAN", n) and t.events[-2][0] == "CALL" and t.events[-2][2] == n, "post")
        sa = [e for e in ev if e[0] == "STARG"]
        ex.oblige(f"{w}: every argument is handed over, last first", [e[1] for e in sa] == list(range(n))[::-1], "post")
        for e in sa:
            d, _ = args[e[1]]; ex.oblige(f"{w}: an argument is handed over with its value and width", z3.And(e[2] == av[e[1]]["val"](), z3.BoolVal(e[3] == SUF[nbytes(d)])) if e[2].size() == bits(d) else False, "post")
        ex.oblige(f"{w}: the designated function is called", t.events[-2][1] == f["val"](), "post")
        ex.oblige(f"{w}: nothing is stored", t.stores == ["call"], "post")
        if rd[0] == "VOID": voidres(t)
        else: t.value(t.result)
    return h
def many(hs):
    def h(ex): hs[ex.choose(len(hs))](ex)
    return h
def ns(d): return 3 if d[0] == "CHAR" or d[0] == "ENUM" else 4 if d[0] in SIZE and d[0] != "POINTER" else 1
def units():
    sh = lambda d: range(ns(d)); u = []
    for op in BIN: u.append((f"{op}_EXPR", many([h_bin(op, d, i, j) for d in PROM for i in sh(d) for j in sh(d)])))
    for op in ("LSHIFT", "RSHIFT"): u.append((f"{op}_EXPR", many([h_shift(op, d, i, c) for d in PROM for i in sh(d) for c in PROM])))
    for op in M.OPN: u.append((f"{op}_EXPR", many([h_rel(op, d, i, j) for d in PROM + [PTR(("INT",))] for i in sh(d) for j in sh(d)])))
    for op in ("POS", "NEG", "NOT"): u.append((f"{op}_EXPR", many([h_un(op, d, i) for d in PROM for i in sh(d) if not (op == "POS" and i)])))
    u.append(("LNOT_EXPR", many([h_un("LNOT", d, i) for d in INTT + [PTR(("INT",))] for i in sh(d)])))
    u.append(("CAST_EXPR", many([h_cast(a, b, i) for a in SC for b in SC for i in sh(a)] + [h_cast(a, ("VOID",), 0) for a in SC] + [h_voidcast])))
    for op in ("LAND", "LOR"):
        prs = [(i, j) for i in range(NC) for j in range(NC) if 0 in (i, j) or (i - j) % 13 == 4]
        for k in range(2): u.append((f"{op}_EXPR {k}", many([h_logic(op, i, j) for i, j in prs if (i + j) % 2 == k])))
    cd = [(c, d, i, j) for c in range(NC) for d in [("INT",), ("UNSIGNED_LONG",), ("CHAR",), PTR(("INT",))] for i in sh(d)[:2] for j in sh(d)[:2] if c == 0 or c < 9 and i + j == 1 or (c + i) % 4 == 0 and d == ("INT",)]
    u.append(("COND_EXPR", many([h_cond(*x) for x in cd])))
    for op in ("PADD", "PSUB"): u.append((f"{op}_EXPR", many([h_padd(op, o, d, i) for o in OBJ for d in PROM for i in sh(d)[:2]])))
    u.append(("PDIFF_EXPR", many([h_pdiff(o) for o in OBJ])))
    u.append(("ASSIGN_EXPR", many([h_assign(d, i, j) for d in SC for i in (sh(d) if d[0] != "POINTER" else (0,)) for j in (0, 1, 2)])))
    for op in ("PREINC", "PREDEC", "POSTINC", "POSTDEC"): u.append((f"{op}_EXPR", many([h_incdec(op, d, j) for d in SC + [PTR(("LONG",)), PTR(("ARRAY", ("INT",), 3))] for j in (0, 1, 2)])))
    u.append(("INDIR_EXPR", many([h_indir(d, j) for d in SC for j in (0, 1, 2)])))
    u.append(("ADDR_EXPR", many([h_addr(d, k) for d in SC + [ST, ("ARRAY", ("INT",), 3)] for k in ("mem", "label")] + [h_addr_indir(d) for d in SC] + [h_addr_str])))
    u.append(("IDENT_EXPR", many([h_ident(d, k) for d in SC for k in ("mem", "label")]))); u.append(("ILITERAL_EXPR", many([h_literal(d) for d in PROM])))
    u.append(("TOMEMBER_EXPR", many([h_member(i, tg, ad, k) for k, n in enumerate((1, 3, 3, 2)) for i in range(n) for tg in (0, 1) for ad in (0, 1) if ad or not (k == 3 and i == 0)])))
    A = [("INT",), ("CHAR",), ("LONG",), ("UNSIGNED_LONG",), PTR(("INT",))]
    cs = [h_call([], rd, fk) for rd in [("VOID",)] + SC for fk in ("name", "pointer")] + [h_call([(d, i)], rd, fk) for d in SC for i in range(min(2, ns(d))) for rd in (("VOID",), ("INT",)) for fk in ("name", "pointer")]
    cs += [h_call([(a, i), (b, j)], ("LONG",), "name") for a in A for b in A for i in range(min(2, ns(a))) for j in range(min(2, ns(b)))] + [h_call([(A[k % 5], 0 if A[k % 5][0] == "POINTER" else k % 2) for k in range(n)], ("INT",), fk) for n in range(3, 9) for fk in ("name", "pointer")]
    u.append(("CALL_EXPR", many(cs)))
    return u
def prove(ctx):
    M.tu()
    ctx.prove_all([(n, (lambda c, n=n, h=h: c.prove_harness(n, mk, h))) for n, h in units()])
def native(ctx, n, m):
    r = exprgen.programs(ctx, n, runner.SEED)
    if r: return r
    r, st = e2e.search(ctx, m, runner.SEED); return r
def search(ctx, failed, struct): return native(ctx, 1200, 160)
def standin(ctx):
    n, m = (240, 40) if runner.TIER == "quick" else (4000, 1500)
    r = native(ctx, n, m)
    ctx.bounded.append({"what": "random functions of expressions over scalars, arrays, structs, pointers, calls and side effects, and random whole programs, compiled by umlcc and gcc and compared on sampled arguments and the final state of all objects", "cases": n + m, "label": "bounded"})
    return r

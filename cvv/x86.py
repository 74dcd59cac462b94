"""Meaning of the x86-64 instructions umlcc emits, over bit-vectors, from the X64 objects the real generator built."""
import z3
from engine import *

BV = z3.BitVecVal
W = {1: 8, 2: 16, 3: 32, 4: 64}     # X64Suffix -> bits
B4, B8, B64 = z3.BitVecSort(4), z3.BitVecSort(8), z3.BitVecSort(64)

def sx(e, n): return e if e.size() == n else (z3.SignExt(n - e.size(), e) if e.size() < n else z3.Extract(n - 1, 0, e))
def zx(e, n): return e if e.size() == n else (z3.ZeroExt(n - e.size(), e) if e.size() < n else z3.Extract(n - 1, 0, e))
def lo(e, n): return e if e.size() == n else z3.Extract(n - 1, 0, e)

_uf = {}
def divop(nm, a, b):
    """quotient/remainder as one function symbol per width, shared by the machine semantics and the C specification"""
    w = a.size(); k = (nm, w)
    if k not in _uf: _uf[k] = z3.Function(f"{nm}{w}", z3.BitVecSort(w), z3.BitVecSort(w), z3.BitVecSort(w))
    return _uf[k](a, b)
def expand(e):
    """the same formula with the shared function symbols replaced by the real bit-vector operations"""
    real = {"udiv": z3.UDiv, "sdiv": lambda a, b: a / b, "urem": z3.URem, "srem": z3.SRem, "mul": lambda a, b: a * b}
    subs = []
    for (nm, w), f in _uf.items():
        a, b = z3.Var(0, z3.BitVecSort(w)), z3.Var(1, z3.BitVecSort(w))
        subs.append((f, real[nm](a, b)))
    return z3.substitute_funs(e, *subs) if subs else e
def mulop(ex, a, b):
    x, y = divop("mul", a, b), divop("mul", b, a)
    if not x.eq(y): ex.assume(x == y)          # commutativity, at the instances that occur
    return x

class Machine:
    def __init__(s, ex, regs, mem):
        s.ex, s.regs, s.mem = ex, regs, mem
        s.flags = None          # (width, left, right) of the last cmp
        s.jumps = []            # (condition, label)
        s.calls = []
        s.ended = False
        s.pushed = []
        s.oncall = None
    def addr_of_label(s, lab):
        d = s.ex.ghost.setdefault("labels", {})
        if lab not in d: d[lab] = z3.Const(f"addr_{lab}", B64)
        return d[lab]
    # ---- registers
    def rid(s, r):
        ex = s.ex
        r = simp(r)
        if isinstance(r, int):
            ex.oblige("register number exists", 0 <= r < 16, "asm"); return BV(r, 4)
        if z3.is_bv_value(r):
            ex.oblige("register number exists", 0 <= r.as_signed_long() < 16, "asm"); return BV(r.as_long(), 4)
        ex.oblige("register number exists", z3.And(r >= 0, r < 16), "asm")
        return z3.simplify(z3.Extract(3, 0, r))
    def get(s, r, w=64): return lo(z3.Select(s.regs, s.rid(r)), w)
    def put(s, r, v):
        w = v.size(); i = s.rid(r)
        old = z3.Select(s.regs, i)
        if w == 64: n = v
        elif w == 32: n = z3.ZeroExt(32, v)
        else: n = z3.Concat(z3.Extract(63, w, old), v)
        s.regs = z3.Store(s.regs, i, n)
    def load(s, a, w):
        bs = [z3.Select(s.mem, a + BV(i, 64)) for i in range(w // 8)]
        return z3.Concat(*reversed(bs)) if len(bs) > 1 else bs[0]
    def save(s, a, v):
        for i in range(v.size() // 8):
            s.mem = z3.Store(s.mem, a + BV(i, 64), z3.Extract(8 * i + 7, 8 * i, v))

class Asm:
    """Reads X64 instruction objects of the real code and executes them."""
    def __init__(s, ex, m):
        s.ex, s.m = ex, m
        en = ex.tu.enums
        s.I = {v: k for k, v in en.items() if k.startswith("X64_INST_")}
        s.O = {v: k[len("X64_OPERAND_"):] for k, v in en.items() if k.startswith("X64_OPERAND_")}
        s.SP = en["SP_REG_ID"]; s.BP = en["BP_REG_ID"]; s.AX = en["AX_REG_ID"]; s.DX = en["DX_REG_ID"]
        s.text = []
    def f(s, p, rec, fld, qt="int"):
        return s.ex.fread(p.b, rec, fld, qt)
    def ope(s, p):
        if isinstance(p, P) and p.b == 0: return None
        ex = s.ex
        t = s.f(p, "X64Ope", "type")
        if not isinstance(t, int): raise Structural("operand kind is not definite")
        d = {"k": s.O[t], "sfx": s.f(p, "X64Ope", "suffix")}
        if d["k"] in ("REG", "PTR", "JPTR"): d["reg"] = s.f(p, "X64Ope", "reg_id")
        if d["k"] == "MEM": d["off"] = s.f(p, "X64Ope", "mem_offset")
        if d["k"] in ("LABEL", "JLABEL"):
            q = s.f(p, "X64Ope", "label_name", "char *")
            tag = ex.obj(q.b, "label").tag
            if not tag or tag[0] != "str": raise Structural("label operand without a known name")
            d["lab"] = tag[1]
        if d["k"] == "INT":
            q = s.f(p, "X64Ope", "iliteral", "IntegerLiteral *")
            t = s.f(q, "IntegerLiteral", "type")
            uns = ex.inline("iliteral_type_isunsigned", [t]) if "iliteral_type_isunsigned" in ex.tu.funcs else None
            u = ex.branch(ex.tobool(uns))
            v = s.f(q, "IntegerLiteral", "unsigned_value" if u else "signed_value", "long long")
            d["uns"] = u; d["imm"] = v if isz(v) else BV(v, 64)
        return d
    def suffix(s, nm, src, dst):
        """which operand gives the mnemonic its suffix: the printing rule, proved separately (C21)"""
        x = None
        if src is not None and src["k"] in ("SUFFIX", "REG", "INT"): x = src["sfx"]
        if dst is not None and dst["k"] in ("SUFFIX", "REG", "INT"): x = dst["sfx"]
        s.ex.oblige(f"{nm}: the mnemonic has a suffix", x is not None and x in W, "asm")
        return W[x]
    def width_ok(s, nm, o, w):
        if o is not None and o["k"] == "REG":
            s.ex.oblige(f"{nm}: register operand width matches the mnemonic", W.get(o["sfx"]) == w, "asm")
    def ea(s, o):
        m = s.m
        if o["k"] == "PTR": return m.get(o["reg"])
        if o["k"] == "MEM":
            off = o["off"]
            if isinstance(off, int): return m.get(s.BP) - BV(off, 64)
            neg = -off
            return m.get(s.BP) + z3.SignExt(32, neg)
        if o["k"] == "LABEL": return m.addr_of_label(o["lab"])
        raise Structural("address of " + o["k"])
    def imm(s, nm, o, w, dstmem=False, mov64=False):
        """value of an immediate operand, with the assembler's range rule"""
        v = o["imm"]; ex = s.ex
        if w == 64 and not mov64:
            ex.oblige(f"{nm}: immediate is encodable (sign-extended 32 bits)", v == z3.SignExt(32, z3.Extract(31, 0, v)), "asm")
        return lo(v, w)       # narrower immediates are cut to the operand width by the assembler
    def read(s, nm, o, w, mov64=False):
        k = o["k"]
        if k == "REG":
            s.width_ok(nm, o, w); return s.m.get(o["reg"], w)
        if k == "INT": return s.imm(nm, o, w, mov64=mov64)
        if k in ("MEM", "PTR", "LABEL"): return s.m.load(s.ea(o), w)
        raise Structural(f"{nm}: read of {k}")
    def write(s, nm, o, v):
        k = o["k"]
        if k == "REG":
            s.width_ok(nm, o, v.size()); s.m.put(o["reg"], v); return
        if k in ("MEM", "PTR", "LABEL"): s.m.save(s.ea(o), v); return
        s.ex.oblige(f"{nm}: destination can be written", False, "asm")
    COND = {"E": lambda a, b: a == b, "NE": lambda a, b: a != b, "A": lambda a, b: z3.UGT(a, b), "AE": lambda a, b: z3.UGE(a, b),
            "B": lambda a, b: z3.ULT(a, b), "BE": lambda a, b: z3.ULE(a, b), "G": lambda a, b: a > b, "GE": lambda a, b: a >= b,
            "L": lambda a, b: a < b, "LE": lambda a, b: a <= b}
    def step(s, x):
        """x: pointer to an X64 object"""
        ex, m = s.ex, s.m
        ty = s.f(x, "X64", "type")
        if ty == ex.tu.enums["X64_LABEL"]: return "label"
        inst = s.f(x, "X64", "inst", "X64Inst *")
        t = s.f(inst, "X64Inst", "type")
        if not isinstance(t, int): raise Structural("instruction kind is not definite")
        nm = s.I[t][len("X64_INST_"):]
        src = s.ope(s.f(inst, "X64Inst", "src", "X64Ope *")); dst = s.ope(s.f(inst, "X64Inst", "dst", "X64Ope *"))
        ex.cur = (f"emitted instruction {len(s.text)}: {nm}", None)
        s.text.append((nm, src, dst))
        ex.oblige(f"{nm}: no instruction follows an unconditional transfer", not m.ended, "asm")
        need = {"MOVX": (1, 1), "MOVSXX": (1, 1), "MOVZXX": (1, 1), "MOVABSX": (1, 1), "LEAX": (1, 1), "CXTX": (1, 1), "CXTD": (1, 0), "CQTO": (0, 0),
                "PUSHX": (1, 0), "POPX": (0, 1), "NEGX": (0, 1), "NOTX": (0, 1), "DIVX": (1, 0), "IDIVX": (1, 0), "RET": (0, 0), "CALL": (1, 0)}
        two = ("ADDX", "SUBX", "IMULX", "ANDX", "ORX", "XORX", "SALX", "SARX", "SHRX", "CMPX")
        ns, nd = need.get(nm, (1, 1) if nm in two else (0, 1))
        ex.oblige(f"{nm}: operand count", (src is not None) == bool(ns) and (dst is not None) == bool(nd), "asm")
        memops = [o for o in (src, dst) if o is not None and o["k"] in ("MEM", "PTR", "LABEL")]
        ex.oblige(f"{nm}: at most one memory operand", len(memops) <= 1, "asm")
        flags = None
        if nm == "MOVX":
            w = s.suffix(nm, src, dst)
            v = s.read(nm, src, w, mov64=(dst["k"] == "REG"))
            s.write(nm, dst, v); flags = m.flags
        elif nm == "MOVABSX":
            w = s.suffix(nm, src, dst)
            ex.oblige("movabs: 64-bit register from an immediate", w == 64 and dst["k"] == "REG" and src["k"] == "INT", "asm")
            s.write(nm, dst, src["imm"]); flags = m.flags
        elif nm in ("MOVSXX", "MOVZXX"):
            ws, wd = W.get(src["sfx"], 0), W.get(dst["sfx"], 0)
            ok = src["k"] in ("REG", "MEM", "PTR", "LABEL") and dst["k"] == "REG" and 0 < ws < wd and not (nm == "MOVZXX" and ws == 32)
            ex.oblige(f"{nm}: the widening move exists", ok, "asm")
            v = s.read(nm, src, ws)
            s.write(nm, dst, sx(v, wd) if nm == "MOVSXX" else zx(v, wd)); flags = m.flags
        elif nm == "LEAX":
            w = s.suffix(nm, src, dst)
            ex.oblige("lea: address operand into a register, 64 bits", src["k"] in ("MEM", "PTR", "LABEL") and dst["k"] == "REG" and w == 64, "asm")
            s.write(nm, dst, s.ea(src)); flags = m.flags
        elif nm == "CXTX":
            ws, wd = W.get(src["sfx"], 0), W.get(dst["sfx"], 0)
            ex.oblige("c?t?: the conversion exists", (ws, wd) in ((8, 16), (16, 32), (32, 64)), "asm")
            m.put(s.AX, sx(m.get(s.AX, ws), wd)); flags = m.flags
        elif nm == "CXTD":
            w = W.get(src["sfx"], 0)
            ex.oblige("c?td: the conversion exists", w in (16, 32), "asm")
            a = m.get(s.AX, w); m.put(s.DX, z3.Extract(2 * w - 1, w, sx(a, 2 * w))); flags = m.flags
        elif nm == "CQTO":
            a = m.get(s.AX, 64); m.put(s.DX, a >> 63); flags = m.flags
        elif nm == "PUSHX":
            w = s.suffix(nm, src, dst)
            ex.oblige("push: 64-bit operand", w == 64, "asm")
            v = s.read(nm, src, 64)
            sp = m.get(s.SP) - 8
            m.put(s.SP, sp); m.save(sp, v); flags = m.flags
        elif nm == "POPX":
            w = s.suffix(nm, src, dst)
            ex.oblige("pop: 64-bit register", w == 64 and dst["k"] == "REG", "asm")
            sp = m.get(s.SP); v = m.load(sp, 64)
            m.put(s.SP, sp + 8); s.write(nm, dst, v); flags = m.flags
        elif nm in ("ADDX", "SUBX", "ANDX", "ORX", "XORX", "IMULX", "CMPX"):
            w = s.suffix(nm, src, dst)
            if nm == "IMULX":
                ex.oblige("imul: two-operand form exists", w >= 16 and dst["k"] == "REG", "asm")
            a = s.read(nm, dst, w); b = s.read(nm, src, w)
            ex.oblige(f"{nm}: destination is not an immediate", dst["k"] != "INT", "asm")
            if nm == "CMPX": flags = (w, a, b)
            else:
                r = {"ADDX": a + b, "SUBX": a - b, "ANDX": a & b, "ORX": a | b, "XORX": a ^ b, "IMULX": None}[nm] if nm != "IMULX" else mulop(ex, a, b)
                s.write(nm, dst, r)
        elif nm in ("SALX", "SARX", "SHRX"):
            # the count is an immediate or %cl; the mnemonic's suffix comes from the destination
            w = s.suffix(nm, src, dst); a = s.read(nm, dst, w)
            if src["k"] == "INT":
                v = src["imm"]
                ex.oblige(f"{nm}: shift count is encodable (one byte)", z3.ULT(v, BV(256, 64)), "asm")
                c = lo(v, 8)
            else:
                cx = ex.tu.enums["CX_REG_ID"]
                ex.oblige(f"{nm}: a register shift count is %cl", src["k"] == "REG" and W.get(src["sfx"]) == 8 and ex.ieq(src["reg"], cx) , "asm")
                c = m.get(cx, 8)
            c = c & BV(63 if w == 64 else 31, 8)
            cw = zx(c, w) if w > 8 else c
            r = {"SALX": a << cw, "SARX": a >> cw, "SHRX": z3.LShR(a, cw)}[nm]
            s.write(nm, dst, r)
        elif nm in ("NEGX", "NOTX"):
            w = s.suffix(nm, src, dst); a = s.read(nm, dst, w)
            s.write(nm, dst, -a if nm == "NEGX" else ~a)
        elif nm in ("DIVX", "IDIVX"):
            w = s.suffix(nm, src, dst)
            ex.oblige(f"{nm}: operand is a register or memory, 16 bits or wider", src["k"] != "INT" and w >= 16, "asm")
            d = s.read(nm, src, w); a = m.get(s.AX, w); h = m.get(s.DX, w)
            if nm == "IDIVX":
                ex.oblige("idiv: rdx holds the sign of rax", h == z3.Extract(2 * w - 1, w, sx(a, 2 * w)), "asm")
                q, r = divop("sdiv", a, d), divop("srem", a, d)
            else:
                ex.oblige("div: rdx is zero", h == 0, "asm")
                q, r = divop("udiv", a, d), divop("urem", a, d)
            s.divisor = d
            m.put(s.AX, q); m.put(s.DX, r)
        elif nm.startswith("SET"):
            ex.oblige(f"{nm}: follows a comparison", m.flags is not None, "asm")
            w, a, b = m.flags
            ex.oblige(f"{nm}: writes a byte register", dst["k"] == "REG" and W.get(dst["sfx"]) == 8, "asm")
            m.put(dst["reg"], z3.If(s.COND[nm[3:]](a, b), BV(1, 8), BV(0, 8))); flags = m.flags
        elif nm == "JMP":
            ex.oblige("jmp: label operand", dst["k"] == "JLABEL", "asm")
            m.jumps.append((True, dst["lab"])); m.ended = True
        elif nm.startswith("J"):
            ex.oblige(f"{nm}: follows a comparison", m.flags is not None, "asm")
            w, a, b = m.flags
            ex.oblige(f"{nm}: label operand", dst["k"] == "JLABEL", "asm")
            m.jumps.append((s.COND[nm[1:]](a, b), dst["lab"])); flags = m.flags
        elif nm == "CALL":
            ex.oblige("call: jump operand", src["k"] in ("JLABEL", "JPTR"), "asm")
            tgt = m.addr_of_label(src["lab"]) if src["k"] == "JLABEL" else m.get(src["reg"])
            if m.oncall is None: raise Structural("call outside a call harness")
            m.oncall(tgt)
        elif nm == "RET":
            m.ended = True; m.jumps.append((True, "@ret"))
        else: raise Structural("no semantics for instruction " + nm)
        m.flags = flags
        return nm
    def run(s, codes):
        for x in codes: s.step(x)

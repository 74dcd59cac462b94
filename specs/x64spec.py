"""Contracts of the instruction selector (src/x64gen): running what it emits, from any machine state, has the effect the
intermediate instruction specifies.  The harness builds an arbitrary intermediate instruction on the heap with the real
constructors, runs the real gen_inst_x64code, and executes the emitted X64 objects symbolically."""
import z3, os, glob
from engine import *
from cast import TU, REPO
import absx, x86, solve
solve.EXPAND = x86.expand
from x86 import BV, B4, B64, B8, sx, zx, lo, W

NREG = 8
BW = {"BYTE": 8, "WORD": 16, "LONG": 32, "QUAD": 64}
_tu = None
def tu():
    global _tu
    if _tu is None:
        fs = []
        for d in ("x64gen", "x64", "immc", "literal", "common", "liveseq"):
            fs += sorted(glob.glob(os.path.join(REPO, "src", d, "*.c")))
        _tu = TU([os.path.relpath(f, REPO) for f in fs])
    return _tu

def mk(deadline=None, alive_contract=True):
    e = Engine(tu(), mode="bv", heap="conc")
    absx.install(e)
    e.batch = True
    e.unroll = 6; e.branch_timeout = 4000; e.maxpaths = 60000
    o = e.overrides
    def liveseq_isalive(ex, a):
        t = ex.obj(a[0].b, "liveseq").tag
        return ex.ghost["alive"][t[2]][t[1]] if t[2] < 2 else ex.fresh("alive_later", z3.BoolSort())
    def liveseq_goto_next(ex, a): ex.obj(a[0].b, "liveseq").tag[2] += 1
    o["liveseq_isalive"] = liveseq_isalive; o["liveseq_goto_next"] = liveseq_goto_next
    if alive_contract:
        o["create_alive_regs_set"] = alive_regs; o["create_alive_reg_induces_set"] = alive_indices
    return e

def position(ex, lv):
    ts = [ex.heap.objs[p.b].tag[2] for p in absx.vec(ex, lv)[1]]
    if len(set(ts)) != 1: raise Structural("liveness sequences out of step")
    return ts[0]
def alive_regs(ex, a):
    """contract of create_alive_regs_set: the machine registers whose sequence is alive at the current position"""
    k = position(ex, a[0]); al = ex.ghost["alive"][min(k, 1)]; tab = caller_table(ex)
    b = ex.heap.new(None)
    ex.heap.objs[b].tag = ["set", [], lambda v: z3.Or(*[z3.And(al[i], v == tab[i]) for i in range(NREG)])]
    return P(b, 0)
def alive_indices(ex, a):
    """contract of create_alive_reg_induces_set: exactly the alive sequence numbers, in some order"""
    k = position(ex, a[0]); al = ex.ghost["alive"][min(k, 1)]
    n = ex.ghost["nlive_fixed"] if "nlive_fixed" in ex.ghost else ex.choose(NREG + 1)
    if n > ex.ghost.get("maxlive", NREG): raise PathEnd()
    vs = [ex.fresh("live", z3.BitVecSort(32)) for _ in range(n)]
    for v in vs: ex.assume(z3.And(v >= 0, v < NREG))
    if n > 1: ex.assume(z3.Distinct(*vs))
    if "livecons" in ex.ghost: ex.assume(ex.ghost["livecons"](vs))
    for i in range(NREG): ex.assume(al[i] == (z3.Or(*[v == i for v in vs]) if vs else z3.BoolVal(False)))
    b = ex.heap.new(None)
    ex.heap.objs[b].tag = ["set", vs, lambda v: z3.Or(*[v == w for w in vs]) if vs else z3.BoolVal(False), vs]
    ex.ghost["nlive"] = n
    return P(b, 0)

def table(ex, name):
    g = ex.glob(name) if hasattr(ex, "glob") else None
    d = ex.eng.ginit(name)
    return d if isinstance(d, list) else d.data
def caller_table(ex): return table(ex, "CALLER_SAVED_REG_IDS")
def callee_table(ex): return table(ex, "CALLEE_SAVED_REG_IDS")

class Op:
    """One operand of an intermediate instruction: its heap object and its meaning."""
    pass

class World:
    def __init__(s, ex):
        s.ex = ex; en = ex.tu.enums; s.en = en
        s.alive = [[z3.Bool(f"alive{k}_{i}") for i in range(NREG)] for k in range(2)]
        ex.ghost["alive"] = s.alive
        s.regs0 = z3.Const("regs", z3.ArraySort(B4, B64)); s.mem0 = z3.Const("mem", z3.ArraySort(B64, B8))
        s.tab = caller_table(ex)
        s.case = {"ops": []}
        ex.ghost["case"] = s.case
        s.r = z3.Const("anyreg", B4)
        s.pcons = []; s.padchg = False
    # ---- building operands with the real constructors
    def sfx(s, name): return s.en["IMMC_SUFFIX_" + name]
    def call(s, f, *a): return s.ex.call(FnVal(f), list(a), None)
    def regidx(s, nm):
        v = z3.BitVec("reg_" + nm, 32); s.ex.assume(z3.And(v >= 0, v < NREG)); return v
    def mreg(s, idx):
        e = BV(s.tab[NREG - 1], 4)
        for k in range(NREG - 2, -1, -1): e = z3.If(idx == k, BV(s.tab[k], 4), e)
        return e
    def aliveidx(s, idx, k=0): return z3.Or(*[z3.And(idx == i, s.alive[k][i]) for i in range(NREG)])
    def reg(s, nm, width, idx=None, uns=None):
        o = Op(); o.kind = "REG"; o.w = BW[width]; o.idx = s.regidx(nm) if idx is None else idx
        o.uns = z3.Bool("uns_" + nm) if uns is None else uns
        u = z3.If(o.uns, BV(1, 32), BV(0, 32)) if isz(o.uns) else int(o.uns)
        o.r = s.mreg(o.idx)
        o.p = s.call("new_reg_immcope", s.sfx(width), s.call("new_immcreg", o.idx, u))
        o.v = lo(z3.Select(s.regs0, o.r), o.w)
        # data invariant: a 32-bit value in a register has a clear upper half (established by every 32-bit definition)
        if nm != "dst" and width == "LONG": s.ex.assume(z3.Extract(63, 32, z3.Select(s.regs0, o.r)) == 0)
        s.case["ops"].append(("REG", nm, width, o.idx, o.uns))
        return o
    def int(s, nm, width, uns=None, val=None):
        """literal whose type has the operand's width (int for the narrow widths) and whose value is a value of that type"""
        ex = s.ex; o = Op(); o.kind = "INT"; o.w = BW[width]
        if uns is None: uns = bool(ex.choose(2))
        o.uns = uns
        ty = s.en[("INTEGER_UNSIGNED_" if uns else "INTEGER_") + ("LONG" if width == "QUAD" else "INT")]
        v = z3.BitVec("imm_" + nm, 64) if val is None else val
        o.imm = v; o.v = lo(v, o.w)
        lit = s.call("new_unsigned_iliteral" if uns else "new_signed_iliteral", ty, v)
        o.p = s.call("new_int_immcope", s.sfx(width), lit)
        s.case["ops"].append(("INT", nm, width, v, uns))
        return o
    def ptr(s, nm):
        o = Op(); o.kind = "PTR"; o.idx = s.regidx(nm); o.r = s.mreg(o.idx)
        o.p = s.call("new_ptr_immcope", o.idx); o.addr = z3.Select(s.regs0, o.r)
        s.case["ops"].append(("PTR", nm, None, o.idx, False)); return o
    def memop(s, nm):
        o = Op(); o.kind = "MEM"; v = z3.BitVec("off_" + nm, 32)
        s.ex.assume(z3.And(v > -(1 << 30), v < (1 << 30)))
        o.p = s.call("new_mem_immcope", v); o.addr = z3.Select(s.regs0, BV(s.en["BP_REG_ID"], 4)) - z3.SignExt(32, v)
        s.case["ops"].append(("MEM", nm, None, v, False)); return o
    def label(s, nm):
        o = Op(); o.kind = "LABEL"
        o.p = s.call("new_label_immcope", absx.new_str(s.ex, nm)); o.lab = nm
        d = s.ex.ghost.setdefault("labels", {}); d.setdefault(nm, z3.Const(f"addr_{nm}", B64)); o.addr = d[nm]
        s.case["ops"].append(("LABEL", nm, None, None, False)); return o
    # ---- running the generator and the emitted code
    def gen(s, inst, dst=None, fst=None, snd=None):
        ex = s.ex; en = s.en
        s.case["inst"] = inst
        g = lambda o: o.p if o is not None else NULL
        immc = s.call("new_inst_immc", en["IMMC_INST_" + inst], g(dst), g(fst), g(snd))
        return s.genimmc([immc])
    def genimmc(s, immcs, entry="gen_inst_x64code"):
        ex = s.ex
        lvs = []
        for i in range(NREG):
            b = ex.heap.new(None); ex.heap.objs[b].tag = ["live", i, 0]; lvs.append(P(b, 0))
        s.lvs = lvs
        x = s.call("new_x64gen", absx.new_vec(ex, immcs), absx.new_vec(ex, lvs))
        s.x = x
        s.e0 = z3.BitVec("evac0", 32); ex.assume(z3.And(s.e0 >= 0, s.e0 <= len(callee_table(ex))))
        ex.fwrite(x.b, "X64gen", "evacuation_count", s.e0, "int")
        s.p0 = z3.BitVec("pushed0", 32); s.pad0 = z3.BitVec("padding0", 32)
        ex.assume(z3.And(s.p0 >= 0, s.p0 < (1 << 20), s.pad0 >= 0, s.pad0 <= 1))
        for c in s.pcons: ex.assume(c(s.p0, s.pad0))
        ex.fwrite(x.b, "X64gen", "pushed_count", s.p0, "int")
        pv = ex.fread(x.b, "X64gen", "paddings", "Vector *")
        nb = ex.heap.new(4); ex.heap.objs[nb].elems = {0: s.pad0}
        absx.vec(ex, pv)[1].append(P(nb, 0))
        try:
            codes = s.call(entry, x)
        except Exited:
            ex.oblige("the instruction is accepted (no fatal exit)", False, "post")
        s.codes = absx.vec(ex, codes)[1]
        for p in lvs:
            ex.oblige("liveness position advances by exactly one per instruction", ex.heap.objs[p.b].tag[2] == len(immcs), "post")
        ix = ex.fread(x.b, "X64gen", "index", "int")
        ex.oblige("the generator advances by exactly one instruction", ex.ieq(ix, len(immcs)), "post")
        s.e1 = ex.fread(x.b, "X64gen", "evacuation_count", "int")
        p1 = ex.fread(x.b, "X64gen", "pushed_count", "int"); s.p1 = p1 if isz(p1) else BV(p1, 32)
        pv = absx.vec(ex, ex.fread(x.b, "X64gen", "paddings", "Vector *"))[1]
        s.pads = [ex.eread(q, "int") for q in pv]
        return s.codes
    def run(s, oncall=None):
        ex = s.ex
        s.m = x86.Machine(ex, s.regs0, s.mem0); s.m.oncall = oncall
        s.asm = x86.Asm(ex, s.m)
        s.asm.run(s.codes)
        if ex.live: ex.eng.reach.append((f"{s.case['inst']} executes to its end", list(ex.pc)))
        return s.m
    def preserved(s, dst=None, extra_dead=(), srcs=(), sp=0, mem=True):
        """everything that is not the result or scratch is unchanged"""
        ex = s.ex; m = s.m; r = s.r; en = s.en
        new, old = z3.Select(m.regs, r), z3.Select(s.regs0, r)
        isr = lambda k: r == BV(en[k], 4)
        caller = z3.Or(*[r == BV(t, 4) for t in s.tab])
        live = z3.Or(*[z3.And(s.alive[0][i], r == BV(s.tab[i], 4)) for i in range(NREG)])
        isd = r == dst.r if dst is not None else z3.BoolVal(False)
        issrc = [r == o.r for o in srcs if o is not None and o.kind == "REG"]
        dead = z3.Or(*([r == x for x in extra_dead] or [z3.BoolVal(False)]))
        anysrc = z3.Or(*issrc) if issrc else z3.BoolVal(False)
        ex.oblige("values live after the instruction keep their register contents",
                  z3.Implies(z3.And(live, z3.Not(isd), z3.Not(anysrc), z3.Not(dead)), new == old), "post")
        for o in srcs:
            if o is None or o.kind != "REG": continue
            ex.oblige("a source value that stays live keeps its value",
                      z3.Implies(z3.And(s.aliveidx(o.idx), z3.Not(o.r == dst.r if dst is not None else z3.BoolVal(False))),
                                 z3.And(lo(z3.Select(m.regs, o.r), o.w) == o.v,
                                        z3.Extract(63, 32, z3.Select(m.regs, o.r)) == 0 if o.w == 32 else z3.BoolVal(True))), "post")
        ex.oblige("the frame pointer is unchanged", z3.Implies(isr("BP_REG_ID"), new == old), "post")
        ex.oblige("the stack pointer is as specified", z3.Implies(isr("SP_REG_ID"), new == old + BV(sp, 64)) if isinstance(sp, int) else z3.Implies(isr("SP_REG_ID"), new == old + sp), "post")
        ct = callee_table(ex)
        e1 = s.e1 if isz(s.e1) else BV(s.e1, 32)
        abi_callee = ["BX_REG_ID", "R12_REG_ID", "R13_REG_ID", "R14_REG_ID", "R15_REG_ID"]
        for k in abi_callee:
            saved = z3.Or(*([e1 > j for j, t in enumerate(ct) if t == en[k]] or [z3.BoolVal(False)]))
            ex.oblige("a callee-saved register that changes is one the prologue saves",
                      z3.Implies(z3.And(isr(k), new != old), saved), "post")
        d64 = z3.SignExt(32, s.p1 - s.p0)
        ex.oblige("the number of 8-byte slots the generator believes pushed changes as the stack pointer does",
                  z3.Implies(isr("SP_REG_ID"), new == old - d64 * 8), "post")
        if not s.padchg: ex.oblige("the paddings of enclosing calls are kept", len(s.pads) == 1 and s.pads[0] is s.pad0, "post")
        ex.oblige("the saved-register count never shrinks and stays within the table", z3.And(e1 >= s.e0, e1 <= len(ct)), "post")
        if mem is True:
            if not m.mem.eq(s.mem0):
                a = z3.Const("anyaddr", B64)
                ex.oblige("memory is unchanged", z3.Select(m.mem, a) == z3.Select(s.mem0, a), "post")
        if dst is not None and dst.kind == "REG" and dst.w == 32:
            ex.oblige("a 32-bit result leaves the upper half of its register clear", z3.Extract(63, 32, z3.Select(m.regs, dst.r)) == 0, "post")
    def dstval(s, dst): return lo(z3.Select(s.m.regs, dst.r), dst.w)

def ext(o, w): return z3.If(o.uns, zx(o.v, w), sx(o.v, w)) if isz(o.uns) else (zx if o.uns else sx)(o.v, w)
def conv(v, uns, wd):
    """value v converted to width wd"""
    if wd <= v.size(): return lo(v, wd)
    return z3.If(uns, zx(v, wd), sx(v, wd)) if isz(uns) else (zx if uns else sx)(v, wd)

OPS = {"ADD": lambda a, b, u: a + b, "SUB": lambda a, b, u: a - b, "MUL": lambda a, b, u: x86.divop("mul", a, b),
       "DIV": lambda a, b, u: z3.If(u, x86.divop("udiv", a, b), x86.divop("sdiv", a, b)), "MOD": lambda a, b, u: z3.If(u, x86.divop("urem", a, b), x86.divop("srem", a, b)),
       "AND": lambda a, b, u: a & b, "OR": lambda a, b, u: a | b, "XOR": lambda a, b, u: a ^ b}
REL = {"EQ": (lambda a, b: a == b,) * 2, "NEQ": (lambda a, b: a != b,) * 2,
       "LT": (lambda a, b: a < b, z3.ULT), "GT": (lambda a, b: a > b, z3.UGT), "LEQ": (lambda a, b: a <= b, z3.ULE), "GEQ": (lambda a, b: a >= b, z3.UGE)}

def src2(w, kind, nm, width, uns=None):
    return w.reg(nm, width) if kind == "REG" else w.int(nm, width)

def h_binary(inst, kind, wf, ws, wd):
    """dst := fst op snd, at the wider source width, converted to dst's width"""
    def run(ex):
        w = World(ex); ty = inst
        f = w.reg("fst", wf); s = src2(w, kind, "snd", ws)
        same = wf == ws == wd
        # after the usual conversions both operands have dst's type; pointer arithmetic has an integer right operand
        d = w.reg("dst", wd, uns=f.uns if same else None)
        if same:
            if kind == "REG" and inst in ("DIV", "MOD"): ex.assume(s.uns == f.uns)
            else: ex.assume(f.uns == z3.BoolVal(s.uns)) if inst in ("DIV", "MOD") else None
        else: ex.assume(z3.And(z3.Not(f.uns), z3.Not(d.uns)))
        if kind == "REG": ex.assume(f.idx != s.idx)
        ex.assume(z3.Or(z3.Not(w.aliveidx(f.idx)), f.idx == d.idx))     # expression registers are consumed
        if not same and kind == "REG": ex.assume(z3.Or(z3.Not(w.aliveidx(s.idx)), s.idx == d.idx))
        ww = max(f.w, s.w); a, b = ext(f, ww), ext(s, ww)
        if inst in ("DIV", "MOD"):
            ex.assume(b != 0)
            ex.assume(z3.Or(f.uns, z3.Not(z3.And(a == BV(1 << (ww - 1), ww), b == BV(-1, ww)))))
        w.gen(inst, d, f, s); m = w.run()
        res = conv(OPS[inst](a, b, d.uns), d.uns, d.w)
        ex.oblige(f"{inst}: destination holds the C result", w.dstval(d) == res, "post")
        w.preserved(d, srcs=[s])
    return run

def h_shift(inst, wf, ws):
    def run(ex):
        w = World(ex)
        f = w.reg("fst", wf); d = w.reg("dst", wf, uns=f.uns); s = w.int("snd", ws)
        ex.assume(z3.Or(z3.Not(w.aliveidx(f.idx)), f.idx == d.idx))
        ex.assume(z3.ULT(s.imm, BV(f.w, 64)))
        w.gen(inst, d, f, s); m = w.run()
        c = lo(s.imm, f.w)
        res = f.v << c if inst == "SAL" else z3.If(f.uns, z3.LShR(f.v, c), f.v >> c)
        ex.oblige(f"{inst}: destination holds the C result", w.dstval(d) == res, "post")
        w.preserved(d)
    return run

def h_unary(inst, kind, width):
    def run(ex):
        w = World(ex)
        s = src2(w, kind, "src", width); d = w.reg("dst", width)
        if kind == "REG": ex.assume(z3.Or(z3.Not(w.aliveidx(s.idx)), s.idx == d.idx))
        w.gen(inst, d, s); m = w.run()
        ex.oblige(f"{inst}: destination holds the C result", w.dstval(d) == (-s.v if inst == "NEG" else ~s.v), "post")
        w.preserved(d)
    return run

def rel_ops(ex, w, rel, kind, wf, ws):
    f = w.reg("fst", wf); s = src2(w, kind, "snd", ws)
    if kind == "REG": ex.assume(f.idx != s.idx)
    if rel not in ("EQ", "NEQ"):
        if wf == ws:
            # usual conversions: same signedness; a literal compared with a register has the register's signedness
            ex.assume(f.uns == s.uns) if kind == "REG" else ex.assume(f.uns == z3.BoolVal(s.uns))
        else:
            ex.assume(z3.Not(f.uns))
            if kind == "REG": ex.assume(z3.Not(s.uns))
            elif s.uns: raise PathEnd()
    ww = max(f.w, s.w)
    a, b = ext(f, ww), ext(s, ww)
    sgn, un = REL[rel]
    return f, s, z3.If(f.uns, un(a, b), sgn(a, b))

def h_set(rel, kind, wf, ws):
    def run(ex):
        w = World(ex)
        f, s, cond = rel_ops(ex, w, rel, kind, wf, ws)
        d = w.reg("dst", "LONG", uns=False)
        ex.assume(z3.Or(z3.Not(w.aliveidx(f.idx)), f.idx == d.idx))
        w.gen("SET" + rel, d, f, s); m = w.run()
        ex.oblige(f"SET{rel}: destination is 1 exactly when the C relation holds", w.dstval(d) == z3.If(cond, BV(1, 32), BV(0, 32)), "post")
        w.preserved(d, srcs=[s])
    return run

def h_jump(rel, kind, wf, ws):
    def run(ex):
        w = World(ex)
        f, s, cond = rel_ops(ex, w, rel, kind, wf, ws)
        l = w.label("target")
        w.gen("J" + rel, l, f, s); m = w.run()
        ex.oblige("exactly one conditional jump, to the given label", len(m.jumps) == 1 and m.jumps[0][1] == "target" and not m.ended, "post")
        ex.oblige(f"J{rel}: taken exactly when the C relation holds", m.jumps[0][0] == cond, "post")
        w.preserved(srcs=[f, s])
    return run

def h_jmp(ex):
    w = World(ex); l = w.label("target")
    w.gen("JMP", l); m = w.run()
    ex.oblige("one unconditional jump to the given label", len(m.jumps) == 1 and m.jumps[0] == (True, "target"), "post")
    w.preserved()

def h_load(kind, ws, wd):
    def run(ex):
        w = World(ex)
        d = w.reg("dst", wd)
        if kind == "REG": s = w.reg("src", ws); val = conv(s.v, s.uns, d.w)
        elif kind == "INT": s = w.int("src", ws); val = lo(s.imm, d.w)
        else:
            s = {"PTR": w.ptr, "MEM": w.memop, "LABEL": w.label}[kind]("src")
            bs = [z3.Select(w.mem0, s.addr + BV(i, 64)) for i in range(d.w // 8)]
            val = z3.Concat(*reversed(bs)) if len(bs) > 1 else bs[0]
        w.gen("LOAD", d, s); m = w.run()
        ex.oblige("LOAD: destination holds the loaded value", w.dstval(d) == val, "post")
        w.preserved(d, srcs=[s])
    return run

def h_addr(kind):
    def run(ex):
        w = World(ex); d = w.reg("dst", "QUAD", uns=False)
        s = {"MEM": w.memop, "LABEL": w.label}[kind]("src")
        w.gen("ADDR", d, s); m = w.run()
        ex.oblige("ADDR: destination holds the object's address", w.dstval(d) == s.addr, "post")
        w.preserved(d)
    return run

def h_store(dk, sk, width):
    def run(ex):
        w = World(ex)
        d = {"PTR": w.ptr, "MEM": w.memop, "LABEL": w.label}[dk]("dst")
        s = src2(w, sk, "src", width)
        w.gen("STORE", d, s); m = w.run()
        a = z3.Const("anyaddr", B64)
        exp = w.mem0
        for i in range(s.w // 8): exp = z3.Store(exp, d.addr + BV(i, 64), z3.Extract(8 * i + 7, 8 * i, s.v))
        ex.oblige("STORE: exactly the object's bytes change, to the stored value", z3.Select(m.mem, a) == z3.Select(exp, a), "post")
        w.preserved(srcs=[s], mem=False)
    return run

def h_stret(kind, width):
    def run(ex):
        w = World(ex); s = src2(w, kind, "src", width)
        w.gen("STRET", None, s); m = w.run()
        ax = BV(w.en["AX_REG_ID"], 4)
        ex.oblige("STRET: the return register holds the value", lo(z3.Select(m.regs, ax), s.w) == s.v, "post")
        w.preserved(srcs=[s])
    return run

ARGS = ["DI_REG_ID", "SI_REG_ID", "DX_REG_ID", "CX_REG_ID", "R8_REG_ID", "R9_REG_ID"]
def h_ldarg(width):
    def run(ex):
        w = World(ex); en = w.en
        d = w.memop("dst")
        i = z3.BitVec("argno", 32); ex.assume(z3.And(i >= 0, i < (1 << 20)))
        o = Op(); o.kind = "ARG"
        o.p = w.call("new_arg_immcope", w.sfx(width), w.call("new_immcreg", i, 0)); o.w = BW[width]
        w.case["ops"].append(("ARG", "src", width, i, False))
        # parameters are read first thing in a function, before any expression register is live
        for b in w.alive[0]: ex.assume(z3.Not(b))
        w.gen("LDARG", d, o); m = w.run()
        bp = z3.Select(w.regs0, BV(en["BP_REG_ID"], 4))
        mem = [z3.Select(w.mem0, bp + 16 + z3.SignExt(32, (i - 6) * 8) + BV(k, 64)) for k in range(o.w // 8)]
        val = z3.Concat(*reversed(mem)) if len(mem) > 1 else mem[0]
        for k, rn in enumerate(ARGS): val = z3.If(i == k, lo(z3.Select(w.regs0, BV(en[rn], 4)), o.w), val)
        exp = w.mem0
        for k in range(o.w // 8): exp = z3.Store(exp, d.addr + BV(k, 64), z3.Extract(8 * k + 7, 8 * k, val))
        a = z3.Const("anyaddr", B64)
        ex.oblige("LDARG: the parameter's bytes are stored in its slot", z3.Select(m.mem, a) == z3.Select(exp, a), "post")
        r = w.r
        ex.oblige("LDARG: argument registers not read yet keep their values",
                  z3.Implies(z3.Or(*[r == BV(en[k], 4) for k in ARGS]), z3.Select(m.regs, r) == z3.Select(w.regs0, r)), "post")
        w.preserved(mem=False)
    return run

def h_starg(kind, width):
    def run(ex):
        w = World(ex); en = w.en
        i = z3.BitVec("argno", 32)
        o = Op(); o.kind = "ARG"; o.p = w.call("new_arg_immcope", w.sfx(width), w.call("new_immcreg", i, 0))
        s = src2(w, kind, "src", width)
        w.gen("STARG", o, s); m = w.run()
        sp = z3.Select(w.regs0, BV(en["SP_REG_ID"], 4)) - 8
        got = [z3.Select(m.mem, sp + BV(k, 64)) for k in range(s.w // 8)]
        got = z3.Concat(*reversed(got)) if len(got) > 1 else got[0]
        ex.oblige("STARG: the pushed slot holds the argument", got == s.v, "post")
        a = z3.Const("anyaddr", B64)
        ex.oblige("STARG: only the pushed slot changes", z3.Implies(z3.Not(z3.ULT(a - sp, BV(8, 64))), z3.Select(m.mem, a) == z3.Select(w.mem0, a)), "post")
        w.preserved(srcs=[s], sp=-8, mem=False)
    return run

def nargs(w, ex):
    n = z3.BitVec("nargs", 64); ex.assume(z3.And(n >= 0, n < (1 << 20)))
    s = Op(); s.kind = "INT"; s.n = n
    s.p = w.call("new_int_immcope", w.sfx("NONE"), w.call("new_signed_iliteral", w.en["INTEGER_INT"], n))
    w.case["ops"].append(("NARGS", "n", None, n, False))
    s.st = z3.If(n > 6, n - 6, BV(0, 64)); s.rg = z3.If(n > 6, BV(6, 64), n)
    return s

def h_prep(ex):
    """PREP n: after it, the slots pushed so far plus the stack arguments to come are an even number"""
    w = World(ex); w.padchg = True
    s = nargs(w, ex)
    w.gen("PREP", None, s); m = w.run()
    ex.oblige("PREP: slots pushed at the call will be an even number", z3.Extract(0, 0, w.p1) == z3.Extract(0, 0, s.st), "post")
    ex.oblige("PREP: at most one slot of padding", z3.And(w.p1 >= w.p0, w.p1 <= w.p0 + 1), "post")
    ex.oblige("PREP: the padding is remembered for the matching CLEAN", len(w.pads) == 2 and w.pads[0] is w.pad0, "post")
    pad = w.pads[1]; pad = pad if isz(pad) else BV(pad, 32)
    ex.oblige("PREP: the remembered padding is the one pushed", pad == w.p1 - w.p0, "post")
    w.preserved(sp=z3.SignExt(32, -(w.p1 - w.p0)) * 8)

def h_clean(ex):
    """CLEAN n: drops the stack arguments and the padding of the matching PREP"""
    w = World(ex); w.padchg = True
    s = nargs(w, ex)
    w.pcons.append(lambda p, pad: z3.SignExt(32, p) >= s.st + 1)
    w.gen("CLEAN", None, s); m = w.run()
    ex.oblige("CLEAN: the matching padding is forgotten", len(w.pads) == 0, "post")
    w.preserved(sp=s.st * 8 + z3.SignExt(32, w.pad0) * 8)

def h_call(fk, wd, nl=None):
    def run(ex):
        w = World(ex); en = w.en
        if nl is not None: ex.ghost["nlive_fixed"] = nl
        ex.ghost["maxlive"] = 6 if wd else 5
        f = w.ptr("fn") if fk == "PTR" else w.label("fn")
        d = w.reg("dst", wd) if wd else None
        s = nargs(w, ex); n = s.n
        w.pcons.append(lambda p, pad: z3.SignExt(32, p) >= s.rg)
        # at most five values live across the call (callee-saved registers available), the target register is consumed by the call
        if wd: ex.ghost["livecons"] = lambda vs: z3.Or(*[v == d.idx for v in vs]) if len(vs) == 6 else z3.BoolVal(True)
        w.gen("CALL", d, f, s)
        seen = []
        R = lambda k: BV(en[k], 4)
        sp0 = z3.Select(w.regs0, R("SP_REG_ID"))
        nreg = z3.If(n < 6, n, BV(6, 64))
        if fk == "PTR":
            ex.assume(z3.Or(z3.Not(w.aliveidx(f.idx)), f.idx == d.idx if d is not None else z3.BoolVal(False)))
        def oncall(tgt):
            m = w.m
            ex.oblige("CALL: one call", not seen, "post"); seen.append(1)
            ex.oblige("CALL: the designated function is called", tgt == (z3.Select(w.regs0, f.r) if fk == "PTR" else f.addr), "post")
            for k, rn in enumerate(ARGS):
                slot = z3.Concat(*reversed([z3.Select(w.mem0, sp0 + BV(8 * k + j, 64)) for j in range(8)]))
                ex.oblige("CALL: register arguments are the pushed values in ABI order", z3.Implies(n > k, m.get(en[rn]) == slot), "post")
            ex.oblige("CALL: the stack pointer addresses the first stack argument", m.get(en["SP_REG_ID"]) == sp0 + nreg * 8, "post")
            ex.oblige("CALL: no vector registers are announced to a variadic callee", lo(m.get(en["AX_REG_ID"]), 8) == 0, "post")
            ex.oblige("CALL: memory is unchanged before the call", m.mem.eq(w.mem0), "post")
            # the callee may change every caller-saved register and memory
            for k in ["AX_REG_ID", "CX_REG_ID", "DX_REG_ID", "SI_REG_ID", "DI_REG_ID", "R8_REG_ID", "R9_REG_ID", "R10_REG_ID", "R11_REG_ID"]:
                m.regs = z3.Store(m.regs, R(k), z3.Const("after_" + k, B64))
            m.mem = z3.Const("mem_after", z3.ArraySort(B64, B8)); w.memcall = m.mem
        w.run(oncall)
        ex.oblige("CALL: a call is emitted", bool(seen), "post")
        if d is not None:
            ex.oblige("CALL: the destination holds the returned value", w.dstval(d) == lo(z3.Const("after_AX_REG_ID", B64), d.w), "post")
        ex.oblige("CALL: memory is unchanged after the call", w.m.mem.eq(w.memcall), "post")
        w.preserved(d, sp=nreg * 8, mem=False)
    return run

def memsize(w, ex, nm="framesize"):
    n = z3.BitVec(nm, 64); ex.assume(z3.And(n >= 0, n < (1 << 30)))
    s = Op(); s.kind = "INT"; s.n = n
    s.p = w.call("new_int_immcope", w.sfx("NONE"), w.call("new_signed_iliteral", w.en["INTEGER_INT"], n))
    w.case["ops"].append(("NARGS", "n", None, n, False))
    s.al = (n + 15) & BV(~15, 64)
    return s

def h_enter(ex):
    w = World(ex); en = w.en; s = memsize(w, ex)
    w.gen("ENTER", None, s); m = w.run()
    R = lambda k: BV(en[k], 4)
    sp0 = z3.Select(w.regs0, R("SP_REG_ID")); bp0 = z3.Select(w.regs0, R("BP_REG_ID"))
    ex.oblige("ENTER: the frame base is just below the return address", z3.Select(m.regs, R("BP_REG_ID")) == sp0 - 8, "post")
    ex.oblige("ENTER: the frame is the smallest multiple of 16 covering the locals", z3.Select(m.regs, R("SP_REG_ID")) == sp0 - 8 - s.al, "post")
    ex.oblige("ENTER: the caller's frame pointer is saved", z3.Concat(*[z3.Select(m.mem, sp0 - 8 + BV(7 - k, 64)) for k in range(8)]) == bp0, "post")
    a = z3.Const("anyaddr", B64)
    ex.oblige("ENTER: no other memory changes", z3.Implies(z3.Not(z3.ULT(a - (sp0 - 8), BV(8, 64))), z3.Select(m.mem, a) == z3.Select(w.mem0, a)), "post")
    r = w.r
    ex.oblige("ENTER: no other register changes", z3.Implies(z3.And(r != R("SP_REG_ID"), r != R("BP_REG_ID")), z3.Select(m.regs, r) == z3.Select(w.regs0, r)), "post")

def h_leave(ex):
    w = World(ex); en = w.en; s = memsize(w, ex)
    w.gen("LEAVE", None, s); m = w.run()
    R = lambda k: BV(en[k], 4)
    sp0 = z3.Select(w.regs0, R("SP_REG_ID")); bp0 = z3.Select(w.regs0, R("BP_REG_ID"))
    # at this point the stack pointer is where ENTER put it
    ex.assume(sp0 == bp0 - s.al)
    ex.oblige("LEAVE: returns", m.jumps == [(True, "@ret")], "post")
    ex.oblige("LEAVE: the stack pointer is just above the saved frame pointer", z3.Select(m.regs, R("SP_REG_ID")) == bp0 + 8, "post")
    ex.oblige("LEAVE: the caller's frame pointer is restored", z3.Select(m.regs, R("BP_REG_ID")) == z3.Concat(*[z3.Select(w.mem0, bp0 + BV(7 - k, 64)) for k in range(8)]), "post")
    r = w.r
    ex.oblige("LEAVE: no other register changes", z3.Implies(z3.And(r != R("SP_REG_ID"), r != R("BP_REG_ID")), z3.Select(m.regs, r) == z3.Select(w.regs0, r)), "post")
    ex.oblige("LEAVE: memory is unchanged", m.mem.eq(w.mem0), "post")

def h_function(nb):
    """gen_function_x64code around a body of nb instructions, each under the contract proved for gen_inst_x64code: it may raise
    the count of callee-saved registers in use (within the table), changes only those of them and leaves the frame and stack alone"""
    def run(ex):
        w = World(ex); en = w.en; s = memsize(w, ex)
        w.case["inst"] = "FUNCTION"
        lab = w.call("new_label_immc", en["IMMC_LABEL_FUNCTION"], en["IMMC_VIS_GLOBAL"], absx.new_str(ex, "f"))
        ent = w.call("new_inst_immc", en["IMMC_INST_ENTER"], NULL, s.p, NULL)
        lev = w.call("new_inst_immc", en["IMMC_INST_LEAVE"], NULL, w.call("new_int_immcope", w.sfx("NONE"), w.call("new_signed_iliteral", en["INTEGER_INT"], s.n)), NULL)
        body = [w.call("new_inst_immc", en["IMMC_INST_CALL"], NULL, NULL, NULL) for _ in range(nb)]
        ct = callee_table(ex)
        evs = [ex.choose(len(ct) + 1) for _ in range(nb)]
        marks = []
        def gi(ex2, a):
            ix = ex2.fread(a[0].b, "X64gen", "index", "int")
            im = absx.vec(ex2, ex2.fread(a[0].b, "X64gen", "immcs", "Vector *"))[1][ix]
            if im.b not in [b.b for b in body]: return NotImplemented
            k = [b.b for b in body].index(im.b)
            old = ex2.fread(a[0].b, "X64gen", "evacuation_count", "int")
            ex2.fwrite(a[0].b, "X64gen", "evacuation_count", max(old, evs[k]), "int")
            ex2.fwrite(a[0].b, "X64gen", "index", ix + 1, "int")
            for q in w.lvs: ex2.heap.objs[q.b].tag[2] += 1
            mk = ex2.heap.new(None); ex2.heap.objs[mk].tag = ["body", k]; marks.append(mk)
            return absx.new_vec(ex2, [P(mk, 0)])
        ex.eng.overrides["gen_inst_x64code"] = gi
        w.evac_init = 0
        w.genimmc([lab, ent] + body + [lev], entry="gen_function_x64code")
        need = max(evs + [0])
        R = lambda k: BV(en[k], 4)
        m = w.m = x86.Machine(ex, w.regs0, w.mem0); asm = x86.Asm(ex, m)
        sp0 = z3.Select(w.regs0, R("SP_REG_ID"))
        ret0 = m.load(sp0, 64)
        # frames do not wrap around the address space
        ex.assume(z3.And(z3.UGT(sp0, BV(1 << 40, 64)), z3.ULT(sp0, BV((1 << 64) - (1 << 40), 64)), z3.Extract(3, 0, sp0) == 8))
        seen = []
        spb = None
        for p in w.codes:
            tag = ex.heap.objs[p.b].tag
            if isinstance(tag, list) and tag[0] == "body":
                if not seen:
                    spb = m.get(en["SP_REG_ID"])
                    ex.oblige("the stack pointer is 16-byte aligned in the body", z3.Extract(3, 0, spb) == 0, "post")
                    ex.oblige("the frame pointer addresses the frame in the body", m.get(en["BP_REG_ID"]) == sp0 - 8, "post")
                    ex.oblige("the frame of the locals is below the frame pointer and above the stack pointer", z3.ULE(spb, sp0 - 8 - s.n), "post")
                seen.append(tag[1])
                # the body: any memory below the frame base except saved registers, any caller-saved register, callee-saved ones in use
                m2 = z3.Const(f"mem_body{len(seen)}", z3.ArraySort(B64, B8)); a = z3.Const("aq", B64)
                for q in list(range(0, 8 * (need + 3))):
                    for base in (spb,):
                        ad = base + BV(q, 64)
                        # saved area: [spb, sp0-8-frame)
                        ex.assume(z3.Implies(z3.ULT(ad, sp0 - 8 - s.al), z3.Select(m2, ad) == z3.Select(m.mem, ad)))
                for q in range(16): ex.assume(z3.Select(m2, sp0 - 8 + BV(q, 64)) == z3.Select(m.mem, sp0 - 8 + BV(q, 64)))
                m.mem = m2
                for j in range(16):
                    if j in (en["SP_REG_ID"], en["BP_REG_ID"]): continue
                    if j in [en[k] for k in ABI_CALLEE] and j not in ct[:need]: continue
                    m.regs = z3.Store(m.regs, BV(j, 4), z3.Const(f"body{len(seen)}_r{j}", B64))
                if need: ex.assume(z3.UGE(sp0 - 8 - s.al - spb, BV(8 * need, 64))) if False else None
            else:
                asm.step(p)
        if ex.live: ex.eng.reach.append(("function executes to its end", list(ex.pc)))
        ex.oblige("every body instruction is emitted once, in order", seen == list(range(nb)), "post")
        for k in ABI_CALLEE + ["BP_REG_ID"]:
            ex.oblige("callee-saved registers are restored on return", z3.Select(m.regs, R(k)) == z3.Select(w.regs0, R(k)), "post")
        ex.oblige("the function returns with the stack pointer at its return address", z3.And(m.jumps == [(True, "@ret")], z3.Select(m.regs, R("SP_REG_ID")) == sp0) if m.jumps == [(True, "@ret")] else False, "post")
        ax = z3.Select(m.regs, R("AX_REG_ID"))
        want = z3.Const(f"body{nb}_r{en['AX_REG_ID']}", B64) if nb else z3.Select(w.regs0, R("AX_REG_ID"))
        ex.oblige("the return register set by the body reaches the caller", ax == want, "post")
        e1 = w.e1
        ex.oblige("the next function starts with no saved registers", ex.ieq(e1, 0), "post")
    return run
ABI_CALLEE = ["BX_REG_ID", "R12_REG_ID", "R13_REG_ID", "R14_REG_ID", "R15_REG_ID"]

def h_tables(ex):
    """the register tables describe the System V register classes"""
    en = ex.tu.enums
    abi_caller = {en[k] for k in ["CX_REG_ID", "DX_REG_ID", "SI_REG_ID", "DI_REG_ID", "R8_REG_ID", "R9_REG_ID", "R10_REG_ID", "R11_REG_ID"]}
    abi_callee = {en[k] for k in ["BX_REG_ID", "R12_REG_ID", "R13_REG_ID", "R14_REG_ID", "R15_REG_ID"]}
    ct, ce, ar = caller_table(ex), callee_table(ex), table(ex, "ARG_REG_IDS")
    ex.oblige("allocatable registers are distinct caller-saved registers other than rax", len(set(ct)) == len(ct) and set(ct) <= abi_caller, "post")
    ex.oblige("registers used across calls are distinct callee-saved registers", len(set(ce)) == len(ce) and set(ce) <= abi_callee, "post")
    ex.oblige("argument registers are rdi rsi rdx rcx r8 r9", ar == [en[k] for k in ARGS], "post")
    for n, t in (("NUM_CALLER_SAVED_REGS", ct), ("NUM_CALLEE_SAVED_REGS", ce), ("NUM_ARG_REGS", ar)):
        ex.oblige(f"{n} is the table's length", ex.eng.ginit(n) == len(t), "post")

def h_alive(fn):
    """create_alive_*_set against the contract used by the instruction harnesses"""
    def run(ex):
        w = World(ex)
        lvs = []
        for i in range(NREG):
            b = ex.heap.new(None); ex.heap.objs[b].tag = ["live", i, 0]; lvs.append(P(b, 0))
        w.case["inst"] = fn
        lv = absx.new_vec(ex, lvs)
        p = ex.inline(fn, [lv])
        vals = ex.heap.objs[p.b].tag[1]
        v = z3.BitVec("any", 32)
        want = [(i if fn.endswith("induces_set") else w.tab[i]) for i in range(NREG)]
        has = z3.Or(*[v == x for x in vals]) if vals else z3.BoolVal(False)
        ex.oblige(f"{fn}: exactly the alive registers", has == z3.Or(*[z3.And(w.alive[0][i], v == want[i]) for i in range(NREG)]), "post")
        for q in lvs: ex.oblige(f"{fn}: liveness position unchanged", ex.heap.objs[q.b].tag[2] == 0, "post")
    return run

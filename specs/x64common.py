"""Shared by C12-C15: parallel proof of instruction harnesses, search for a failing instruction on the CPU."""
import z3, random
import x64spec as X, x64native as N, solve
import runner

W4 = ("BYTE", "WORD", "LONG", "QUAD")
TRUSTED = [
    "clang 18 front end (AST of /repo) and the CVV symbolic executor",
    "z3 / cvc5",
    "meaning of the x86-64 instructions used (cvv/x86.py), cross-checked by executing emitted code on this CPU in the search",
    "list and set contracts of C01/C02, used at calls of vector_* and set_* instead of their bodies",
    "the printed text of an X64 object is the instruction it denotes (C21)",
]
ASSUMPTIONS = [
    "liveness queries answer as C11 states; the registers in an instruction are those C10 assigns",
    "a 32-bit value held in a register has a clear upper half (every 32-bit definition is proved to establish it)",
    "an intermediate register used as first source of an arithmetic or comparison instruction is not used again unless it is the destination (the shape immcgen produces; see C17)",
]

def concretize(o):
    """failed obligation -> concrete instruction case from the solver's countermodel"""
    m = solve.model(o)
    if m is None or not o.extra: return None
    ev = lambda e: m.eval(e, model_completion=True)
    iv = lambda e: e if isinstance(e, (int, bool)) else (ev(e).as_long() if z3.is_bv(e) else z3.is_true(ev(e)))
    sg = lambda v: v - (1 << 32) if v >> 31 else v
    c = N.Case(o.extra.get("inst", "?"))
    regs = z3.Const("regs", z3.ArraySort(X.B4, X.B64))
    c.regs = [ev(z3.Select(regs, z3.BitVecVal(i, 4))).as_long() for i in range(16)]
    c.alive = [z3.is_true(ev(z3.Bool(f"alive0_{i}"))) for i in range(8)]
    c.pushed = iv(z3.BitVec("pushed0", 32)); c.pad = iv(z3.BitVec("padding0", 32))
    WN = {"BYTE": 1, "WORD": 2, "LONG": 3, "QUAD": 4, None: 0}
    for k, nm, w, v, u in o.extra["ops"]:
        if k == "REG": t = ("R", WN[w], iv(v), int(bool(iv(u))))
        elif k == "INT": t = ("I", WN[w], int(bool(u)), iv(v))
        elif k == "PTR": t = ("P", iv(v))
        elif k == "MEM": t = ("M", 64 + (sg(iv(v)) % 2000))
        elif k == "LABEL": t = ("L", "target" if nm == "target" else "callee_fn" if nm == "fn" else "glob")
        elif k == "NARGS": t = ("I", 0, 0, iv(v) % 40)
        elif k == "ARG": t = ("A", WN[w], iv(v) % 12)
        else: return None
        f = {"dst": "dst", "target": "dst", "fst": "fst", "src": "fst", "fn": "fst", "snd": "snd", "n": "fst"}[nm]
        if nm == "n" and c.inst == "CALL": f = "snd"
        setattr(c, f, t)
    if c.inst == "STARG" and c.dst is None: c.dst = ("A", 4, 0)
    for o_ in (c.dst, c.fst):
        if o_ is not None and o_[0] == "P":
            r = N.TAB[o_[1]]
            c.regs[r] = 0xfee1fee1fee1fee1 if c.inst == "CALL" and o_ is c.fst else 0xfee2fee2fee2 << 16 | 1024
    return c

def prove(ctx, units):
    X.tu()
    ctx.concretize = concretize
    ctx.prove_all([(nm, (lambda c, nm=nm, h=h, mk=mk: c.prove_harness(nm, mk, h))) for nm, h, mk in units])

def search(ctx, shapes, failed, struct, per=60, always=0):
    import os
    thorough = runner.TIER == "thorough"
    cases = [o.case for u, o in failed if getattr(o, "case", None) is not None]
    cases = [c for c in cases if c.inst != "?" and f"IMMC_INST_{c.inst}" in X.tu().enums]
    bad = {u.name.split(" ")[0] for u, o in failed} | {u.name.split(" ")[0] for u in struct}
    sh = [s for s in shapes if s[0] in bad] or shapes
    n = per if (failed or struct) else always
    if thorough: n *= 5
    msg = None; tot = 0
    if cases:
        msg, k = N.search(ctx, [], 0, runner.SEED, extra=cases[:60]); tot += k
    if msg is None:
        msg, k = N.search(ctx, sh, n, runner.SEED); tot += k
    ctx.bounded.append({"what": "emitted code executed on the CPU and compared with C", "cases": tot, "label": "bounded"})
    return msg

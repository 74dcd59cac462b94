"""Runs the code the real generator emits for concrete intermediate instructions on the CPU and compares with C."""
import os, random, subprocess, json
from cast import REPO, TU
import runner

REGS = ["rax", "rbx", "rcx", "rdx", "rsp", "rbp", "rsi", "rdi", "r8", "r9", "r10", "r11", "r12", "r13", "r14", "r15"]
TAB = [2, 3, 6, 7, 8, 9, 10, 11]          # System V caller-saved registers the allocator hands out (checked against the source table elsewhere)
CALLEE = {1, 12, 13, 14, 15}
BW = {1: 8, 2: 16, 3: 32, 4: 64}
M64 = (1 << 64) - 1
def sgn(v, w): v &= (1 << w) - 1; return v - (1 << w) if v >> (w - 1) else v

class Case:
    """inst name, operands as tuples, alive bits, register contents (list of 16), frame memory seed"""
    def __init__(s, inst, dst=None, fst=None, snd=None, alive=None, regs=None, pushed=0, pad=0):
        s.inst, s.dst, s.fst, s.snd = inst, dst, fst, snd
        s.alive = alive or [False] * 8; s.regs = regs; s.pushed, s.pad = pushed, pad
    def line(s, en):
        def o(x): return "-" if x is None else ",".join(str(int(y) if isinstance(y, bool) else y) for y in x)
        return f"{en['IMMC_INST_' + s.inst]} {''.join('1' if a else '0' for a in s.alive)} {s.pushed} {s.pad} {o(s.dst)} {o(s.fst)} {o(s.snd)}"
    def show(s): return {k: (v if not isinstance(v, list) or not v or isinstance(v[0], bool) else [hex(x) for x in v]) for k, v in s.__dict__.items()}

FRAME = 4096      # bytes of frame below rbp; memory image is [rbp-FRAME, rbp+FRAME)
def build(ctx):
    src = open(os.path.join(REPO, "src/x64gen/x64gen.h")).read()
    fl = ["-DHAVE_PUSHED"] if "pushed_count" in src and "paddings" in src else []
    return ctx.cc("x64_drv", [os.path.join(runner.ROOT, "native/x64_drv.c"), ctx.repo_lib()], flags=fl)

MEM0 = bytes((i * 37 + 11) & 255 for i in range(2 * FRAME)); ST0 = bytes((i * 29 + 5) & 255 for i in range(65536))[32768 - 512:32768 + 2048]
def memimage(): return MEM0

def execute(ctx, exe, en, cases):
    """-> list of results per case: ("crash", text) | ("asm", text, message) | ("ok", asm, regs, mem, jumped, evac, pushed, saved, callinfo)"""
    out = [None] * len(cases)
    texts = []
    i = 0
    while i < len(cases):
        inp = "\n".join(c.line(en) for c in cases[i:]) + "\n"
        rc, o, e = ctx.run([exe], tmo=60, inp=inp.encode())
        parts = o.split("CASE\n")[1:]
        for p in parts:
            if "END " in p: texts.append(p)
        if rc == 0 and len(texts) == len(cases): break
        # the generator died on case number len(texts)
        k = len(texts)
        if k >= len(cases): break
        out[k] = ("crash", f"exit {rc}\n{o[-300:]}\n{e[-1500:]}"); texts.append(None); i = k + 1
    s = [".text\n"]
    for k, t in enumerate(texts):
        if t is None: continue
        body, tail = t.split("END ")
        body = body.replace("target", f"target_{k}").replace("callee_fn", "callee_fn")
        s.append(f".globl case_{k}\ncase_{k}:\n{body}\n\tjmp done_0\ntarget_{k}:\n\tmovq $1, jumped(%rip)\n\tjmp done_0\n")
    d = ctx.scratch
    base = f"x64_{random.getrandbits(40):x}"
    asm = os.path.join(d, base + ".s"); open(asm, "w").write("".join(s))
    r = subprocess.run(["gcc", "-c", asm, "-o", asm + ".o"], capture_output=True, text=True)
    errs = [l for l in r.stderr.splitlines() if "Error" in l]
    if r.returncode:
        # find the offending cases one by one
        if len(cases) == 1: out[0] = ("asm", texts[0], "\n".join(errs[:5])); return out
        res = []
        h = len(cases) // 2
        return execute(ctx, exe, en, cases[:h]) + execute(ctx, exe, en, cases[h:])
    ok = [k for k, t in enumerate(texts) if t is not None]
    c = os.path.join(d, base + "_m.c")
    with open(c, "w") as f:
        f.write('#include <stdio.h>\n#include <string.h>\ntypedef unsigned long u;\nvolatile u in[16], outr[16], callr[16], jumped, called; u savesp;\n')
        f.write(f'unsigned char mem[{2*FRAME}] __attribute__((aligned(64))), st[65536] __attribute__((aligned(64))), glob[64];\nu stsp;\n')
        f.write(r'''
void go(void* f);
__asm__(".text\n.globl go\ngo:\n pushq %rbx\n pushq %rbp\n pushq %r12\n pushq %r13\n pushq %r14\n pushq %r15\n movq %rsp, savesp(%rip)\n movq %rdi, tgt(%rip)\n"
" movq in+0(%rip),%rax\n movq in+8(%rip),%rbx\n movq in+16(%rip),%rcx\n movq in+24(%rip),%rdx\n movq in+48(%rip),%rsi\n movq in+56(%rip),%rdi\n movq in+64(%rip),%r8\n movq in+72(%rip),%r9\n movq in+80(%rip),%r10\n movq in+88(%rip),%r11\n movq in+96(%rip),%r12\n movq in+104(%rip),%r13\n movq in+112(%rip),%r14\n movq in+120(%rip),%r15\n movq in+40(%rip),%rbp\n movq in+32(%rip),%rsp\n jmp *tgt(%rip)\n"
".globl done_0\ndone_0:\n movq %rax,outr+0(%rip)\n movq %rbx,outr+8(%rip)\n movq %rcx,outr+16(%rip)\n movq %rdx,outr+24(%rip)\n movq %rsp,outr+32(%rip)\n movq %rbp,outr+40(%rip)\n movq %rsi,outr+48(%rip)\n movq %rdi,outr+56(%rip)\n movq %r8,outr+64(%rip)\n movq %r9,outr+72(%rip)\n movq %r10,outr+80(%rip)\n movq %r11,outr+88(%rip)\n movq %r12,outr+96(%rip)\n movq %r13,outr+104(%rip)\n movq %r14,outr+112(%rip)\n movq %r15,outr+120(%rip)\n"
" movq savesp(%rip),%rsp\n popq %r15\n popq %r14\n popq %r13\n popq %r12\n popq %rbp\n popq %rbx\n ret\n"
".globl callee_fn\ncallee_fn:\n addq $8,%rsp\n movq %rax,callr+0(%rip)\n movq %rcx,callr+16(%rip)\n movq %rdx,callr+24(%rip)\n movq %rsp,callr+32(%rip)\n movq %rsi,callr+48(%rip)\n movq %rdi,callr+56(%rip)\n movq %r8,callr+64(%rip)\n movq %r9,callr+72(%rip)\n subq $8,%rsp\n movq $1,called(%rip)\n"
" movq $0x1122334455667788,%rax\n movq $-2,%rcx\n movq $-3,%rdx\n movq $-4,%rsi\n movq $-5,%rdi\n movq $-6,%r8\n movq $-7,%r9\n movq $-8,%r10\n movq $-9,%r11\n ret\n .data\ntgt: .quad 0\n .text\n");
''')
        for k in ok: f.write(f"void case_{k}(void);\n")
        f.write("void callee_fn(void);\nstatic void one(int k, void (*f)(void), const u* r) {\n for (int i=0;i<16;i++) in[i]=r[i];\n")
        f.write(f" for (int i=0;i<(int)sizeof mem;i++) mem[i]=(unsigned char)(i*37+11);\n for (int i=0;i<64;i++) glob[i]=(unsigned char)(i*53+7);\n for (int i=0;i<(int)sizeof st;i++) st[i]=(unsigned char)(i*29+5);\n")
        f.write(f" for (int i=0;i<16;i++) {{ if (in[i]==0xfee1fee1fee1fee1UL) in[i]=(u)callee_fn; if ((in[i]>>16)==0xfee2fee2fee2UL) in[i]=(u)mem+(in[i]&0xffff); }}\n in[5]=(u)mem+{FRAME}; in[4]=(u)st+32768; jumped=0; called=0;\n go(f);\n")
        f.write(r''' printf("R %d %lu %lu", k, jumped, called); for (int i=0;i<16;i++) printf(" %lx", i==4? outr[4]-(u)st : i==5? outr[5]-(u)mem : outr[i]); 
 printf(" C"); for (int i=0;i<16;i++) printf(" %lx", i==4? callr[4]-(u)st : callr[i]);
 printf(" B %lx", (u)mem); printf(" G "); for(int i=0;i<64;i++) printf("%02x",glob[i]); printf(" GA %lx", (u)glob);
 printf(" M "); for (int i=0;i<(int)sizeof mem;i++) printf("%02x", mem[i]); printf(" S "); for (int i=32768-512;i<32768+2048;i++) printf("%02x", st[i]); printf("\n"); }
''')
        f.write("static const u rs[][16]={\n")
        for k in ok: f.write("{" + ",".join(f"0x{v & M64:x}UL" for v in cases[k].regs) + "},\n")
        f.write("};\nint main(int c, char** v){\n static void (*const fs[])(void)={" + ",".join(f"case_{k}" for k in ok) + "};\n static const int ks[]={" + ",".join(map(str, ok)) + "};\n for (int i=0;i<(int)(sizeof ks/sizeof *ks);i++) { printf(\"BEGIN %d\\n\", ks[i]); fflush(stdout); one(ks[i], fs[i], rs[i]); }\n return 0; }\n")
    ex2 = os.path.join(d, base)
    r = subprocess.run(["gcc", "-O1", "-w", "-no-pie", "-o", ex2, c, asm + ".o"], capture_output=True, text=True)
    if r.returncode: raise runner.FrontError("native executor build failed: " + r.stderr[-800:])
    rc, o, e = ctx.run([ex2], tmo=60)
    got = {}
    last = None
    for l in o.splitlines():
        p = l.split()
        if p[0] == "BEGIN": last = int(p[1])
        if p[0] == "R":
            k = int(p[1]); rr = [int(x, 16) for x in p[4:20]]; i = p.index("C"); cr = [int(x, 16) for x in p[i + 1:i + 17]]
            got[k] = (int(p[2]), int(p[3]), rr, cr, int(p[p.index("B") + 1], 16), bytes.fromhex(p[p.index("G") + 1]), int(p[p.index("GA") + 1], 16),
                      bytes.fromhex(p[p.index("M") + 1]), bytes.fromhex(p[p.index("S") + 1]))
    for k in ok:
        tail = texts[k].split("END ")[1].split()
        if k in got: out[k] = ("ok", texts[k].split("END ")[0], got[k], int(tail[0]), int(tail[1]), [int(x) for x in tail[2:]])
        else: out[k] = ("crash", f"emitted code died (exit {rc}) running\n{texts[k]}") if k == last else None
    for fn in (asm, asm + ".o", c, ex2):
        try: os.remove(fn)
        except OSError: pass
    return out

# ---- what C says
def val(c, o):
    if o[0] == "R": return c.regs[TAB[o[2]]] & ((1 << BW[o[1]]) - 1)
    if o[0] == "I": return o[3] & ((1 << BW[o[1]]) - 1)
def uns(o): return bool(o[3] if o[0] == "R" else o[2])
def num(c, o): v = val(c, o); return v if uns(o) else sgn(v, BW[o[1]])
def cdiv(a, b): q = abs(a) // abs(b); return q if (a < 0) == (b < 0) else -q

def judge(c, r):
    """None if the run agrees with C, else a message"""
    if r is None: return None
    if r[0] == "crash": return "the generator or the emitted code crashed: " + r[1]
    if r[0] == "asm": return f"the emitted code does not assemble: {r[2]}\n{r[1]}"
    _, asm, (jumped, called, regs, cregs, memb, glob, gaddr, mem, st), evac, pushed, saved = r
    init = list(c.regs); init[4] = 32768; init[5] = FRAME
    fix = lambda v: v
    for i in range(16):
        if init[i] >> 16 == 0xfee2fee2fee2: init[i] = (memb + (init[i] & 0xffff)) & M64
    c2 = Case(c.inst, c.dst, c.fst, c.snd, c.alive, init, c.pushed, c.pad)
    exp_mem = bytearray(memimage()); exp_glob = bytearray((i * 53 + 7) & 255 for i in range(64))
    st0 = ST0
    exp_st = bytearray(st0); sp = 0
    dreg = None; dval = None; dw = None; want_jump = 0
    i = c.inst; d, f, s = c.dst, c.fst, c.snd
    msgs = []
    def memat(o, w):
        """bytes of a memory operand"""
        n = BW[w] // 8
        if o[0] == "M": a = FRAME - o[1]; return int.from_bytes(exp_mem[a:a + n], "little")
        if o[0] == "P": a = init[TAB[o[1]]] - memb; return int.from_bytes(exp_mem[a:a + n], "little")
        return int.from_bytes(exp_glob[0:n], "little")
    def wr(o, v, n):
        b = (v & ((1 << 8 * n) - 1)).to_bytes(n, "little")
        if o[0] == "M": exp_mem[FRAME - o[1]:FRAME - o[1] + n] = b
        elif o[0] == "P": a = init[TAB[o[1]]] - memb; exp_mem[a:a + n] = b
        else: exp_glob[0:n] = b
    if d is not None and d[0] == "R": dreg, dw = TAB[d[2]], BW[d[1]]
    consumed = set()
    if i in ("ADD", "SUB", "MUL", "AND", "OR", "XOR", "DIV", "MOD"):
        a, b = num(c2, f), num(c2, s)
        w = max(BW[f[1]], BW[s[1]])
        if i in ("DIV", "MOD") and uns(d): a &= (1 << w) - 1; b &= (1 << w) - 1
        dval = {"ADD": lambda: a + b, "SUB": lambda: a - b, "MUL": lambda: a * b, "AND": lambda: a & b, "OR": lambda: a | b, "XOR": lambda: a ^ b,
                "DIV": lambda: cdiv(a, b), "MOD": lambda: a - b * cdiv(a, b)}[i]()
        consumed.add(f[2])
        if s[0] == "R" and f[1] != s[1]: consumed.add(s[2])
    elif i in ("SAL", "SAR"):
        a = num(c2, f); dval = a << s[3] if i == "SAL" else a >> s[3]; consumed.add(f[2])
    elif i in ("NEG", "NOT"):
        a = num(c2, f); dval = -a if i == "NEG" else ~a
        if f[0] == "R": consumed.add(f[2])
    elif i.startswith("SET") or i in ("JEQ", "JNEQ", "JLT", "JGT", "JLEQ", "JGEQ"):
        rel = i[3:] if i.startswith("SET") else i[1:]
        a, b = num(c2, f), num(c2, s)
        if rel in ("EQ", "NEQ"): a &= (1 << BW[f[1]]) - 1; b &= (1 << BW[s[1]]) - 1
        t = {"EQ": a == b, "NEQ": a != b, "LT": a < b, "GT": a > b, "LEQ": a <= b, "GEQ": a >= b}[rel]
        if i.startswith("SET"): dval = int(t); consumed.add(f[2])
        else: want_jump = int(t)
    elif i == "JMP": want_jump = 1
    elif i == "LOAD":
        if f[0] == "R": dval = num(c2, f)
        elif f[0] == "I": dval = f[3]
        else: dval = memat(f, d[1])
    elif i == "ADDR":
        dval = (memb + FRAME - f[1]) & M64 if f[0] == "M" else gaddr
    elif i == "STORE": wr(d, val(c2, f), BW[f[1]] // 8)
    elif i == "STR":
        b = bytes.fromhex(f[1]); exp_mem[FRAME - d[1]:FRAME - d[1] + len(b)] = b
    elif i == "STRET":
        v = val(c2, f)
        if regs[0] & ((1 << BW[f[1]]) - 1) != v: msgs.append(f"return register holds {regs[0]:#x}, expected {v:#x} at {BW[f[1]]} bits")
    elif i == "LDARG":
        n = BW[f[1]] // 8; k = f[2]
        if k < 6: v = init[[7, 6, 3, 2, 8, 9][k]]
        else: a = FRAME + 16 + (k - 6) * 8; v = int.from_bytes(exp_mem[a:a + 8], "little")
        wr(d, v, n)
    elif i == "STARG":
        v = val(c2, f); n = BW[f[1]] // 8; sp = -8
        if int.from_bytes(st[504:504 + n], "little") != v: msgs.append(f"pushed argument is {st[504:512][::-1].hex()}, expected {v:#x} at {8 * n} bits")
        exp_st[504:512] = st[504:512]
    elif i in ("PREP", "CLEAN"):
        n = f[3]; m = max(n - 6, 0)
        if i == "PREP":
            p = (c.pushed + m) % 2; sp = -8 * p
        else: sp = 8 * (m + c.pad)
    elif i == "CALL":
        n = s[3]; k = min(n, 6); sp = 8 * k
        if not called: msgs.append("the function was not called")
        else:
            for j in range(k):
                want = int.from_bytes(st0[512 + 8 * j:520 + 8 * j], "little"); rr = cregs[[7, 6, 3, 2, 8, 9][j]]
                if rr != want: msgs.append(f"argument {j} is {rr:#x}, expected {want:#x}")
            if cregs[4] != 32768 + 8 * k: msgs.append("stack pointer at the call is wrong")
            if cregs[0] & 255: msgs.append("al is not zero at the call")
        if d is not None: dval = 0x1122334455667788
        if f[0] == "P": consumed.add(f[1])
        exp_st[:512 + 8 * k] = st[:512 + 8 * k]      # the consumed register arguments, where the return address goes, and below
    if dval is not None:
        want = dval & ((1 << dw) - 1); got = regs[dreg] & ((1 << dw) - 1)
        if want != got: msgs.append(f"destination {REGS[dreg]} holds {got:#x}, C result is {want:#x} ({dw} bits)")
        if dw == 32 and regs[dreg] >> 32: msgs.append("upper half of a 32-bit result is not clear")
    for k in range(8):
        if c.alive[k] and TAB[k] != dreg and k not in consumed and regs[TAB[k]] != init[TAB[k]]:
            msgs.append(f"live register {REGS[TAB[k]]} changed from {init[TAB[k]]:#x} to {regs[TAB[k]]:#x}")
    for k in CALLEE:
        if regs[k] != init[k] and k not in saved: msgs.append(f"callee-saved register {REGS[k]} changed and is not saved")
    if regs[5] != FRAME: msgs.append("frame pointer changed")
    if regs[4] != 32768 + sp: msgs.append(f"stack pointer moved by {regs[4] - 32768}, expected {sp}")
    if jumped != want_jump: msgs.append("jump taken" if jumped else "jump not taken")
    if mem != bytes(exp_mem):
        k = next(j for j in range(len(mem)) if mem[j] != exp_mem[j]); msgs.append(f"memory at rbp{k - FRAME:+d} is {mem[k]:#x}, expected {exp_mem[k]:#x}")
    if glob != bytes(exp_glob): msgs.append("object memory differs from the expected bytes")
    if i in ("STARG", "CALL"): exp_st[:504] = st[:504]
    if st != bytes(exp_st): msgs.append("stack memory changed")
    if not msgs: return None
    return "\n".join(msgs) + f"\nintermediate instruction: {i} dst={d} fst={f} snd={s}\nalive (rcx rdx rsi rdi r8 r9 r10 r11): {c.alive}\nregisters: " + \
        " ".join(f"{REGS[j]}={init[j]:#x}" for j in range(16)) + f"\nemitted code:\n{asm}"

EDGE = [0, 1, 2, 3, 5, 7, 100, 127, 128, 200, 255, 256, 300, 0x7fff, 0x8000, 0xffff, 0x10000, 0x7fffffff, 0x80000000, 0x80000001, 0xffffffff, 0x100000000, 0x123456789abcdef0,
        0x7fffffffffffffff, 0x8000000000000000, 0x8000000000000001, 0xfffffffffffffffe, 0xffffffffffffffff, 0xffffffff80000000, 0xffffffff7fffffff]
def rv(rnd): return rnd.choice(EDGE) if rnd.random() < .7 else rnd.getrandbits(64)

def random_case(rnd, shape):
    """shape: (inst, kinds...) as produced by the property's unit list"""
    inst = shape[0]
    c = Case(inst)
    c.regs = [rv(rnd) for _ in range(16)]
    ids = list(range(8)); rnd.shuffle(ids)
    c.alive = [rnd.random() < .5 for _ in range(8)]
    W = {"BYTE": 1, "WORD": 2, "LONG": 3, "QUAD": 4}
    a, b, d = ids[0], ids[1], rnd.choice([ids[0], ids[1], ids[2], ids[2]])
    u = rnd.random() < .5
    def low(idx, w):
        if w == 3: c.regs[TAB[idx]] &= 0xffffffff
    if inst in ("ADD", "SUB", "MUL", "DIV", "MOD", "AND", "OR", "XOR") or inst.startswith("SET") or (inst[0] == "J" and inst != "JMP"):
        _, kind, wf, ws = shape[:4]; wd = shape[4] if len(shape) > 4 else "LONG"
        wf, ws, wd = W[wf], W[ws], W[wd]
        if wf != ws: u = False
        low(a, wf); c.fst = ("R", wf, a, int(u))
        if kind == "REG": low(b, ws); c.snd = ("R", ws, b, int(u))
        else: c.snd = ("I", ws, int(u), rv(rnd) if ws == 4 else (rv(rnd) & ((1 << BW[ws]) - 1) if u else sgn(rv(rnd), BW[ws]) & M64))
        if inst[0] == "J": c.dst = ("L", "target")
        else:
            c.dst = ("R", wd, d, 0 if inst.startswith("SET") else int(u))
            c.alive[a] = c.alive[a] and a == d
            if wf != ws and kind == "REG": c.alive[b] = b == d
        if inst in ("DIV", "MOD"):
            if val(c, c.snd) == 0: return None
            if not u and val(c, c.fst) == 1 << (BW[wf] - 1) and sgn(val(c, c.snd), BW[ws]) == -1: return None
    elif inst in ("SAL", "SAR"):
        wf, ws = W[shape[1]], W[shape[2]]; low(a, wf)
        c.fst = ("R", wf, a, int(u)); c.snd = ("I", ws, rnd.randrange(2), rnd.randrange(BW[wf])); d = rnd.choice([a, ids[2]]); c.dst = ("R", wf, d, int(u))
        c.alive[a] = c.alive[a] and a == d
    elif inst in ("NEG", "NOT"):
        w = W[shape[2]]; low(a, w); c.fst = ("R", w, a, int(u)) if shape[1] == "REG" else ("I", w, int(u), rv(rnd))
        d = rnd.choice([a, ids[2]]); c.dst = ("R", w, d, int(u))
        if shape[1] == "REG": c.alive[a] = c.alive[a] and a == d
    elif inst == "JMP": c.dst = ("L", "target")
    elif inst == "LOAD":
        _, kind, ws, wd = shape; ws, wd = W[ws], W[wd]; c.dst = ("R", wd, d, rnd.randrange(2))
        if kind == "REG": low(a, ws); c.fst = ("R", ws, a, int(u))
        elif kind == "INT": c.fst = ("I", wd, int(u), rv(rnd))
        elif kind == "MEM": c.fst = ("M", rnd.randrange(8, FRAME))
        elif kind == "PTR": c.fst = ("P", a); c.regs[TAB[a]] = 0xfee2fee2fee2 << 16 | rnd.randrange(16, 2 * FRAME - 16)
        else: c.fst = ("L", "glob")
    elif inst == "ADDR": c.dst = ("R", 4, d, 0); c.fst = ("M", rnd.randrange(-FRAME, FRAME)) if shape[1] == "MEM" else ("L", "glob")
    elif inst == "STORE":
        _, dk, sk, w = shape; w = W[w]
        low(a, w); c.fst = ("R", w, a, int(u)) if sk == "REG" else ("I", w, int(u), rv(rnd))
        c.dst = ("M", rnd.randrange(8, FRAME)) if dk == "MEM" else ("L", "glob") if dk == "LABEL" else ("P", b)
        if dk == "PTR": c.regs[TAB[b]] = 0xfee2fee2fee2 << 16 | rnd.randrange(16, 2 * FRAME - 16)
    elif inst == "STR":
        n = rnd.randrange(1, 40); c.fst = ("S", bytes(rnd.choice([0, 1, 65, 127, 128, 200, 255, rnd.randrange(256)]) for _ in range(n)).hex()); c.dst = ("M", rnd.randrange(48, FRAME))
        c.alive[6] = False
    elif inst == "STRET":
        w = W[shape[2]]; low(a, w); c.fst = ("R", w, a, int(u)) if shape[1] == "REG" else ("I", w, int(u), rv(rnd))
    elif inst == "LDARG": c.alive = [False] * 8; c.dst = ("M", rnd.randrange(8, FRAME)); c.fst = ("A", W[shape[1]], rnd.randrange(0, 12))
    elif inst == "STARG":
        w = W[shape[2]]; low(a, w); c.fst = ("R", w, a, int(u)) if shape[1] == "REG" else ("I", w, int(u), rv(rnd)); c.dst = ("A", w, rnd.randrange(9)); c.pushed = rnd.randrange(5)
    elif inst in ("PREP", "CLEAN"): c.fst = ("I", 0, 0, rnd.randrange(0, 14)); c.pushed = rnd.randrange(20, 40); c.pad = rnd.randrange(2)
    elif inst == "CALL":
        _, fk, wd = shape
        c.snd = ("I", 0, 0, rnd.randrange(0, 11)); c.pushed = 20
        c.dst = ("R", W[wd], d, int(u)) if wd else None
        if fk == "PTR": c.fst = ("P", a); c.regs[TAB[a]] = 0xfee1fee1fee1fee1; c.alive[a] = False
        else: c.fst = ("L", "callee_fn")
        live = [k for k in range(8) if c.alive[k] and not (wd and k == d)]
        rnd.shuffle(live)
        for k in live[5:]: c.alive[k] = False
    return c

def search(ctx, shapes, n, seed, extra=()):
    """random cases of the given shapes (plus extra concrete cases) on the CPU; -> message of the first disagreement or None"""
    exe = build(ctx)
    en = TU(["src/x64gen/inst.c"]).enums
    rnd = random.Random(seed)
    cases = list(extra)
    for sh in shapes:
        for _ in range(n):
            c = random_case(rnd, sh)
            if c is not None: cases.append(c)
    tot = 0
    for i in range(0, len(cases), 400):
        chunk = cases[i:i + 400]
        res = execute(ctx, exe, en, chunk)
        for c, r in zip(chunk, res):
            tot += 1
            m = judge(c, r)
            if m: return m, tot
    return None, tot

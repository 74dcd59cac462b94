"""End-to-end search: random C programs in the compiler's language, compiled by the current umlcc and by gcc, run side by side.

Used only to look for a concrete failing input (and as the stated bounded stand-in); never counted as proof."""
import random, os, subprocess, concurrent.futures as cf, glob
from cast import REPO, FrontError

ITY = ["char", "int", "unsigned", "long", "unsigned long", "long long", "unsigned long long"]
WEIGHT = [2, 5, 3, 4, 3, 1, 1]
BITS = {"char": 8, "int": 32, "unsigned": 32, "unsigned int": 32, "long": 64, "unsigned long": 64, "long long": 64, "unsigned long long": 64}

class Gen:
    """One translation unit.  Expressions are generated top down with a target of being accepted and well defined."""
    def __init__(s, rnd, nf=14, feats=None):
        s.r = rnd; s.out = []; s.nf = nf; s.lab = 0
        s.pure = []; s.impure = []; s.structs = []; s.globs = []; s.garr = []; s.funcs = []; s.gst = []
        s.feats = feats
    def w(s, *xs): return s.r.choice(xs)
    def ty(s): return s.r.choices(ITY, WEIGHT)[0]
    def lit(s, small=False):
        r = s.r
        k = r.random()
        if small or k < .5: v = r.randint(0, 9)
        elif k < .8: v = r.randint(0, 300)
        else: v = r.choice([127, 128, 255, 256, 32767, 65535, 65536, 0x7fffffff, r.randint(0, 0x7fffffff)])
        f = r.random()
        if f < .15: t = "0x%x" % v if r.random() < .5 else "0X%X" % v
        elif f < .25: t = "0%o" % v
        else: t = str(v)
        f = r.random()
        if f < .75: return t
        if f < .82 and not small: return r.choice(["4294967296l", "0x7fffffffffffffffl", "0x123456789abcdefUL", "0xffffffffffffffffu" "l", "2147483648u", "4294967295U"])
        return t + r.choice(["u", "U", "l", "L", "ul", "uL", "Lu", "LU", "ll", "LL", "ull", "LLu", "llU"])
    def ch(s): return s.r.choice(["'a'", "'Z'", "' '", "'\\n'", "'\\0'", "'\\''", "'\"'", "'\\\\'", "'\\t'", "'\\x41'", "'\\101'", "'~'", "'0'", "'\\a'", "'\\r'", "'\\v'", "'\\f'", "'\\b'", "'\\?'", "'?'"])
    # scope: list of (name, type) ; type is str scalar or ("arr", elem, n), ("ptr", elem), ("st", sname), ("pst", sname)
    def leaf(s, sc):
        r = s.r; k = r.random()
        vs = [v for v in sc if isinstance(v[1], str)]
        if k < .22 or not vs: return s.lit()
        if k < .26: return s.ch()
        if k < .72: return r.choice(vs)[0]
        ar = [v for v in sc if isinstance(v[1], tuple)]
        if not ar: return r.choice(vs)[0]
        return s.lval_agg(r.choice(ar), sc, 0)
    def idx(s, n, sc, d):
        vs = [v for v in sc if v[1] in ("int", "long", "unsigned")]
        k = s.r.random()
        if k < .5 or not vs: return str(s.r.randrange(n))
        m = 1
        while m * 2 <= n: m *= 2
        v = s.r.choice(vs)[0]
        return f"{v} & {m - 1}" if s.r.random() < .7 or d <= 0 else f"({s.expr(sc, d - 1)}) & {m - 1}"
    def lval_agg(s, v, sc, d):
        n, t = v; r = s.r
        if t[0] == "arr":
            if isinstance(t[1], tuple): return s.lval_agg((f"{n}[{s.idx(t[2], sc, d)}]", t[1]), sc, d)
            return f"{n}[{s.idx(t[2], sc, d)}]" if r.random() < .8 else f"*({n} + {r.randrange(t[2])})"
        if t[0] == "ptr": return s.w(f"*{n}", f"{n}[0]")
        fs = dict(s.structs)[t[1]]
        f, ft = r.choice(fs)
        q = f"{n}.{f}" if t[0] == "st" else s.w(f"{n}->{f}", f"(*{n}).{f}")
        if isinstance(ft, tuple): return s.lval_agg((q, ft), sc, d)
        return q
    def lval(s, sc, d=1):
        vs = [v for v in sc if isinstance(v[1], str) and not v[0].startswith("k_")]
        ar = [v for v in sc if isinstance(v[1], tuple)]
        if vs and (not ar or s.r.random() < .65): return s.r.choice(vs)[0]
        if not ar: return None
        return s.lval_agg(s.r.choice(ar), sc, d)
    def expr(s, sc, d, call=True):
        r = s.r
        if d <= 0: return s.leaf(sc)
        k = r.random(); L = lambda: s.expr(sc, d - 1, call); R = lambda: s.expr(sc, d - 1 - (r.random() < .5), call)
        if k < .10: return s.leaf(sc)
        if k < .36: return f"({L()} {s.w('+', '-', '*')} {R()})" if r.random() < .6 else f"{s.leaf(sc)} {s.w('+', '-', '*')} {s.leaf(sc)}"
        if k < .44: return f"({L()} {s.w('/', '%')} (({R()} & {s.w(3, 7, 15)}) + {r.randint(1, 9)}))"
        if k < .48: return f"({L()} {s.w('/', '%')} {r.choice([1, 2, 3, 5, 7, 10, 16, 100])})"
        if k < .60: return f"({L()} {s.w('&', '|', '^')} {R()})"
        if k < .67: return f"({L()} {s.w('<<', '>>')} {r.randint(0, 31)})"
        if k < .76: return f"({L()} {s.w('<', '>', '<=', '>=', '==', '!=')} {R()})"
        if k < .82: return f"({L()} {s.w('&&', '||')} {R()})"
        if k < .87: return f"({s.w('-', '~', '!', '+')}{L()})"
        if k < .91: return f"({L()} ? {R()} : {R()})"
        if k < .94: return f"(({s.ty()}){L()})"
        if k < .95: return f"({s.w('(int)', '(long)')}sizeof({s.w('int', 'char', 'long', 'int*')}))"
        if call and s.pure and r.random() < .8: return s.callx(sc, d - 1)
        return s.leaf(sc)
    def callx(s, sc, d):
        n, ps = s.r.choice(s.pure)
        return f"{n}(" + ", ".join(s.expr(sc, min(d, 1), call=s.r.random() < .3) for _ in ps) + ")"
    def assign(s, sc):
        l = s.lval(sc); r = s.r
        if l is None: return ";"
        k = r.random()
        if s.impure and s.allow_impure and r.random() < .15:
            n, ps = r.choice(s.impure)
            ls = [v for v in sc if isinstance(v[1], str) and not v[0].startswith("k_")]
            if ls: return f"{r.choice(ls)[0]} = {n}(" + ", ".join(s.expr(sc, 1) for _ in ps) + ");"
        if k < .6: return f"{l} = {s.expr(sc, 3)};"
        l2 = l
        if k < .75: return f"{l2} {s.w('+=', '-=', '*=', '&=', '|=', '^=')} {s.expr(sc, 2)};"
        if k < .8: return f"{l2} {s.w('<<=', '>>=')} {r.randint(0, 7)};"
        if k < .92:
            s2 = s.w("++", "--"); return s.w(f"{s2}{l};", f"{l}{s2};") if not l.startswith("*") else f"({l}){s2};"
        m = s.lval(sc)
        if "*" in l or "*" in m: return f"{l} = {m};"
        return s.w(f"{l} = {m}++;", f"{l} = --{m};", f"{l} = {m} = {s.expr(sc, 2)};", f"{l} = {m}-- + {s.lit(True)};") if l != m else f"{l} = 5;"
    def stmt(s, sc, d, loop=False, sw=False):
        r = s.r; k = r.random()
        if d <= 0 or k < .42: return s.assign(sc)
        if k < .55:
            e = f" else {s.block(sc, d - 1, loop, sw)}" if r.random() < .6 else ""
            return f"if ({s.expr(sc, 2)}) {s.block(sc, d - 1, loop, sw)}{e}"
        if k < .66:
            s.lab += 1; v = f"k_{s.lab}"
            return f"{{ int {v} = {r.randint(0, 5)}; while ({v} {s.w('> 0', '>= 1', '!= 0', '')}) {{ {v}--; {s.inner(sc + [(v, 'int')], d - 1, True, False)} }} }}"
        if k < .78:
            s.lab += 1; v = f"k_{s.lab}"
            if r.random() < .5: return f"for (int {v} = 0; {v} < {r.randint(0, 5)}; {v}++) {s.block(sc + [(v, 'int')], d - 1, True, False)}"
            return f"{{ int {v}; for ({v} = {r.randint(0, 5)}; {v} >= 0; --{v}) {s.block(sc + [(v, 'int')], d - 1, True, False)} }}"
        if k < .88:
            cs = r.sample(range(0, 8), r.randint(1, 4)); parts = []
            items = [("case %d:" % c) for c in cs]
            if r.random() < .7: items.insert(r.randint(0, len(items)), "default:")
            for it in items:
                parts.append(it + " " + s.stmt(sc, d - 1, loop, True) + (" break;" if r.random() < .7 else ""))
            return f"switch ({s.expr(sc, 1)} & 7) {{ {' '.join(parts)} }}"
        if k < .91 and (loop or sw): return f"if ({s.expr(sc, 1)}) {{ {s.w('break;', 'continue;' if loop else 'break;')} }}"
        if k < .95: return f"return {s.expr(sc, 2)};"
        return s.block(sc, d - 1, loop, sw)
    def brace(s, t, sc, part=True):
        if isinstance(t, str): return s.expr(sc, 1, False) if sc is not None else str(s.r.randint(0, 120))
        ts = [t[1]] * t[2] if t[0] == "arr" else [ft for _, ft in dict(s.structs)[t[1]]]
        if part and s.r.random() < .3: ts = ts[:s.r.randint(1, len(ts))]
        return "{" + ", ".join(s.brace(x, sc, part) for x in ts) + "}"
    def decl(s, sc):
        r = s.r; s.lab += 1; n = f"v{s.lab}"; k = r.random()
        if sc and r.random() < .08:
            cand = [v for v in sc if not v[0].startswith("k_")]
            if cand: n = r.choice(cand)[0]
            if any(c in n for c in "[.*"): n = f"v{s.lab}"
        if k < .6 or n in [v[0] for v in sc]:
            t = s.ty(); e = s.expr([v for v in sc if v[0] != n], 2)
            return f"{t} {n} = {e};", (n, t)
        if k < .75:
            t = s.ty(); m = r.choice([1, 2, 3, 4, 5, 8])
            vals = ", ".join(s.expr([v for v in sc if isinstance(v[1], str)], 1, False) for _ in range(m))
            return f"{t} {n}[{m}] = {{{vals}}};", (n, ("arr", t, m))
        if k < .80:
            m = r.randint(1, 12); body = "".join(r.choice(["a", "B", " ", "z", "0", "\\n", "%", "\\0"]) for _ in range(m - 1))
            L = body.replace("\\", "\\"); ln = 1; i = 0
            while i < len(body):
                i += 2 if body[i] == "\\" else 1; ln += 1
            ln += r.choice([0, 0, 1, 3]); return f"char {n}[{ln}] = \"{body}\";", (n, ("arr", "char", ln))
        if k < .9 and s.structs:
            st, fs = r.choice(s.structs)
            if r.random() < .4: return f"struct {st} {n} = {s.brace(('st', st), sc)};", (n, ("st", st))
            if r.random() < .2: return f"struct {st} {n}[2] = {{{s.brace(('st', st), sc)}, {s.brace(('st', st), sc)}}};", (n, ("arr", ("st", st), 2))
            init = []; pre = f"struct {st} {n};"
            def fill(q, t):
                if isinstance(t, str): init.append(f"{q} = {s.expr(sc, 1)};")
                elif t[0] == "arr":
                    for i in range(t[2]): fill(f"{q}[{i}]", t[1])
                else:
                    for f, ft in dict(s.structs)[t[1]]: fill(f"{q}.{f}", ft)
            fill(n, ("st", st))
            return pre + " " + " ".join(init), (n, ("st", st))
        vs = [v for v in sc if isinstance(v[1], str) and not v[0].startswith("k_")]
        ars = [v for v in sc if isinstance(v[1], tuple) and v[1][0] == "arr" and isinstance(v[1][1], str)]
        if ars and r.random() < .4:
            a = r.choice(ars); return f"{a[1][1]}* {n} = {s.w(a[0], '&' + a[0] + '[0]')};", (n, ("ptr", a[1][1]))
        if vs:
            v = r.choice(vs); return f"{v[1]}* {n} = &{v[0]};", (n, ("ptr", v[1]))
        return f"int {n} = 1;", (n, "int")
    def inner(s, sc, d, loop, sw):
        sc = list(sc); out = []
        for _ in range(s.r.randint(1, 3)):
            if s.r.random() < .35:
                t, v = s.decl(sc)
                if v[0] in s.declared_here(out): continue
                out.append(t); sc = [x for x in sc if x[0] != v[0]] + [v]
            else: out.append(s.stmt(sc, d, loop, sw))
        return " ".join(out)
    def declared_here(s, out): 
        import re
        return {m for o in out for m in re.findall(r"(?:char|int|unsigned|long|struct S\d)\*? (\w+)(?= =|\[|;)", o)}
    def block(s, sc, d, loop, sw): return "{ " + s.inner(sc, d, loop, sw) + " }"
    def unit(s):
        r = s.r
        for i in range(r.randint(1, 3)):
            fs = []
            for j in range(r.randint(1, 5)):
                k = r.random()
                t = s.ty() if k < .75 or not s.structs else ("arr", s.ty(), r.randint(1, 4)) if k < .92 else ("st", r.choice(s.structs)[0])
                fs.append((f"m{j}", t))
            s.structs.append((f"S{i}", fs))
            s.out.append(f"struct S{i} {{ " + " ".join(s.declt(t, n) + ";" for n, t in fs) + " };")
        for i in range(r.randint(2, 5)):
            t = s.ty(); v = r.choice([0, 1, 5, 100, 127, 77]); s.globs.append((f"g{i}", t)); s.out.append(f"{t} g{i} = {v};" if r.random() < .7 else f"{t} g{i};")
        for i in range(2):
            t = s.ty(); m = r.choice([2, 3, 4, 8]); s.garr.append((f"ga{i}", ("arr", t, m)))
            s.out.append(f"{t} ga{i}[{m}] = {{{', '.join(str(r.randint(0, 120)) for _ in range(r.randint(1, m)))}}};")
        st = r.choice(s.structs)[0]; s.garr.append(("gs", ("st", st))); s.out.append(f"struct {st} gs;" if r.random() < .4 else f"struct {st} gs = {s.brace(('st', st), None)};")
        if r.random() < .4: s.out.append("enum E { EA, EB = 5, EC };"); s.globs.append(("k_e", "int")); s.out.append("int k_e = 3;")
        for i in range(s.nf):
            n = f"f{i}"; np = r.choice([0, 1, 2, 2, 3, 3, 4, 6, 7, 8, 9])
            ps = [(f"p{j}", s.ty()) for j in range(np)]
            rt = s.ty()
            pure = r.random() < .5; s.allow_impure = not pure
            sc = ([] if pure else list(s.globs) + list(s.garr)) + ps
            body = []
            for _ in range(r.randint(1, 3)):
                t, v = s.decl([x for x in sc if not (x in ps)] + ps)
                if v[0] in [p[0] for p in ps] or v[0] in s.declared_here(body): continue
                body.append(t); sc = [x for x in sc if x[0] != v[0]] + [v]
            for _ in range(r.randint(1, 5)): body.append(s.stmt(sc, 3))
            body.append(f"return {s.expr(sc, 3)};")
            pl = ", ".join(f"{t} {p}" for p, t in ps) or "void"
            s.out.append(f"{rt} {n}({pl}) {{\n    " + "\n    ".join(body) + "\n}")
            (s.pure if pure else s.impure).append((n, [t for _, t in ps])); s.sig = getattr(s, "sig", []) + [(n, rt, [t for _, t in ps])]
        return "\n".join(s.out) + "\n"
    def declt(s, t, n):
        if isinstance(t, str): return f"{t} {n}"
        if t[0] == "arr": return f"{s.declt(t[1], n)}[{t[2]}]"
        return f"struct {t[1]} {n}"
    def driver(s):
        """compares every function of the two builds on the same arguments from the same global state"""
        r = s.r; o = ['#include <stdio.h>\n#include <string.h>\n#include <signal.h>\n#include <setjmp.h>\n#include <unistd.h>\n#include <stdlib.h>\nstatic const char* cur = "start";\n'
                      'static void die(int x) { printf("DIFF %s: signal %d\\n", cur, x); fflush(stdout); _exit(3); }\nlong clob(void);\n']
        gs = [n for n, _ in s.globs + s.garr]
        szt = {n: (self_t if isinstance(self_t, str) else None) for n, self_t in s.globs}
        for n, t in s.globs + s.garr:
            if isinstance(t, str): sz = BITS[t] // 8
            elif t[0] == "arr": sz = BITS[t[1]] // 8 * t[2]
            else: sz = None
            s_ = f"[{sz}]" if sz else "[GSZ]"
            o.append(f"extern unsigned char u_{n}{s_}, r_{n}{s_};\n")
        for n, rt, ps in s.sig:
            for p in "ur": o.append(f"{rt} {p}_{n}({', '.join(ps) or 'void'});\n")
        o.append("int main(void) {\nstatic char stk[65536]; stack_t ss = {stk, 0, sizeof stk}; sigaltstack(&ss, 0);\n"
                 "struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_handler = die; sa.sa_flags = SA_ONSTACK; int sg[] = {SIGSEGV, SIGFPE, SIGBUS, SIGILL, SIGALRM}; for (int i = 0; i < 5; i++) sigaction(sg[i], &sa, 0);\n"
                 "alarm(10);\n")
        vals = [0, 1, -1, 2, 127, 128, 255, -128, 2147483647, -2147483648, 4294967295, 65536, 9223372036854775807, 123456789012345]
        for n, rt, ps in s.sig:
            for _ in range(3):
                a = ", ".join(f"({t})({r.choice(vals) if r.random() < .6 else r.randint(-1000, 1000)}l)" for t in ps)
                o.append(f'{{ cur = "{n}({a})"; {rt} x = u_{n}({a}); {rt} y = r_{n}({a}); if (x != y) {{ printf("DIFF {n}({a}): umlcc %lld gcc %lld\\n", (long long)x, (long long)y); return 1; }}\n')
                for g, t in s.globs + s.garr: o.append(f'if (memcmp(u_{g}, r_{g}, sizeof u_{g})) {{ printf("DIFF after {n}({a}): global {g}\\n"); return 1; }}\n')
                o.append("}\n")
        o.append('printf("same\\n"); return 0; }\n')
        return "".join(o)

def build_umlcc(ctx):
    exe = os.path.join(ctx.scratch, "umlcc")
    if os.path.exists(exe): return exe
    lib = ctx.repo_lib(san=False)
    r = subprocess.run(["gcc", "-std=gnu99", "-O1", "-w", "-g", "-o", exe, os.path.join(REPO, "src/main.c"), lib], capture_output=True, text=True)
    if r.returncode: raise FrontError("native build failed: " + r.stderr[-1500:])
    return exe
def gs_size(src, name):
    return None
def compile_pair(d, exe, src, tmo=20, ref=None):
    """-> None or a message when umlcc rejects or breaks on a program gcc accepts"""
    f = os.path.join(d, "t.c"); open(f, "w").write(src); open(os.path.join(d, "ref.c"), "w").write(ref or src)
    g = subprocess.run(["gcc", "-w", "-std=c99", "-O0", "-fwrapv", "-fno-strict-aliasing", "-fno-pie", "-fno-stack-protector", "-c", "ref.c", "-o", "r.o"], cwd=d, capture_output=True, text=True)
    if g.returncode: return ("gcc", g.stderr[-600:])
    try: u = subprocess.run([exe, "t.c"], cwd=d, capture_output=True, text=True, timeout=tmo)
    except subprocess.TimeoutExpired: return ("umlcc", "umlcc does not terminate")
    if u.returncode: return ("reject" if u.returncode == 1 else "umlcc", f"umlcc exits {u.returncode}: {u.stdout[-300:]}{u.stderr[-300:]}")
    a = subprocess.run(["gcc", "-c", "t.s", "-o", "u.o"], cwd=d, capture_output=True, text=True)
    if a.returncode: return ("umlcc", "assembler rejects the output: " + a.stderr[-600:])
    for p in "ur": subprocess.run(["objcopy", f"--prefix-symbols={p}_", f"{p}.o", f"{p}p.o"], cwd=d, check=True)
    return None
def run_pair(d, drv, tmo=30, flags=()):
    open(os.path.join(d, "drv.c"), "w").write(drv)
    g = subprocess.run(["gcc", "-w", "-O0", "-no-pie", *flags, "drv.c", "up.o", "rp.o", "-o", "run"], cwd=d, capture_output=True, text=True)
    if g.returncode: return ("link", g.stderr[-800:])
    try: r = subprocess.run(["./run"], cwd=d, capture_output=True, text=True, timeout=tmo)
    except subprocess.TimeoutExpired: return ("diff", "does not terminate")
    if r.returncode or "same" not in r.stdout: return ("diff", r.stdout[-600:] + f" (exit {r.returncode})")
    return None
def one(ctx, exe, seed, nf=14, shrink=True):
    import tempfile, shutil
    d = tempfile.mkdtemp(dir=ctx.scratch)
    try:
        g = Gen(random.Random(seed), nf); src = g.unit()
        m = compile_pair(d, exe, src)
        if m is None:
            sz = subprocess.run("nm -S r.o | grep ' gs$'", shell=True, cwd=d, capture_output=True, text=True).stdout.split()
            n = int(sz[1], 16) if len(sz) > 3 else 1
            m = run_pair(d, g.driver().replace("GSZ", str(n)))
        return m, src
    finally: shutil.rmtree(d, ignore_errors=True)
def search(ctx, n, seed, nf=14):
    """-> (message or None, stats)"""
    exe = build_umlcc(ctx); st = {"programs": 0, "rejected": 0}
    with cf.ThreadPoolExecutor(8) as ex:
        futs = [ex.submit(one, ctx, exe, seed * 100003 + i, nf) for i in range(n)]
        res = [f.result() for f in futs]
    msg = None
    for m, src in res:
        st["programs"] += 1
        if m is None: continue
        if m[0] in ("reject", "gcc", "link"): st["rejected"] += 1; st.setdefault("reasons", []).append(m[1][-200:]); continue
        if msg is None: msg = f"{m[1]}\n\nprogram:\n{src}"
    return msg, st

VALS = {1: [0, 1, 2, 5, 100, 127, -1, -2, -128, 65], 4: [0, 1, 2, 7, 33, 255, 256, 65536, 2147483647, -1, -2, -2147483648, 305419896],
        8: [0, 1, 2, 9, 255, 65535, 4294967295, 4294967296, 2147483648, 9223372036854775807, -1, -2, -2147483648, -9223372036854775807 - 1, 1311768467463790320]}
def lit(v):
    return "(-9223372036854775807l - 1)" if v == -9223372036854775808 else f"{v}l" if v >= 0 else f"(-{-v}l)"
def argvec(r, ps, n):
    """n argument vectors for parameter types"""
    out = []
    for _ in range(n):
        out.append([f"({t})({lit(r.choice(VALS[BITS[t] // 8]))})" for t in ps])
    return out
def funcs(ctx, decls, fns, seed=1, per=12, chunk=40, reject_ok=False, extra_driver="", prep="", ref_decls=None):
    """decls: text before the functions; fns: [(name, rettype, [param types], text or (text umlcc), [arg vectors] or None)].
    Every function is compiled by umlcc and gcc and called with the same arguments.  -> message or None"""
    import tempfile, shutil
    exe = build_umlcc(ctx)
    chunks = [fns[i:i + chunk] for i in range(0, len(fns), chunk)]
    def go(ci):
        c = chunks[ci]; r = random.Random(seed * 1009 + ci)
        d = tempfile.mkdtemp(dir=ctx.scratch)
        try:
            src = decls + "\n" + "\n".join(f[3] for f in c) + "\n"
            ref = src if ref_decls is None else ref_decls + src[len(decls):]
            m = compile_pair(d, exe, src, ref=ref)
            if m is not None:
                if m[0] == "gcc": return ("gcc", m[1], src)
                if len(c) > 1:       # narrow down to one function
                    for f in c:
                        s1 = decls + "\n" + f[3] + "\n"
                        m1 = compile_pair(d, exe, s1, ref=s1 if ref_decls is None else ref_decls + s1[len(decls):])
                        if m1 is not None and m1[0] != "gcc":
                            if m1[0] == "reject" and reject_ok: continue
                            return (m1[0], m1[1], s1)
                    if m[0] == "reject" and reject_ok: return None
                return None if m[0] == "reject" and reject_ok else (m[0], m[1], src)
            o = ['#include <stdio.h>\n#include <string.h>\n#include <signal.h>\n#include <unistd.h>\nstatic const char* cur = "start";\n'
                 'static void die(int x) { printf("DIFF %s: signal %d\\n", cur, x); fflush(stdout); _exit(3); }\n']
            o.append(extra_driver)
            o.append('register long g_bx asm("rbx"); register long g_12 asm("r12"); register long g_13 asm("r13"); register long g_14 asm("r14"); register long g_15 asm("r15");\n'
                     '#define SAVE g_bx = 0x1111; g_12 = 0x2222; g_13 = 0x3333; g_14 = 0x4444; g_15 = 0x5555;\n'
                     '#define KEPT(n) if (g_bx != 0x1111 || g_12 != 0x2222 || g_13 != 0x3333 || g_14 != 0x4444 || g_15 != 0x5555) { printf("DIFF %s: a callee-saved register is not restored\\n", n); return 1; }\n')
            for nm, rt, ps, tx, av in c:
                for p in "ur": o.append(f"{rt} {p}_{nm}({', '.join(ps) or 'void'});\n")
            o.append("int main(void) {\nstatic char stk[65536]; stack_t ss = {stk, 0, sizeof stk}; sigaltstack(&ss, 0);\n"
                     "struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_handler = die; sa.sa_flags = SA_ONSTACK; int sg[] = {SIGSEGV, SIGFPE, SIGBUS, SIGILL, SIGALRM}; for (int i = 0; i < 5; i++) sigaction(sg[i], &sa, 0);\nalarm(20);\n")
            for nm, rt, ps, tx, av in c:
                for a in (av if av is not None else argvec(r, ps, per if ps else 1)):
                    a = ", ".join(a)
                    o.append(f'{{ cur = "{nm}({a})"; {prep} SAVE {rt} x = u_{nm}({a}); KEPT("{nm}({a})") {prep} {rt} y = r_{nm}({a}); if (x != y) {{ printf("DIFF {nm}({a}): umlcc %lld gcc %lld\\n", (long long)x, (long long)y); return 1; }} }}\n')
            o.append('printf("same\\n"); return 0; }\n')
            m = run_pair(d, "".join(o))
            if m is None: return None
            if m[0] == "link": return ("gcc", m[1], "")
            bad = m[1].split("DIFF", 1)[-1].strip().split("(")[0].split(" ")[-1]
            s1 = "\n".join(f[3] for f in c if f[0] == bad) or src
            return (m[0], m[1], decls + "\n" + s1)
        finally: shutil.rmtree(d, ignore_errors=True)
    with cf.ThreadPoolExecutor(8) as ex: res = list(ex.map(go, range(len(chunks))))
    for m in res:
        if m is not None and m[0] == "gcc": raise FrontError("generated program rejected by gcc: " + m[1] + m[2][:500])
    for m in res:
        if m is not None: return f"{m[1]}\n\nprogram:\n{m[2]}"
    return None

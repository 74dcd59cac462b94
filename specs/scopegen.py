"""Random programs about scopes and stack objects, compared with gcc (bounded search and stand-in of C08 and C09)."""
import random, os, tempfile, shutil, subprocess
import e2e, runner
POOL = ["a", "b", "c", "d"]
class Gen:
    def __init__(s, r, big=False): s.r = r; s.big = big; s.k = 0; s.tags = [{}]; s.vars = [{}]; s.lines = []
    def const(s): s.k += 1; return s.k * 7 + s.r.randint(0, 5)
    def look(s, n):
        for sc in reversed(s.vars):
            if n in sc: return sc[n]
    def use(s, n):
        t = s.look(n)
        if t is None: return
        if t[0] == "int": s.out(f"r = r * 31 + {n};")
        elif t[0] == "arr": s.out(f"r = r * 31 + {n}[{s.r.randrange(t[2])}];")
        elif t[0] == "st": s.out(f"r = r * 31 + {n}.{t[2]};")
    def set(s, n):
        t = s.look(n)
        if t is None: return
        if t[0] == "int": s.out(f"{n} = {s.const() & 127};")
        elif t[0] == "arr": s.out(f"{n}[{s.r.randrange(t[2])}] = {s.const() & 127};")
        elif t[0] == "st": s.out(f"{n}.{t[2]} = {s.const() & 127};")
    def out(s, l): s.lines.append("  " * len(s.vars) + l)
    def decl(s):
        r = s.r; cur = s.vars[-1]; free = [n for n in POOL if n not in cur]
        if not free: return
        n = r.choice(free); k = r.random()
        if k < .45:
            t = r.choice(["int", "long", "char", "unsigned int", "long long"]); s.out(f"{t} {n} = {s.const() & 127};"); cur[n] = ("int", t)
        elif k < .6 or s.big and k < .75:
            t = r.choice(["int", "char", "long"]); m = r.randint(1, 9); s.out(f"{t} {n}[{m}] = {{{', '.join(str(s.const() & 127) for _ in range(m))}}};"); cur[n] = ("arr", t, m)
        elif k < .78:
            e = f"e{s.k}"; v = s.const(); s.out(f"enum {e} {{ {n} = {v} }};"); cur[n] = ("const",); s.out(f"r = r * 31 + {n};")
        else:
            tg = r.choice(["T", "U"])
            if tg in s.tags[-1]:
                mem = s.tags[-1][tg]
            else:
                mem = [f"m{i}" for i in range(r.randint(1, 4))]; r.shuffle(mem)
                s.out(f"struct {tg} {{ " + " ".join(f"{r.choice(['int', 'char', 'long'])} {m};" for m in mem) + " };"); s.tags[-1][tg] = mem
                for sc in s.vars[:-1]:           # objects of a hidden struct tag are left alone (known finding)
                    for v in [v for v, t in sc.items() if t[0] == "st" and t[1] == tg]: sc[v] = ("hidden",)
            m = r.choice(mem); s.out(f"struct {tg} {n};"); s.out(f"{n}.{m} = {s.const() & 127};"); s.out(f"r = r * 31 + sizeof({n}) + sizeof(struct {tg});"); cur[n] = ("st", tg, m)
        s.use(n)
    def block(s, depth, n):
        for _ in range(n):
            k = s.r.random()
            if k < .35: s.decl()
            elif k < .55: s.use(s.r.choice(POOL))
            elif k < .68: s.set(s.r.choice(POOL))
            elif depth > 0: s.nested(depth)
        for p in POOL: s.use(p)
    def open(s): s.vars.append({}); s.tags.append({})
    def close(s): s.vars.pop(); s.tags.pop()
    def nested(s, depth):
        k = s.r.random(); n = s.r.randint(2, 6)
        if k < .45:
            s.out("{"); s.open(); s.block(depth - 1, n); s.close(); s.out("}")
        elif k < .7:
            v = s.r.choice(POOL); s.out(f"for (int {v} = 0; {v} < {s.r.randint(1, 3)}; {v}++) {{"); s.open(); s.vars[-1][v] = ("const",); s.open(); s.out(f"r = r * 31 + {v};"); s.block(depth - 1, n); s.close(); s.close(); s.out("}")
        elif k < .85:
            s.out(f"if (r & 1) {{"); s.open(); s.block(depth - 1, n); s.close(); s.out("} else {"); s.open(); s.block(depth - 1, n); s.close(); s.out("}")
        else:
            s.out(f"switch (r & 3) {{ case 1: {{"); s.open(); s.block(depth - 1, n); s.close(); s.out("} default: {"); s.open(); s.block(depth - 1, n); s.close(); s.out("} }")
    def func(s, name):
        ps = s.r.sample(POOL, s.r.randint(0, 3)); ts = [s.r.choice(["int", "long", "char"]) for _ in ps]
        s.lines = []; s.open(); s.vars[-1].update({p: ("int", t) for p, t in zip(ps, ts)})
        s.out("unsigned long r; r = 1;"); s.block(2, 9 if not s.big else 14); s.out("return r;"); s.close()
        return (name, "unsigned long", ts, f"unsigned long {name}({', '.join(f'{t} {p}' for t, p in zip(ts, ps)) or 'void'}) {{\n" + "\n".join(s.lines) + "\n}", None)
def programs(ctx, n, seed, big=False):
    import concurrent.futures as cf
    def go(i):
        r = random.Random(seed * 7919 + i); g = Gen(r, big); decls = ""
        for v in r.sample(POOL, r.randint(0, 3)):
            decls += f"int {v} = {g.const()};\n"; g.vars[0][v] = ("int", "int")
        fns = []
        for j in range(6): 
            fns.append(g.func(f"f{j}"))
        return decls, fns
    msgs = []
    def run1(i):
        d, f = go(i); return e2e.funcs(ctx, d, f, seed + i, per=4, chunk=6)
    e2e.build_umlcc(ctx)
    with cf.ThreadPoolExecutor(4) as ex:
        for m in ex.map(run1, range(n)):
            if m is not None: return m
    return None
REJECT = {
 "two variables of one name in a block": "int f(void) { int a; long a; return 0; }",
 "a variable named like a parameter": "int f(int a) { int a; return 0; }",
 "two globals of one name": "int a; long a;",
 "a function named like a global": "int a; int a(void) { return 0; }",
 "two enumerators of one name": "enum E { a, b, a };",
 "an enumerator named like a variable": "int f(void) { int a; enum E { a }; return 0; }",
 "a struct tag declared twice in a block": "int f(void) { struct S { int a; }; struct S { int b; }; return 0; }",
 "a struct tag declared twice at file level": "struct S { int a; };\nstruct S { int b; };",
 "an enum tag equal to a struct tag": "struct S { int a; };\nenum S { x };",
 "a variable used after its block": "int f(void) { { int a; a = 1; } return a; }",
 "a loop variable used after the loop": "int f(void) { for (int i = 0; i < 3; i++) { } return i; }",
 "a loop body variable used in the loop header": "int f(void) { for (int i = 0; i < 3; i = k) { int k; k = 1; } return 0; }",
 "a name never declared": "int f(void) { return zz; }",
 "a parameter used in another function": "int g(int p) { return p; }\nint f(void) { return p; }",
 "a struct tag used after its block": "int f(void) { { struct S { int a; }; } struct S s; s.a = 1; return 0; }",
 "an enumerator used after its block": "int f(void) { { enum E { a }; } return a; }",
 "a local of an earlier function": "int g(void) { int q; q = 1; return q; }\nint f(void) { return q; }",
 "two loop variables of one name": "int f(void) { for (int i = 0, i = 1; i < 3; i++) { } return 0; }",
 "a block's variable declared twice after an inner block": "int f(void) { int a; { int a; a = 2; } int a; return 0; }",
 "a struct tag used after the loop that declares it": "int f(void) { for (struct S { int a; } s; ;) { break; } struct S t; return 0; }",
}
ACCEPT = {
 "inner blocks reuse names": "int a; int f(int b) { int a; a = b; { long a; a = 5; { char a; a = 3; { int b; b = a; return b; } } } }",
 "a loop body reuses the loop variable's name": "int f(void) { for (int i = 0; i < 3; i++) { int i; i = 9; } return 0; }",
 "two loops with one variable name": "int f(void) { for (int i = 0; i < 3; i++) { } for (int i = 0; i < 2; i++) { } return 0; }",
 "a tag and a variable share a name": "struct a { int a; }; int f(void) { struct a a; a.a = 3; return a.a; }",
 "a local named like its function": "int f(void) { int f; f = 2; return f; }",
 "parameters of two functions": "int f(int a) { return a; }\nint g(int a, int b) { return f(a) + b; }",
 "an inner struct tag": "struct S { int a; }; int f(void) { struct S { char b; }; struct S s; s.b = 1; return s.b; }\nint g(void) { struct S s; s.a = 1; return s.a; }",
 "an inner enumerator": "enum E { a = 1 }; int f(void) { enum F { a = 2 }; return a; }",
}
def accept_reject(ctx, ACCEPT=None, REJECT=None):
    if ACCEPT is None: ACCEPT, REJECT = globals()["ACCEPT"], globals()["REJECT"]
    asd = lambda x: x if isinstance(x, dict) else {f"program {i}": t for i, t in enumerate(x)}
    ACCEPT, REJECT = asd(ACCEPT), asd(REJECT)
    exe = e2e.build_umlcc(ctx); d = tempfile.mkdtemp(dir=ctx.scratch)
    for want, cs in ((1, REJECT), (0, ACCEPT)):
        for what, src in cs.items():
            open(os.path.join(d, "t.c"), "w").write(src + "\n")
            if os.path.exists(os.path.join(d, "t.s")): os.remove(os.path.join(d, "t.s"))
            try: r = subprocess.run([exe, "t.c"], cwd=d, capture_output=True, text=True, timeout=20)
            except subprocess.TimeoutExpired: return f"{what}: umlcc does not terminate\n\n{src}"
            if (r.returncode == 1) != bool(want) or r.returncode not in (0, 1):
                return f"{what}: should be {'rejected' if want else 'accepted'}, umlcc exits {r.returncode}\n{r.stderr[-500:]}\n\nprogram:\n{src}"
    return None

# ---------------------------------------------------------------- stack objects: every byte of every object is written and read back
def stack_func(r, name):
    L = []; live = []; n = [0]
    SZ = {"char": 1, "int": 4, "long": 8, "unsigned int": 4, "long long": 8}
    ps = [(f"p{i}", r.choice(list(SZ))) for i in range(r.randint(0, 8))]
    def fill(v):
        nm, k, t, m = v
        if k == "arr": L.append(f"for (i = 0; i < {m}; i++) {{ {nm}[i] = {r.randint(1, 100)} + i; }}")
        elif k == "st": L.append(f"q = (char *) &{nm}; for (i = 0; i < {m}; i++) {{ q[i] = {r.randint(1, 100)} + i; }}")
        else: L.append(f"{nm} = {r.choice([r.randint(1, 100), 255, 65535, 2147483647])};")
    def read(v):
        nm, k, t, m = v
        if k == "arr": L.append(f"for (i = 0; i < {m}; i++) {{ r = r * 31 + {nm}[i]; }}")
        elif k == "st": L.append(f"q = (char *) &{nm}; for (i = 0; i < {m}; i++) {{ r = r * 31 + q[i]; }}")
        else: L.append(f"r = r * 31 + {nm};")
    def decl():
        n[0] += 1; nm = f"v{n[0]}"; k = r.random()
        if k < .4: t = r.choice(list(SZ)); v = (nm, "sc", t, 0); L.append(f"{t} {nm};")
        elif k < .6: t = r.choice(list(SZ)); m = r.choice([1, 2, 3, 5, 7, 13]); v = (nm, "arr", t, m); L.append(f"{t} {nm}[{m}];")
        elif k < .8:
            j = r.randrange(len(STRUCTS)); v = (nm, "st", f"struct Z{j}", STRUCTS[j][1]); L.append(f"struct Z{j} {nm};")
        elif k < .9:
            s = "abcdefghijklmnop"[:r.randint(0, 9)]; m = len(s) + r.choice([1, 1, 2, 5]); v = (nm, "arr", "char", m); L.append(f'char {nm}[{m}] = "{s}";'); live[-1].append(v); read(v); return
        else:
            t = r.choice(list(SZ)); m = r.choice([1, 2, 3, 6]); v = (nm, "arr", t, m); L.append(f"{t} {nm}[{m}] = {{{', '.join(str(r.randint(1, 90)) for _ in range(r.randint(1, m)))}}};"); live[-1].append(v); read(v); return
        live[-1].append(v); fill(v)
    def block(d):
        live.append([])
        for _ in range(r.randint(2, 5)):
            k = r.random()
            if k < .6: decl()
            elif d:
                L.append(r.choice(["{", "{", "if (r) {", "for (int k = 0; k < 2; k++) {"])); block(d - 1); L.append("}")
            elif any(live): fill(r.choice([v for b in live for v in b])) if [v for b in live for v in b] else None
        if r.random() < .7: L.append(r.choice(["r = r * 31 + kk(r & 15);", "kk(3);"]))
        for b in live:
            for v in b: read(v)
        live.pop()
    L.append("unsigned long r; int i; char *q; r = 1;")
    live.append([(p, "sc", t, 0) for p, t in ps]); block(3)
    for v in live[0]: read(v)
    L.append("return r;")
    return (name, "unsigned long", [t for _, t in ps], f"unsigned long {name}({', '.join(f'{t} {p}' for p, t in ps) or 'void'}) {{\n  " + "\n  ".join(L) + "\n}", None)
STRUCTS = [("char a;", 1), ("char a[3];", 3), ("int a; char b;", 8), ("long a; char b; int c;", 16), ("char a[5];", 5), ("char a; long b; char c;", 24), ("int a[7];", 28)]
def stacks(ctx, n, seed):
    r = random.Random(seed * 31 + 5)
    decls = "".join(f"struct Z{i} {{ {t} }};\n" for i, (t, _) in enumerate(STRUCTS)) + "long kk(long x) { long b[40]; int i; for (i = 0; i < 40; i++) { b[i] = x - i; } return b[x & 31]; }\n"
    fns = [stack_func(r, f"f{i}") for i in range(n)]
    # callees use the stack below the caller's frame: an area outside the frame is overwritten by them
    for i in range(n // 4):
        k = r.randint(1, 40)
        fns.append((f"h{i}", "long", ["int"], f"long k{i}(long x) {{ long b[40]; int i; for (i = 0; i < 40; i++) {{ b[i] = x + i; }} return b[x & 31]; }}\nlong h{i}(int x) {{ char a[{k}]; long c; char d; int i; long r; r = 0; for (i = 0; i < {k}; i++) {{ a[i] = i + x; }} c = 77; d = 9; r = k{i}(x); for (i = 0; i < {k}; i++) {{ r = r * 31 + a[i]; }} return r * 31 + c + d; }}", None))
    return e2e.funcs(ctx, decls, fns, seed, per=4, chunk=12)

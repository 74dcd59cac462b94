"""Random control-flow programs (every statement kind nested at random), compared with gcc (bounded search and stand-in of C16)."""
import random
import e2e, runner
class Gen:
    def __init__(s, r): s.r = r; s.k = 0; s.v = 0
    def tick(s): s.k += 1; return f"r = r * 31 + {s.k};"
    def cond(s):
        r = s.r; v = lambda: r.choice(["a", "b", "c", "d", "e", "n"])
        k = r.random()
        if k < .15: return v()
        if k < .5: return f"{v()} {r.choice(['<', '>', '<=', '>=', '==', '!='])} {r.choice([v(), str(r.choice([0, 1, 2, 3, 5, 100, 300])), v()])}"
        if k < .56: return f"{r.randint(0, 3)} {r.choice(['<', '>', '<=', '>=', '==', '!='])} {v()}"
        if k < .64: return f"!{v()}"
        if k < .74: return f"{v()} {r.choice(['&&', '||'])} {v()} < {r.randint(0, 5)}"
        if k < .8: return f"(r = r * 31 + {r.randint(1, 9)}) & {r.randint(1, 7)}"
        if k < .86: return f"{v()} ? {v()} : {v()}"
        if k < .9: return f"!({v()} == {v()})"
        if k < .93: return str(r.choice([0, 1, 300]))
        return f"{v()} & {r.choice([1, 2, 4])}"
    def stmt(s, d, loop, sw):
        r = s.r; k = r.random()
        if d <= 0 or k < .2: return s.tick() if r.random() < .8 else r.choice([";", "n = n + 1;", "a = a - 1;", "b = b + 1;"])
        if k < .36:
            b = s.sub(d, loop, sw); e = r.random()
            if e < .55: return f"if ({s.cond()}) {b}" if "if (" not in b or b.startswith("{") else f"if ({s.cond()}) {{ {b} }}"
            b = b if b.startswith("{") else "{ " + b + " }"
            return f"if ({s.cond()}) {b} else {s.sub(d, loop, sw)}"
        if k < .5:
            return f"while (n++ < {s.lim()} && q-- > 0 && ({s.cond()})) {s.blk(d, True, False)}" if r.random() < .5 else f"while (({s.cond()}) && q-- > 0) {s.blk(d, True, False)}" if r.random() < .5 else f"while (q-- > 0) {s.blk(d, True, False)}"
        if k < .66:
            s.v += 1; v = f"i{s.v}"; m = r.random()
            init, v = (f"int {v} = 0", v)
            if m < .6: return f"for ({init}; {v} < {r.randint(0, 4)}; {v}++) {s.blk(d, True, False, v)}"
            if m < .7: return f"for ({init}; {v} < {r.randint(1, 4)} && q-- > 0; {v}++, r = r * 3)".replace(", r = r * 3", "") + " " + s.blk(d, True, False, v)
            if m < .8: return f"for (;;) {{ if (q-- <= 0) break; {s.inner(d, True, False)} }}"
            if m < .9: return f"for (n = {r.randint(0, 2)}; n < {r.randint(1, 5)} && q-- > 0;) {{ n = n + 1; {s.inner(d, True, False)} }}"
            return f"for (; q-- > 0; r = r * 31 + {r.randint(1, 9)}) {s.blk(d, True, False)}"
        if k < .8: return s.switch(d, loop)
        if k < .9:
            o = (["break;"] * 2 if loop or sw else []) + (["continue;"] * 2 if loop else []) + ["return r;"]
            o = r.choice(o); return f"if ({s.cond()}) {o}" if r.random() < .85 else f"if ({s.cond()}) {{ {s.tick()} {o} }} else {s.tick()}"
        return s.blk(d, loop, sw)
    def lim(s): return s.r.randint(1, 9)
    def switch(s, d, loop):
        r = s.r; v = r.choice(["a", "b", "c", "d", "e", "a & 3", "n", "(a & 7) - 3", "c & 3"]); pool = [0, 1, 2, 3, 5, 100, 127] if v == "e" else [0, 1, 2, 3, 4, 5, 100, 300, 65536, 255, 256, "'a'", "0x7fffffff"]
        cs = [f"case {c}:" for c in r.sample(pool, r.randint(0, 5))]
        if r.random() < .6: cs.insert(r.randint(0, len(cs)), "default:")
        out = []
        if r.random() < .1: out.append(s.tick())
        for c in cs:
            if r.random() < .15: out.append(c + f" {s.tick()}")
            elif r.random() < .12 and c is not cs[-1]: out.append(c)
            else: out.append(c + " " + s.tick() + " " + (s.stmt(d - 1, loop, True)) + (" break;" if r.random() < .55 else " continue;" if loop and r.random() < .2 else ""))
        t = " ".join(out)
        if t.rstrip().endswith(":"): t += " ;"
        return f"switch ({v}) {{ {t} }}"
    def sub(s, d, loop, sw): return s.blk(d, loop, sw) if s.r.random() < .7 else s.stmt(d - 1, loop, sw)
    def blk(s, d, loop, sw, v=None): return "{ " + (f"r = r * 31 + {v}; " if v and s.r.random() < .7 else "") + s.inner(d, loop, sw) + " }"
    def inner(s, d, loop, sw): return " ".join(s.stmt(d - 1, loop, sw) for _ in range(s.r.randint(0, 3))) + " " + s.tick()
def func(r, name):
    g = Gen(r); body = " ".join(g.stmt(5, False, False) + " " + g.tick() for _ in range(r.randint(1, 3)))
    return f"long {name}(int a, int b, long c, unsigned int d, char e) {{ long r = 1; int n = 0; int q = 12; {body} return r; }}"
def retfuncs():
    """returned values of every type, return from nested statements"""
    fs = []; T = ["char", "int", "unsigned int", "long", "unsigned long", "long long"]
    for i, rt in enumerate(T):
        for j, pt in enumerate(T):
            fs.append((f"w{i}_{j}", rt, [pt], f"{rt} w{i}_{j}({pt} x) {{ if (x > 5) return x; while (x < 3) {{ if (x == 1) return 7; x++; return x; }} switch (x) {{ case 4: return 44; default: return x; }} }}", None))
    return fs
def vals(r):
    p = lambda xs: str(r.choice(xs))
    return [p([0, 1, 2, 3, 5, 100, "(-1)", "(-3)", 300, 97, 255]), p([0, 1, 2, 4, 100, "(-1)", 65536, 256]), f"((long){p([0, 1, 2, 3, 5, '(-1)', '4294967296l', '4294967297l', 300])})", f"((unsigned){p([0, 1, 2, 5, '4294967295u', 100, 300])})", f"((char){p([0, 1, 2, 3, 5, 100, 127, '(-1)'])})"]
def programs(ctx, n, seed):
    r = random.Random(seed * 7919 + 3); fs = []
    for i in range(n): fs.append((f"f{i}", "long", ["int", "int", "long", "unsigned int", "char"], func(r, f"f{i}"), [vals(r) for _ in range(14)]))
    return e2e.funcs(ctx, "", fs, seed, chunk=25, reject_ok=False) or e2e.funcs(ctx, "", retfuncs(), seed, per=10, chunk=12)
REJECT = ["int f(void) { break; }", "int f(void) { continue; }", "int f(int a) { case 1: a = 1; }", "int f(int a) { default: a = 1; }", "int f(int a) { switch (a) { case 1: case 1: ; } return 0; }", "int f(int a) { switch (a) { default: default: ; } return 0; }",
          "int f(int a) { switch (a) { continue; } return 0; }", "int f(int a) { if (a) break; return 0; }", "int f(int a) { while (a) { a = 0; } break; return 0; }", "int f(int a) { switch (a) { case 1: ; } case 2: ; return 0; }",
          "int f(int a) { switch (a) { case 1: ; } break; return 0; }", "int f(int a) { for (;;) { break; } continue; return 0; }", "struct S { int a; }; struct S s; int f(void) { if (s) return 1; return 0; }", "struct S { int a; }; struct S s; int f(void) { while (s) ; return 0; }",
          "int f(int* p) { switch (p) { case 0: ; } return 0; }", "int f(int a) { switch (a) { case a: ; } return 0; }", "void f(int a) { return a; }"]
ACCEPT = ["int f(int a) { while (a) { switch (a) { case 1: continue; default: break; } break; } return 0; }", "int f(int a) { switch (a) { case 1: while (a) { break; } break; } return 0; }", "int f(int a) { switch (a) { case 1: switch (a) { case 1: ; default: ; } default: ; } return 0; }",
          "int f(int a) { for (;;) if (a) break; else continue; return 0; }", "void f(int a) { if (a) return; a = 1; }", "int f(int* p) { if (p) return 1; while (p) ; for (; p;) ; return 0; }", "int f(int a) { switch (a) ; return 0; }", "int f(int a) { switch (a) case 1: return 5; return 0; }"]

"""Random expressions with visible evaluation order, object access and side effects, compared with gcc (bounded search and stand-in of C17)."""
import random, re
import e2e, runner
T = ["char", "int", "unsigned int", "long", "unsigned long", "long long", "unsigned long long"]
DECL = """struct In { char c; long q; };
struct S { char a; int b; struct In in; long c[3]; unsigned int d; int* p; char e; };
long tr;
int gi; char gc; long gl; unsigned int gu; unsigned long gw;
int ga[6]; char gca[7]; long gla[5]; struct S gs; struct S gsa[3]; int m2[3][4];
int t(int k, int v) { tr = tr * 31 + k; return v; }
long tl(int k, long v) { tr = tr * 31 + k; return v; }
int* tp(int k) { tr = tr * 31 + k; return ga + k; }
void tv(int k) { tr = tr * 37 + k; }
int inc(int x) { return x + 1; }
int twice(int x) { return x * 2; }
long eight(char a, int b, long c, unsigned int d, unsigned long e, char f, int g, long h) { return a + b * 3l + c * 5 + d * 7l + (long) e * 11 + f * 13 + g * 17l + h * 19; }
void init(int a, int b, long c) { int i; tr = 1; gi = a; gc = b; gl = c; gu = a + b; gw = c * 3;
  for (i = 0; i < 6; i++) { ga[i] = a * i + b; } for (i = 0; i < 7; i++) { gca[i] = b + i; } for (i = 0; i < 5; i++) { gla[i] = c + i * a; }
  gs.a = b; gs.b = a; gs.in.c = 3; gs.in.q = c; gs.c[0] = 1; gs.c[1] = c; gs.c[2] = a; gs.d = b; gs.p = ga; gs.e = 9;
  for (i = 0; i < 3; i++) { gsa[i].a = i; gsa[i].b = a + i; gsa[i].in.c = i * 2; gsa[i].in.q = c - i; gsa[i].c[0] = i; gsa[i].c[1] = b; gsa[i].c[2] = c; gsa[i].d = i * 5; gsa[i].p = ga + i; gsa[i].e = b - i; }
  for (i = 0; i < 12; i++) { m2[i / 4][i % 4] = a + i * b; } }
long sum(void) { long r = tr; int i; r = r * 31 + gi; r = r * 31 + gc; r = r * 31 + gl; r = r * 31 + gu; r = r * 31 + gw;
  for (i = 0; i < 6; i++) { r = r * 31 + ga[i]; } for (i = 0; i < 7; i++) { r = r * 31 + gca[i]; } for (i = 0; i < 5; i++) { r = r * 31 + gla[i]; }
  r = r * 31 + gs.a; r = r * 31 + gs.b; r = r * 31 + gs.in.c; r = r * 31 + gs.in.q; for (i = 0; i < 3; i++) { r = r * 31 + gs.c[i]; } r = r * 31 + gs.d; r = r * 31 + (gs.p - ga); r = r * 31 + gs.e;
  for (i = 0; i < 3; i++) { r = r * 31 + gsa[i].a; r = r * 31 + gsa[i].b; r = r * 31 + gsa[i].in.c; r = r * 31 + gsa[i].in.q; r = r * 31 + gsa[i].c[2]; r = r * 31 + gsa[i].d; r = r * 31 + gsa[i].e; }
  for (i = 0; i < 12; i++) { r = r * 31 + m2[i / 4][i % 4]; } return r; }
"""
class Gen:
    def __init__(s, r): s.r = r; s.k = 0
    def kk(s): s.k += 1; return s.k % 97
    def c(s, *x): return s.r.choice(x)
    def idx(s, n): return s.c(str(s.r.randrange(n)), str(s.r.randrange(n)), f"(a & {1 if n < 4 else 3})", f"(b & {1 if n < 4 else 3})" , f"(int) (c & 1)", f"(d & 1)", f"(w & 1)")
    def lv(s, side=False):
        """an object; its address has no side effects"""
        i = s.idx
        return s.c("gi", "gc", "gl", "gu", "gw", f"ga[{i(6)}]", f"gca[{i(7)}]", f"gla[{i(5)}]", "gs.a", "gs.b", "gs.in.c", "gs.in.q", f"gs.c[{i(3)}]", "gs.d", "gs.e", f"gsa[{i(3)}].b", f"gsa[{i(3)}].in.q", f"gsa[{i(3)}].c[{i(3)}]", "ps->b", "ps->in.c", "(*ps).d",
                   f"ps->c[{i(3)}]", f"*(ga + {i(6)})", f"*(ps->p + {i(3)})", "gs.p[1]", f"m2[{i(3)}][{i(4)}]", f"*(m2[1] + {i(4)})", "x", "y", "z", "*px", "*pz", "la[1]", f"la[{i(4)}]", "ls.b", "ls.in.q", f"ls.c[{i(3)}]", f"(gsa + {i(3)})->e", f"({i(3)})[gsa].d" if False else "gsa->d", "*&x", "(&gs)->b" if False else "gs.b")
    def leaf(s):
        r = s.r; k = r.random()
        if k < .3: return s.c("a", "b", "c", "d", "w", "h")
        if k < .45: return s.c("0", "1", "2", "7", "100", "300", "65536", "3l", "5u", "9ul", "2147483647", "4294967296l", "'a'")
        return s.lv()
    def e(s, n, fx):
        """fx: whether side effects may happen in this operand (no unsequenced sibling has any)"""
        r = s.r
        if n <= 0: return s.leaf()
        k = r.random(); f1, f2 = (fx, False) if r.random() < .5 else (False, fx)
        if k < .22: return f"({s.e(n - 1, f1)} {s.c('+', '-', '*', '&', '|', '^')} {s.e(n - 2, f2)})"
        if k < .28: return f"({s.e(n - 1, f1)} {s.c('/', '%')} (({s.e(n - 2, f2)} & 7) + {r.randint(1, 9)}))"
        if k < .32: return f"({s.e(n - 1, fx)} {s.c('<<', '>>')} {r.randint(0, 31)})"
        if k < .40: return f"({s.e(n - 1, f1)} {s.c('<', '>', '<=', '>=', '==', '!=')} {s.e(n - 2, f2)})"
        if k < .50: return f"({s.e(n - 1, fx)} {s.c('&&', '||')} {s.e(n - 1, fx)})"
        if k < .57: return f"({s.e(n - 2, fx)} ? {s.e(n - 1, fx)} : {s.e(n - 1, fx)})"
        if k < .63: return f"({s.c('-', '~', '!', '+')} {s.e(n - 1, fx)})"
        if k < .68: return f"(({s.c(*T)}) {s.e(n - 1, fx)})"
        if k < .72: return f"eight({s.e(0, 0)}, {s.e(0, 0)}, {s.e(n - 2, fx)}, {s.e(0, 0)}, {s.e(0, 0)}, {s.e(0, 0)}, {s.e(0, 0)}, {s.e(0, 0)})"
        if k < .75: return f"{s.c('inc', 'twice', 'fp', '(*fp)')}((int) ({s.e(n - 1, fx)}))"
        if k < .78: return s.c("(int) (&ga[4] - &ga[1])", "(int) (pz - gla)", "((gsa + 2) - gsa == 2)", "(px == &x)", "(&ga[a & 3] < &ga[2])", "(ps - gsa)" if False else "(ps == gsa)", "(int) sizeof(gs)", "(int) sizeof(struct In)")
        if not fx: return s.leaf()
        if k < .84: return f"{s.c('t', 'tl')}({s.kk()}, {s.e(n - 2, False)})"
        if k < .87: return f"*tp({r.randrange(6)})"
        if k < .93:
            l = s.c(s.lv(), f"*tp({r.randrange(6)})") if r.random() < .8 else f"ga[t({s.kk()}, {r.randrange(6)})]"
            return s.c(f"({l})++", f"({l})--", f"++({l})", f"--({l})")
        return f"({s.lv()} = {s.e(n - 1, True)})"
    def stmt(s):
        r = s.r; k = r.random()
        if k < .4: return f"{s.lv()} = {s.e(3, True)};"
        if k < .55: return f"{s.lv()} {s.c('+=', '-=', '*=', '&=', '|=', '^=')} {s.e(2, False)};"
        if k < .62: return f"{s.lv()} {s.c('<<=', '>>=')} {r.randint(0, 7)};"
        if k < .7: l = s.lv(); return s.c(f"({l})++;", f"--({l});", f"++({l});", f"({l})--;")
        if k < .8:
            return s.c("px++; px--;", "pz = pz + 1; gl += *pz; pz = pz - 1;", "pz++; gl ^= *pz; --pz;", "ps = &gsa[1]; gi += ps->b; ps--; gi -= ps->b; ps++;", "px = &ga[3]; gi = *px++; gi += *px--; gi -= *--px; px = &x;", "pc = gca; gi += *pc++ + 3; gi ^= *++pc; gi += pc - gca;",
                       "gs.p = gs.p + 1; gi ^= *gs.p; gs.p--;", "(void) t(5, 6);", "tv(3);", "a ? tv(1) : tv(2);" if False else "if (a) tv(1); else tv(2);", "fp = fp == inc ? twice : inc;", "fp = a > b ? inc : twice;")
        return f"{s.e(3, True)};" if r.random() < .5 else f"if ({s.e(3, True)}) tv({s.kk()});"
def func(r, name):
    g = Gen(r); st = " ".join(g.stmt() for _ in range(r.randint(2, 6)))
    return (f"long {name}(int a, char b, long c, unsigned int d, unsigned long w, char h) {{ int x = a; char y = b; unsigned long z = w; int* px = &x; long* pz = gla; char* pc; struct S* ps = gsa; int (*fp)(int) = inc; int la[4] = {{1, 2, 3, a}}; struct S ls; int i; "
            f"init(a, b, c); ls.b = a; ls.in.q = c; ls.c[0] = 1; ls.c[1] = 2; ls.c[2] = c; {st} return sum() * 31 + x + y * 7 + z * 11 + ls.b + ls.in.q + ls.c[0] + ls.c[1] * 3 + ls.c[2] * 5 + la[0] + la[1] * 3 + la[2] * 5 + la[3] * 7 + (*px) + *pz; }}")
PS = ["int", "char", "long", "unsigned int", "unsigned long", "char"]
def longnames(t):
    """some members have long names that differ only at the end"""
    return re.sub(r"(\.|->)([de])\b", r"\1a_rather_long_member_\2", t).replace("unsigned int d; int* p; char e;", "unsigned int a_rather_long_member_d; int* p; char a_rather_long_member_e;")
def programs(ctx, n, seed, per=8):
    r = random.Random(seed * 65537 + 11); fs = []
    fs = [(f"f{i}", "long", PS, longnames(func(r, f"f{i}")), None) for i in range(n)]
    return e2e.funcs(ctx, longnames(DECL), fs, seed, per=per, chunk=max(10, n // 24))

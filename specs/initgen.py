"""Random initialised objects, compiled by umlcc and gcc and read back member by member (bounded)."""
import random, e2e
SC = ["char", "int", "unsigned int", "long", "unsigned long", "long long", "unsigned long long"]
class G:
    def __init__(s, r, k): s.r, s.k, s.n, s.decls = r, k, 0, []
    def type(s, depth):
        r = s.r.random()
        if depth == 0 or r < .3: return ("s", s.r.choice(SC + (["enum E"] if s.r.random() < .3 else [])))
        if r < .45: return ("t", s.r.randint(2, 9))
        if r < .7:
            e = s.type(depth - 1)
            return ("a", e, s.r.randint(1, 4))
        ms = [s.type(depth - 1) for _ in range(s.r.randint(1, 5))]; n = f"S{s.k}_{s.n}"; s.n += 1
        s.decls.append(f"struct {n} {{ " + " ".join(s.decl(m, f"m{i}") + ";" for i, m in enumerate(ms)) + " };"); return ("r", n, ms)
    def decl(s, t, x):
        dims = ""
        while t[0] == "a": dims += f"[{t[2]}]"; t = t[1]
        if t[0] == "t": return f"char {x}{dims}[{t[1]}]"
        return (t[1] if t[0] == "s" else f"struct {t[1]}") + f" {x}{dims}"
    def const(s):
        v = s.r.choice([0, 1, 2, 127, 128, 255, 256, 65535, 2147483647, s.r.randrange(1 << 31)])
        return s.r.choice([str(v), hex(v), f"{v}u", f"{v}L", f"{s.r.randrange(1 << 40)}", f"'{s.r.choice('abcxyz019')}'", f"(char) {v}", f"(unsigned int) {v}", f"(long) {v}"] + (["EB", "EC"] if s.local else []))
    def value(s):
        if not s.local or s.r.random() < .4: return s.const()
        return s.r.choice(["x", "x + 1", "x * 3", "y", "y - x", "-x", "-5", "~y", "x < y", "(x & 7) | 8"])
    def parts(s, t): return [t[1]] * t[2] if t[0] == "a" else t[2] if t[0] == "r" else [("s", "char")] * t[1]
    def flat(s, t): return [s.value()] if t[0] == "s" else [v for p in s.parts(t) for v in s.flat(p)]
    def init(s, t, top=True):
        if t[0] == "s": return s.value() if s.r.random() < .85 else "{ " + s.value() + " }"
        if t[0] == "t" and s.r.random() < .75:
            x = '"' + "".join(s.r.choice(["a", "Z", " ", "\\n", "\\0", "\\377", "\\x41", "%", "\\\\"]) for _ in range(s.r.randint(0, t[1]))) + '"'
            return x if top and s.r.random() < .5 else "{ " + x + " }"
        ps = s.parts(t); k = s.r.randint(1, len(ps)); out = []
        for i, p in enumerate(ps[:k]):
            if p[0] != "s" and s.r.random() < .3:
                f = s.flat(p)
                if i == k - 1 and s.r.random() < .5: f = f[:s.r.randint(1, len(f))]
                out += f
            else: out.append(s.init(p, False))
        return "{ " + ", ".join(out) + " }"
    def leaves(s, t, x):
        if t[0] == "s": return [f"(int) {x}"] if t[1] == "enum E" else [x]
        return [l for i, p in enumerate(s.parts(t)) for l in s.leaves(p, f"{x}.m{i}" if t[0] == "r" else f"{x}[{i}]")]
def texts(seed, count):
    r = random.Random(seed * 31 + 7); out = []
    for k in range(count):
        g = G(r, k); g.local = r.random() < .55; t = g.type(3)
        while len(g.leaves(t, "")) > 60: g.decls = []; t = g.type(3)
        v = f"v{k}"; d = f"{g.decl(t, v)}" + (f" = {g.init(t)}" if r.random() < .93 or g.local else "") + ";"
        ls = g.leaves(t, v); body = "".join(f" h = h * 31 + {l};" for l in ls)
        if g.local: f = f"long f{k}(int x, long y) {{ long h = 1; long a{k} = 7; {d} long b{k} = 9;{body} return h * 31 + a{k} + b{k} * 3; }}"; pre = ""
        else: f = f"long f{k}(int x, long y) {{ long h = 1;{body} return h * 31 + a{k} + b{k} * 3; }}"; pre = f"char a{k} = 7;\n{d}\nchar b{k} = 9;\n"
        out.append((f"f{k}", "long", ["int", "long"], "\n".join(g.decls) + "\n" + pre + f, None))
    return out
DECLS = "enum E { EA, EB, EC };\n"
def run(ctx, count, seed): return e2e.funcs(ctx, DECLS, texts(seed, count), seed, per=2, chunk=20)

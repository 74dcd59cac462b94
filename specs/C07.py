"""C07: operands are converted by C's integer promotions and usual arithmetic conversions; arrays and functions decay."""
import z3
import e2e, runner
import resolve_spec as R
META = dict(technique="contract-based deductive verification (CVV: VCs from the clang AST of /repo, z3/cvc5); conversion.c and every operator of resolver/expression.c, sub-expressions by contract",
            level_note="complete over all pairs of operand types (one representative per derived kind, its parts opaque) and all operand values")
TRUSTED = R.TRUSTED; ASSUMPTIONS = R.ASSUMPTIONS
def prove(ctx):
    R.tu()
    u = R.conv_units() + R.oper_units(R.ARITH_OPS)
    ctx.prove_all([(n, (lambda c, n=n, h=h: c.prove_harness(n, R.mk, h))) for n, h in u])
EN = "enum E { EA, EB = 5, EC };"; ES = "enum E { EA, EB = 5, EC, EN = -1 };" # the enumerated type is int here; gcc needs a negative member to agree
def pairs(ctx, per):
    T = [t for t in e2e.ITY] + ["enum E"]
    ops = ["+", "-", "*", "/", "%", "&", "|", "^", "<", ">", "<=", ">=", "==", "!="]
    fns = []
    e2e.BITS["enum E"] = 32
    for i, a in enumerate(T):
        for j, b in enumerate(T):
            for k, op in enumerate(ops):
                x, y = ("(x)", "(y)")
                if op in "/%": y = "(y == 0 ? 1 : y == -1 ? 3 : y)" if b != "char" else "((y & 63) + 1)"
                # the result is widened in two ways, so both its value and its type show
                fns.append((f"f{i}_{j}_{k}", "long", [a, b], f"long f{i}_{j}_{k}({a} x, {b} y) {{ long r; int c; r = {x} {op} {y}; c = ({x} {op} {y}) > -1; return c ? r : r ^ 5; }}", None))
            fns.append((f"g{i}_{j}", "long", [a, b, "int"], f"long g{i}_{j}({a} x, {b} y, int c) {{ long r; r = c ? x : y; return (c ? x : y) < -1 ? r + 7 : r; }}", None))
            fns.append((f"h{i}_{j}", a, [a, b], f"{a} h{i}_{j}({a} x, {b} y) {{ x += y; x -= 3; x |= y; return x; }}", None))
        for k, op in enumerate(["-", "~", "+", "!"]):
            fns.append((f"u{i}_{k}", "long", [a], f"long u{i}_{k}({a} x) {{ long r; r = {op}x; return (({op}x) < -1) ? r + 9 : r; }}", None))
        for k in (0, 1, 3, 7):
            for s in ("<<", ">>"): fns.append((f"s{i}_{k}_{'lr'[s == '>>']}", "long", [a], f"long s{i}_{k}_{'lr'[s == '>>']}({a} x) {{ long r; r = x {s} {k}; return ((x {s} {k}) < -1) ? r + 9 : r; }}", None))
    for e in e2e.ITY:
        fns.append((f"arr_{e.replace(' ', '_')}", "long", ["int"], f"{e} ga_{e.replace(' ', '_')}[5];\nlong arr_{e.replace(' ', '_')}(int i) {{ {e} a[4]; {e} *p; i = i & 3; a[0] = 3; a[1] = 5; a[2] = 250; a[3] = 9; p = a; *(p + 1) = 77; *(a + 2) = 4; return a[i] + *p + sizeof(a) + (a == p) + (p ? 1 : 2) + sizeof(ga_{e.replace(' ', '_')}); }}", None))
    fns.append(("fp", "long", ["int"], "int inc(int x) { return x + 1; }\nint dec(int x) { return x - 1; }\nlong fp(int x) { int (*p)(int); p = x > 3 ? inc : dec; return p(x) + (*p)(x) * 10 + inc(x) * 100; }", None))
    return e2e.funcs(ctx, EN, fns, runner.SEED, per=per, chunk=30, extra_driver=ES, ref_decls=ES)
def search(ctx, failed, struct): return pairs(ctx, 40)
def standin(ctx):
    m = pairs(ctx, 6 if runner.TIER == "quick" else 40)
    ctx.bounded.append({"what": "every operator on every pair of operand types compiled by umlcc and gcc and compared on sampled values", "label": "bounded"})
    return m

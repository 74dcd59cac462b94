"""C04: integer constants."""
import lex_spec as S
META = dict(technique="contract-based deductive verification (CVV: VCs from the clang AST of /repo, z3/cvc5); loop invariant: the value read so far is the number its digits spell, for digit strings of any length; the type list is checked bit-precisely for every value, base and suffix",
            level_note="every digit string whose number fits 64 bits, every base and suffix")
TRUSTED, ASSUMPTIONS = S.TRUSTED, S.ASSUMPTIONS + ["the number spelled fits 64 bits"]
def h_int(ex):
    import resolve_spec as R, absx; from objs import rec, isn; import z3; from engine import FnVal, NULL
    E = ex.tu.enums; ty = S.ORDER[ex.choose(6)]; ex.ghost["case"] = ty; v, u = z3.BitVec("v", 64), z3.BitVec("u", 64)
    ast = rec(ex, "Ast", type=E["AST_INT_EXPR"], ident_name=NULL, sliteral=NULL, children=absx.new_vec(ex, []), iliteral=rec(ex, "IntegerLiteral", type=E["INTEGER_" + ty], signed_value=v, unsigned_value=u))
    r = R.resolver(ex, ast); o = ex.obj(ex.call(FnVal("resolve_primary_expr"), [r], None).b, "result").fields; ok = isn(o["errs"]) and not isn(o["srt"])
    ex.oblige("an integer constant is accepted", ok, "post")
    if not ok: return
    t = ex.obj(o["srt"].b, "tree").fields; il = ex.obj(t["iliteral"].b, "constant").fields
    ex.oblige("the expression has the constant's type and value", z3.And(z3.BoolVal(t["type"] == E["SRT_ILITERAL_EXPR"] and ex.obj(t["dtype"].b, "type").fields["type"] == E["DTYPE_" + ty] and il["type"] == E["INTEGER_" + ty]), il["signed_value"] == v, il["unsigned_value"] == u), "post"); S.tell(ex, "constant")
def prove(ctx):
    import resolve_spec as R; R.tu()
    S.tu(); t = S.table_units()
    u = [("get_content_top", S.mk_top, S.h_top), ("read_integer_constant", S.mk, S.h_constant), ("read_integer_suffix", S.mk, S.h_suffix), ("create_iliteral", S.mk_create, S.h_create)]
    u += [(f"read_integer_constant_digits: {S.FIELD[f]}", S.mk, S.h_digits(f)) for f in ("digit_map", "octdigit_map", "hexdigit_map")] + [t[f] for f in ("octdigit_map", "digit_map", "hexdigit_map", "integer_suffix_map")] + S.literal_units() + [("resolve_integer_expr", R.mk, h_int)]
    ctx.prove_all([(n, (lambda c, n=n, m=m, h=h: c.prove_harness(n, m, h))) for n, m, h in u])
def program(r):
    f = []; g = []
    for i in range(40):
        import lexgen
        b = r.choice([8, 10, 16]); v = r.choice([r.randrange(256), r.randrange(1 << r.randrange(1, 65)), (1 << r.choice([31, 32, 63])) - r.randrange(3), (1 << 31) + r.randrange(3)]); sf = r.choice(["", ""] + sorted(S.SUF)); ls = S.clist(S.SUF[sf] if sf else "INT", b)
        if v >= 1 << 63 and not any("UNSIGNED" in x for x in ls): v >>= 1
        c = {8: "0%o", 10: "%d", 16: "0x%x"}[b] % v + sf
        if i % 2: g.append(f"unsigned long long c{i} = {c};"); f.append((f"k{i}", f"unsigned long long k{i}(void) {{ return c{i}; }}"))
        else: f.append((f"k{i}", f"unsigned long long k{i}(void) {{ unsigned long long v = {c}; long w = {c}; int s = sizeof({c}); int u = {c} - {c} - 1 > 0; return v * 3 + w + s * 1000 + u * 100000; }}"))
    return g, f
def native(ctx, n, seed):
    import e2e, random, runner, tempfile, shutil
    exe = e2e.build_umlcc(ctx)
    for k in range(n):
        g, f = program(random.Random(seed * 31 + k)); src = "\n".join(g + [x for _, x in f]) + "\n"; d = tempfile.mkdtemp(dir=ctx.scratch)
        try:
            m = e2e.compile_pair(d, exe, src)
            if m is None:
                drv = "#include <stdio.h>\n" + "".join(f"unsigned long long u_{x}(void), r_{x}(void);\n" for x, _ in f) + "int main(void) { int bad = 0;\n" + "".join(f'if (u_{x}() != r_{x}()) {{ printf("{x}: umlcc %llu gcc %llu\\n", u_{x}(), r_{x}()); bad = 1; }}\n' for x, _ in f) + 'if (!bad) printf("same\\n"); return bad; }\n'
                m = e2e.run_pair(d, drv)
        finally: shutil.rmtree(d, ignore_errors=True)
        if m and m[0] in ("gcc", "link"): ctx.notes.append("program set aside: " + m[1][-200:]); continue
        if m: return f"{m[1]}\n\nprogram:\n{src}"
_s, _t = S.native_checks("C04", 4000, 80000)
def search(ctx, failed, struct):
    import runner
    return native(ctx, 4, runner.SEED) or _s(ctx, failed, struct)
def standin(ctx):
    import runner
    n = 3 if runner.TIER == "quick" else 40; m = native(ctx, n, runner.SEED + 7); ctx.bounded.append({"what": "programs with constants of every base, suffix and size compiled by umlcc and gcc and compared", "cases": n, "label": "bounded"})
    return m or _t(ctx)

"""C18: operators group by C precedence and associativity."""
import runner, parse_spec as S
META = dict(technique="contract-based deductive verification (CVV: VCs from the clang AST of /repo, z3/cvc5); each parse function is run on a token list of any length and content with the other nonterminals by contract, and its outcome is compared with the grammar rule",
            level_note="every token list; binary and postfix operators for any number of operators (loop invariant); chains of assignments and casts, lists and blocks up to a few elements stand for more")
TRUSTED = S.TRUSTED
ASSUMPTIONS = S.ASSUMPTIONS + ["an identifier declared as an object does not hide a type name (known finding)"]
def prove(ctx):
    S.tu()
    ctx.prove_all([(n, (lambda c, n=n, h=h: c.prove_harness(n, S.mk, h))) for n, h in S.rules() + S.rules2()])
def search(ctx, failed, struct):
    import parsegen
    for k in range(3):
        m = parsegen.native(ctx, 4000, runner.SEED + k)[0]
        if m: return m
def standin(ctx):
    import parsegen
    m, a, n = parsegen.native(ctx, 1500 if runner.TIER == "quick" else 20000, runner.SEED)
    ctx.bounded.append({"what": "random token lists (programs and programs with one or two wrong tokens, all pairs of binary operators) parsed by the real parser and by the reference grammar", "cases": n, "accepted": a, "label": "bounded"})
    return m

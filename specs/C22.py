"""C22: initialisers give every element and member its value."""
import runner, init_spec as S
META = dict(technique="contract-based deductive verification (CVV: VCs from the clang AST of /repo, z3/cvc5); resolver and code generator of initialisers against the layout of the type, loop invariants over element and member lists of any length",
            level_note="every scalar type, arrays and structs of any length with parts by contract, every constant of every type under up to two casts")
TRUSTED = S.TRUSTED
ASSUMPTIONS = ["parts of an initialiser are translated by contract (induction over the depth of the type)", "member offsets and sizes as proved in C06; store and string store instructions as proved in C14 and C05", "string text and zero padding as proved in C05"]
def prove(ctx):
    S.M.tu(); S.rtu()
    ctx.prove_all([(n, (lambda c, n=n, m=m, h=h: c.prove_harness(n, m, h))) for n, m, h in S.gen_units() + S.resolver_units()])
import initgen
def search(ctx, failed, struct): return initgen.run(ctx, 600, runner.SEED)
def standin(ctx):
    n = 160 if runner.TIER == "quick" else 3000
    m = initgen.run(ctx, n, runner.SEED)
    ctx.bounded.append({"what": "random initialised globals and locals compiled by umlcc and gcc and read back member by member", "cases": n, "label": "bounded"})
    return m

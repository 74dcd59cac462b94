"""C08: a name refers to its innermost declaration; scopes nest and undo cleanly."""
import runner, scopegen
import scope_spec as S
META = dict(technique="contract-based deductive verification (CVV: VCs from the clang AST of /repo, z3/cvc5); the symbol and tag tables against a chain of finite maps of any content and depth (loop invariant for lookup), and every function that opens a scope against 'parts see a fresh inner scope, afterwards the old one is back unchanged'",
            level_note="tables of any content; lookup through any number of scopes; blocks up to 3 parts and functions up to 2 parameters stand for longer ones (the code treats the parts in a uniform loop)")
TRUSTED = ["clang 18 front end (AST of /repo) and the CVV symbolic executor", "z3 / cvc5", "list, map and set contracts of C01/C02 at calls of vector_*, map_*, set_*"]
ASSUMPTIONS = ["parts of a statement (declarations, sub-statements, expressions) leave the current scope open and the outer scopes alone (induction over the tree)",
               "typedef names are recognised by spelling during parsing and are outside this property",
               "an object whose struct tag is declared again in an inner scope is a known finding (known_findings.txt)"]
def prove(ctx):
    S.tu()
    ctx.prove_all([(n, (lambda c, n=n, h=h: c.prove_harness(n, S.mk, h))) for n, h in S.table_units() + S.user_units()])
def native(ctx, n):
    return scopegen.accept_reject(ctx) or scopegen.programs(ctx, n, runner.SEED)
def search(ctx, failed, struct): return native(ctx, 120)
def standin(ctx):
    n = 24 if runner.TIER == "quick" else 400
    m = native(ctx, n)
    ctx.bounded.append({"what": "random programs with nested scopes reusing names of variables, parameters, constants, loop variables and tags, compiled by umlcc and gcc and compared; fixed lists of programs to accept and to reject", "cases": 6 * n + len(scopegen.REJECT) + len(scopegen.ACCEPT), "label": "bounded"})
    return m

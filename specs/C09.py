"""C09: stack objects that exist together never overlap and stay inside the frame."""
import runner, scopegen, C06
import scope_spec as S
import x64spec as X
META = dict(technique="contract-based deductive verification (CVV: VCs from the clang AST of /repo, z3/cvc5); area arithmetic of the symbol table, scope entry and exit, parameters and frame size of a function, and the machine code of function entry and exit",
            level_note="any sizes and frame contents; the invariant 'every area handed out so far lies in [0, recorded size)' is carried by define, enter, exit and by every function that opens a scope; functions up to 2 parameters and blocks up to 3 parts stand for longer ones (uniform loops)")
TRUSTED = ["clang 18 front end (AST of /repo) and the CVV symbolic executor", "z3 / cvc5", "list, map and set contracts of C01/C02 at calls of vector_*, map_*, set_*", "x86-64 instruction semantics in cvv/x86.py (push, sub, mov)"]
ASSUMPTIONS = ["frames smaller than 2^28 bytes", "parts of a statement only grow the recorded size (induction over the tree)"]
def prove(ctx):
    S.tu(); X.tu(); C06.tu()
    names = ("symboltable_define_memory", "symboltable_define_label", "symboltable_define_integer", "symboltable_enter_scope", "symboltable_exit_scope", "new_symboltable")
    u = [(n, S.mk, h) for n, h in S.table_units() if n in names]
    u += [(n, S.mk, h) for n, h in S.user_units() if n.startswith(("immcgen", "gen_"))]
    u += [("min_multiple_of", C06.mk, C06.h_round), ("ENTER", X.mk, X.h_enter), ("LEAVE", X.mk, X.h_leave), ("function with an empty body", X.mk, X.h_function(0))]
    ctx.prove_all([(n, (lambda c, n=n, m=m, h=h: c.prove_harness(n, m, h))) for n, m, h in u])
def search(ctx, failed, struct): return scopegen.stacks(ctx, 240, runner.SEED)
def standin(ctx):
    n = 48 if runner.TIER == "quick" else 1000
    m = scopegen.stacks(ctx, n, runner.SEED)
    ctx.bounded.append({"what": "random functions with variables, arrays, structs and parameters of many sizes in nested scopes, every byte written and read back, compared with gcc", "cases": n, "label": "bounded"})
    return m

"""C13: comparisons and conditional jumps decide as C relations do."""
import x64spec as X, x64common as C
META = dict(technique="contract-based deductive verification (CVV: VCs from the clang AST of /repo; machine semantics of the emitted code; z3/cvc5)",
            level_note="all six relations, register and literal right operands, all widths and signedness, any machine state")
TRUSTED = C.TRUSTED; ASSUMPTIONS = C.ASSUMPTIONS + ["both operands of a comparison have one type (usual conversions, C07)"]
R = ("EQ", "NEQ", "LT", "GT", "LEQ", "GEQ")
SHAPES = [(p + r, k, w, w) for p in ("SET", "J") for r in R for k in ("REG", "INT") for w in C.W4]
def units():
    u = [("tables", X.h_tables, X.mk), ("JMP", X.h_jmp, X.mk)]
    for fn in ("create_alive_regs_set", "create_alive_reg_induces_set"): u.append((fn, X.h_alive(fn), lambda: X.mk(alive_contract=False)))
    for s in SHAPES: u.append((" ".join(s), (X.h_set(s[0][3:], *s[1:]) if s[0].startswith("SET") else X.h_jump(s[0][1:], *s[1:])), X.mk))
    return u
def prove(ctx): C.prove(ctx, units())
def search(ctx, failed, struct): return C.search(ctx, SHAPES + [("JMP",)], failed, struct, per=40)
def standin(ctx): return C.search(ctx, SHAPES + [("JMP",)], [], [], always=8)

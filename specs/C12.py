"""C12: arithmetic, bitwise and shift instructions compute the C result."""
import x64spec as X, x64common as C
META = dict(technique="contract-based deductive verification (CVV: VCs from the clang AST of /repo; machine semantics of the emitted code; z3/cvc5)",
            level_note="every harness runs the real gen_inst_x64code on an arbitrary instruction of its shape (all register assignments, liveness sets, literal values) and proves the emitted code's effect from any machine state")
TRUSTED = C.TRUSTED; ASSUMPTIONS = C.ASSUMPTIONS + ["shift counts are literals (a register count is rejected by the compiler, a documented limitation); shift count below the width; divisor non-zero and no overflow in signed division (undefined in C)"]
BIN = ("ADD", "SUB", "MUL", "DIV", "MOD", "AND", "OR", "XOR")
SHAPES = [(i, k, w, w, w) for i in BIN for k in ("REG", "INT") for w in ("LONG", "QUAD")]
SHAPES += [(i, "INT", w, w, w) for i in ("ADD", "SUB") for w in ("BYTE", "WORD")]
SHAPES += [(i, "REG", "QUAD", "LONG", "QUAD") for i in ("ADD", "SUB")]
SH = [(i, w, v) for i in ("SAL", "SAR") for w in ("LONG", "QUAD") for v in ("LONG", "QUAD")]
UN = [(i, k, w) for i in ("NEG", "NOT") for k in ("REG", "INT") for w in ("LONG", "QUAD")]
def units():
    u = [("tables", X.h_tables, X.mk)]
    for fn in ("create_alive_regs_set", "create_alive_reg_induces_set"): u.append((fn, X.h_alive(fn), lambda: X.mk(alive_contract=False)))
    for s in SHAPES: u.append((" ".join(s), X.h_binary(*s), X.mk))
    for s in SH: u.append((" ".join(s), X.h_shift(*s), X.mk))
    for s in UN: u.append((" ".join(s), X.h_unary(*s), X.mk))
    return u
def prove(ctx): C.prove(ctx, units())
def search(ctx, failed, struct): return C.search(ctx, SHAPES + SH + UN, failed, struct)
def standin(ctx): return C.search(ctx, SHAPES + SH + UN, [], [], always=12)

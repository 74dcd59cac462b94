"""C15: calls follow the System V convention and preserve live values."""
import x64spec as X, x64common as C, runner
META = dict(technique="contract-based deductive verification (CVV: VCs from the clang AST of /repo; machine semantics of the emitted code; z3/cvc5)",
            level_note="PREP, STARG, CALL, CLEAN, prologue and epilogue under contract; alignment and balance follow from the contracts by arithmetic; gen_function's body loop unrolled (each body instruction under the contract of gen_inst_x64code)")
TRUSTED = C.TRUSTED; ASSUMPTIONS = C.ASSUMPTIONS + ["at most five values are live across a call (six or more: known finding)"]
CALL = [("CALL", k, w) for k in ("PTR", "LABEL") for w in (None, "BYTE", "WORD", "LONG", "QUAD")]
STARG = [("STARG", k, w) for k in ("REG", "INT") for w in C.W4]
LDARG = [("LDARG", w) for w in C.W4]
SHAPES = [("PREP",), ("CLEAN",)] + STARG + LDARG + CALL
def units():
    th = runner.TIER == "thorough"
    u = [("tables", X.h_tables, X.mk)]
    for fk in ("PTR", "LABEL"):
        for w in (None, "BYTE", "WORD", "LONG", "QUAD"):
            for nl in range(6, -1, -1):
                if w is None and nl == 6: continue
                # quick: every number of live values with each kind of target; the result width varies with few live values
                if not th and ((fk == "PTR" and w is not None and (w != "LONG" or nl > 2)) or (fk == "LABEL" and w in ("BYTE", "WORD", "QUAD") and nl != 1)): continue
                u.append((f"CALL {fk} {w} with {nl} live values", X.h_call(fk, w, nl), X.mk))
    for nb in ((0, 1, 2) if th else (0, 1)): u.append((f"function with {nb} body instructions", X.h_function(nb), X.mk))
    u += [("PREP", X.h_prep, X.mk), ("CLEAN", X.h_clean, X.mk), ("ENTER", X.h_enter, X.mk), ("LEAVE", X.h_leave, X.mk)]
    for fn in ("create_alive_regs_set", "create_alive_reg_induces_set"): u.append((fn, X.h_alive(fn), lambda: X.mk(alive_contract=False)))
    for s in STARG: u.append((" ".join(s), X.h_starg(*s[1:]), X.mk))
    for s in LDARG: u.append((" ".join(s), X.h_ldarg(*s[1:]), X.mk))
    return u
def prove(ctx): C.prove(ctx, units())
def search(ctx, failed, struct): return C.search(ctx, SHAPES, failed, struct, per=150)
def standin(ctx): return C.search(ctx, SHAPES, [], [], always=25)

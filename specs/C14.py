"""C14: loads, stores, address-of, parameters, arguments, returned values and width conversions."""
import x64spec as X, x64common as C
META = dict(technique="contract-based deductive verification (CVV: VCs from the clang AST of /repo; machine semantics of the emitted code; z3/cvc5)",
            level_note="every source and destination kind and width pair the generator accepts, any offset, register, liveness and machine state")
TRUSTED = C.TRUSTED; ASSUMPTIONS = C.ASSUMPTIONS + ["parameters are read at function entry, before any expression register is live"]
W4 = C.W4
LOAD = [("LOAD", "REG", a, b) for a in W4 for b in W4] + [("LOAD", "INT", a, b) for a in W4 for b in W4] + [("LOAD", k, "LONG", b) for k in ("MEM", "PTR", "LABEL") for b in W4]
STORE = [("STORE", d, s, w) for d in ("MEM", "PTR", "LABEL") for s in ("REG", "INT") for w in W4]
ADDR = [("ADDR", "MEM"), ("ADDR", "LABEL")]
STRET = [("STRET", k, w) for k in ("REG", "INT") for w in W4]
LDARG = [("LDARG", w) for w in W4]
STARG = [("STARG", k, w) for k in ("REG", "INT") for w in W4]
SHAPES = LOAD + STORE + ADDR + STRET + LDARG + STARG
def units():
    u = [("tables", X.h_tables, X.mk)]
    for fn in ("create_alive_regs_set", "create_alive_reg_induces_set"): u.append((fn, X.h_alive(fn), lambda: X.mk(alive_contract=False)))
    for l, h in ((LOAD, X.h_load), (STORE, X.h_store), (ADDR, X.h_addr), (STRET, X.h_stret), (LDARG, X.h_ldarg), (STARG, X.h_starg)):
        for s in l: u.append((" ".join(s), h(*s[1:]), X.mk))
    return u
def prove(ctx): C.prove(ctx, units())
def search(ctx, failed, struct): return C.search(ctx, SHAPES, failed, struct, per=60)
def standin(ctx): return C.search(ctx, SHAPES, [], [], always=10)

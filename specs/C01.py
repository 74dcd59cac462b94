"""C01 the growable list is a faithful sequence"""
import vector_spec as S
from engine import Engine
from cast import TU
import runner, os

TRUSTED = ["CVV generator (/verif/cvv), clang 18 front end, z3/cvc5", "malloc/realloc/free: C standard semantics, allocation never fails",
           "element callbacks copy_object/delete_object: copy returns an object of equal content, delete only releases its argument"]
ASSUMPTIONS = ["lists of fewer than 2^28 elements (beyond that 2*capacity*sizeof(void*) leaves int)",
               "vector_pop is called on a non-empty list", "vector_extend gets two different lists", "delete_vector: elements are pairwise distinct objects"]

def prove(ctx):
    tu = TU(S.FILES)
    cs = S.contracts()
    def mk():
        e = Engine(tu); e.iface = S.IFACE; e.contracts = {c.name: c for c in S.contracts()}
        return e
    for c in cs: ctx.prove_contract(mk, c)

def search(ctx, failed, struct):
    drv = os.path.join(runner.ROOT, "native", "vector_drv.c")
    exe = ctx.cc("vector_drv", [drv, os.path.join(runner.REPO, "src/vector/vector.c")])
    n = 20000 if runner.TIER == "quick" else 200000
    rc, out, err = ctx.run([exe, str(runner.SEED), str(n)], tmo=120)
    ctx.bounded.append({"what": "native list driver against a reference sequence", "bound": f"{n} random operation histories of up to 120 operations, lists up to 40 elements", "result": str(rc)})
    if rc != 0:
        return f"failing operation history on the real src/vector/vector.c (driver /verif/native/vector_drv.c, seed {runner.SEED}):\n{out[-3000:]}\n{err[-3000:]}"
    return None

META = dict(technique="contract-based deductive verification (WP-style VCs from the real C source, z3/cvc5)",
            level_note="Every list operation is proved against its sequence contract for all lists and arguments (unbounded); trusts the VC generator, clang's AST, malloc/realloc semantics, and the stated interface contracts of the element callbacks.")

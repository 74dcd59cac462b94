"""Contracts on the symbolic heap: verification of a function against its contract, use of a contract at a call."""
import z3
from engine import *
from engine import _Return, _hasq

I = z3.IntSort()
def forall(body, pats=None, n=1, names="k"):
    vs = [z3.Int(f"{names}{j}!b") for j in range(n)]
    f = body(*vs)
    kw = {}
    if pats: kw["patterns"] = [z3.MultiPattern(*p) if isinstance(p, (list, tuple)) else p for p in pats(*vs)]
    return z3.ForAll(vs, f, **kw)

class K:
    """What a contract clause can talk about: arguments, pre-heap h0, post-heap h, result."""
    def __init__(s, ex, names, args, h0, h):
        s.ex, s.h0, s.h = ex, h0, h
        s.args = args
        s.v = {}
        for n, a in zip(names, args):
            s.v[n] = a
        s.ret = None
    def __getattr__(s, n):
        v = s.__dict__["v"].get(n)
        if v is None: raise AttributeError(n)
        if isinstance(v, P): return v.b if isz(v.b) else z3.IntVal(v.b)
        if isinstance(v, FnVal): return v
        if isinstance(v, GPtr): return z3.IntVal(s.ex.gbase(v))
        v = s.ex.toint(v)
        return v if isz(v) else z3.IntVal(v)
    @property
    def res(s):
        v = s.ret
        if isinstance(v, P): return v.b if isz(v.b) else z3.IntVal(v.b)
        v = s.ex.toint(v)
        return v if isz(v) else z3.IntVal(v)

class Contract:
    def __init__(s, name, params, requires, ensures, modifies=None, allocs=False, rettype=None, loops=None, notes="", hints=None, ghost_args=None):
        s.name, s.params, s.requires, s.ensures = name, params, requires, ensures
        s.modifies = modifies or (lambda k: {})
        s.allocs, s.loops, s.notes = allocs, loops or [], notes
        s.hints = hints
    # ---- at a call
    def apply(s, ex, args):
        h = ex.heap
        h0 = h.clone()
        k = K(ex, s.params, args, h0, h)
        for nm, f in s.requires(k):
            ex.oblige(f"precondition of {s.name}: {nm}", f, "pre")
        mods = s.modifies(k)
        b = z3.Int("b!f")
        if s.allocs:
            nb = ex.fresh("brk"); ex.assume(nb >= h.brk); h.brk = nb
            if ex.loopstack: ex.wrote("brk")
        names = set(mods)
        if s.allocs: names |= {"alive", "nbytes"}
        for m in sorted(names):
            bases = mods.get(m, [])
            ex.wrote(m)
            old = h0.get(m)
            if m.startswith("GV."):
                h.set(m, ex.fresh(m.replace(".", "_"), h.sort(m))); continue
            if not s.allocs and bases != "all":
                new = old
                for x in bases:
                    new = z3.Store(new, x, ex.fresh("c", h.sort(m).range()))
                h.set(m, new)
            else:
                new = ex.fresh(m.replace(".", "_"), h.sort(m))
                h.set(m, new)
                if bases != "all":
                    ex.assume(z3.ForAll([b], z3.Implies(z3.And(b < h0.brk, *[b != x for x in bases]), z3.Select(new, b) == z3.Select(old, b)), patterns=[z3.Select(new, b)]))
            if m == "alive":
                ex.assume(z3.ForAll([b], z3.Implies(z3.Select(h.get("alive"), b), z3.And(b > 0, b < h.brk)), patterns=[z3.Select(h.get("alive"), b)]))
        k = K(ex, s.params, args, h0, h)
        fn = ex.tu.funcs.get(s.name)
        rq = fn.qt.split("(")[0].strip() if fn else "void"
        t = ex.tu.norm(rq)
        if t[0] == "ptr":
            r = ex.fresh("ret_" + s.name); ex.assume(z3.And(r >= 0, r < h.brk)); k.ret = P(r, 0)
        elif t[0] == "int":
            r = ex.fresh("ret_" + s.name); ex.assume(ex.inrange(r, t)); k.ret = r
        for nm, f in s.ensures(k):
            ex.assume(f)
        return k.ret

def initial(ex):
    h = ex.heap
    b = z3.Int("b!f")
    ex.assume(h.brk > 0)
    ex.assume(z3.ForAll([b], z3.Implies(z3.Select(h.get("alive"), b), z3.And(b > 0, b < h.brk)), patterns=[z3.Select(h.get("alive"), b)]))

def verify(eng, c):
    """Generate the obligations of function c.name against contract c."""
    name = c.name
    if name not in eng.tu.funcs: raise Structural(f"function {name} not found")
    fn = eng.tu.funcs[name]
    params = [x for x in fn.inner if x.kind == "ParmVarDecl"]
    if len(params) != len(c.params): raise Structural(f"{name}: parameter list changed")
    eng.inline_force = name
    saved = eng.contracts.pop(name, None)
    order = eng.loop_order(name)
    if saved is not None: eng.contracts[name] = saved
    if len(order) != len(c.loops):
        raise Structural(f"{name}: {len(order)} loops, invariants for {len(c.loops)}")
    eng.loopspecs = {i: sp for i, sp in enumerate(c.loops)}
    lm = {lid: i for i, lid in enumerate(order)}
    eng.loopinfo = {}
    def run(ex):
        ex.loop_map = lm
        initial(ex)
        h = ex.heap
        args = []
        for p, nm in zip(params, c.params):
            t = ex.tu.norm(p.qt)
            if t[0] == "ptr" and "(" in p.qt:
                args.append(FnVal(None, z3.Int("arg_" + nm), nm))
            elif t[0] == "func" or "(" in p.qt:
                args.append(FnVal(None, z3.Int("arg_" + nm), nm))
            elif t[0] == "ptr":
                v = z3.Int("arg_" + nm); ex.assume(z3.And(v >= 0, v < h.brk)); args.append(P(v, 0))
            elif t[0] == "int":
                v = z3.Int("arg_" + nm); ex.assume(ex.inrange(v, t)); args.append(v)
            else: raise Structural("parameter type " + p.qt)
        entry = h.clone()
        k = K(ex, c.params, args, entry, h)
        for nm, f in c.requires(k): ex.assume(f)
        entry = h.clone(); k.h0 = entry
        ex.entry = entry
        ex.k0 = k
        mods = c.modifies(k)
        ex.frame_mod = dict(mods)
        if ex.live: eng.reach.append((f"precondition of {name}", list(ex.pc)))
        fnode = ex.tu.funcs[name]
        # names of the contract stand for the positional parameters
        ex.depth += 1
        fr = {"fn": name, "vars": {}, "va": [], "names": {}}
        ex.frames.append(fr)
        for p, nm, a in zip(params, c.params, args):
            cell = Cell(p.qt, p.name, a)
            fr["vars"][p.id] = cell; fr["names"][p.name] = cell; fr["names"].setdefault(nm, cell)
        body = [x for x in fnode.inner if x.kind == "CompoundStmt"][0]
        r = None
        try: ex.st(body)
        except _Return as e: r = e.v
        ex.frames.pop()
        k2 = K(ex, c.params, args, entry, ex.heap)
        k2.ret = r
        ex.cur = (name, None)
        if ex.live: eng.reach.append((f"exit of {name}", list(ex.pc)))
        if c.hints:
            for f in c.hints(k2): ex.assume(f) if False else ex.oblige("hint", f, "hint")
        for nm, f in c.ensures(k2):
            ex.oblige(f"{name} ensures {nm}", f, "post")
        b = z3.Int("b!f")
        for m in sorted(ex.heap.maps):
            new, old = ex.heap.get(m), entry.get(m)
            if new.eq(old): continue
            if m.startswith("GV."):
                if m not in mods: ex.oblige(f"{name} frame: {m}", new == old, "frame")
                continue
            bases = mods.get(m, [])
            if bases == "all": continue
            ex.oblige(f"{name} frame: {m} unchanged elsewhere",
                      z3.ForAll([b], z3.Implies(z3.And(b < entry.brk, *[b != x for x in bases]), z3.Select(new, b) == z3.Select(old, b))), "frame")
    eng.explore(run, name)

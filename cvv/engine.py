"""CVV: verification-condition generator for the C subset used by umlcc.

Path-by-path symbolic execution of the clang AST of the real source.  Loops are cut by invariants, calls go
through contracts when the callee has one and are inlined when it has none.  Branching is done by re-execution
along a decision list, so the interpreter is a plain recursive evaluator.
"""
import z3, re, time, subprocess, os, hashlib, tempfile
from cast import TU, N, FrontError

class Structural(Exception):
    """The annotation cannot be placed on this source (a loop without invariant, an unknown construct...)."""
class PathEnd(Exception):
    """This path carries no further obligations."""
class _Break(Exception): pass
class _Continue(Exception): pass
class _Return(Exception):
    def __init__(s, v): s.v = v
class Exited(Exception):
    """The program called exit()."""
    def __init__(s, code): s.code = code

INT = ("int", 32, True)

class P:
    """Data pointer: object base and element offset.  base 0 is NULL."""
    __slots__ = ("b", "o")
    def __init__(s, b, o=0): s.b, s.o = b, o
    def __repr__(s): return f"P({s.b},{s.o})"
class CellPtr:
    __slots__ = ("c",)
    def __init__(s, c): s.c = c
class FieldPtr:
    __slots__ = ("b", "rec", "f")
    def __init__(s, b, rec, f): s.b, s.rec, s.f = b, rec, f
class GPtr:
    """Pointer into a global constant table / string literal (read only)."""
    __slots__ = ("name", "o", "data")
    def __init__(s, name, o, data): s.name, s.o, s.data = name, o, data
    def __repr__(s): return f"G({s.name},{s.o})"
class FnVal:
    __slots__ = ("name", "owner", "field")
    def __init__(s, name=None, owner=None, field=None): s.name, s.owner, s.field = name, owner, field
    def __repr__(s): return f"Fn({s.name},{s.owner},{s.field})"
class Cell:
    __slots__ = ("v", "qt", "name", "idx")
    def __init__(s, qt, name, v=None): s.v, s.qt, s.name = v, qt, name
class _Uninit:
    def __repr__(s): return "UNINIT"
UNINIT = _Uninit()

def isz(x): return isinstance(x, z3.ExprRef)
NULL = P(0, 0)

def simp(e):
    return z3.simplify(e) if isz(e) else e

class Obl:
    __slots__ = ("name", "hyps", "goal", "where", "kind", "verdict", "by", "secs", "model", "extra", "func", "path")
    def __init__(s, name, hyps, goal, where, kind):
        s.name, s.hyps, s.goal, s.where, s.kind = name, hyps, goal, where, kind
        s.verdict = None; s.by = None; s.secs = 0.0; s.model = None; s.extra = None; s.func = None; s.path = None

# ---------------------------------------------------------------- heaps
class SymHeap:
    """Maps from object base to value, as z3 arrays; names: 'Rec.field' and 'E.kind'."""
    symbolic = True
    def __init__(s, tag="0"):
        s.maps = {}
        s.init = tag
        s.brk = z3.Int("brk!" + tag)
    def clone(s):
        h = SymHeap.__new__(SymHeap)
        h.maps = dict(s.maps); h.init = s.init; h.brk = s.brk
        return h
    @staticmethod
    def sort(name):
        if name.startswith("E.") or name.startswith("GS."):
            return z3.ArraySort(z3.IntSort(), z3.ArraySort(z3.IntSort(), z3.IntSort()))
        if name == "alive" or name.startswith("GB."):
            return z3.ArraySort(z3.IntSort(), z3.BoolSort())
        if name.startswith("GV."):            # scalar ghost variable
            return z3.IntSort()
        if name.startswith("GM."):            # per-object finite map: base -> key -> value
            return z3.ArraySort(z3.IntSort(), z3.ArraySort(z3.IntSort(), z3.IntSort()))
        return z3.ArraySort(z3.IntSort(), z3.IntSort())
    def get(s, name):
        m = s.maps.get(name)
        if m is None:
            m = z3.Const(f"{name}!{s.init}", s.sort(name))
            s.maps[name] = m
        return m
    def set(s, name, m): s.maps[name] = m
    def sel(s, name, b): return z3.simplify(z3.Select(s.get(name), b)) if False else z3.Select(s.get(name), b)
    def el(s, kind, b, i): return z3.Select(z3.Select(s.get("E." + kind), b), i)

class Obj:
    __slots__ = ("fields", "elems", "nbytes", "alive", "rec", "const", "tag", "fill")
    def __init__(s, nbytes):
        s.fields = {}; s.elems = None; s.nbytes = nbytes; s.alive = True; s.rec = None; s.const = False; s.tag = None; s.fill = None

class ConcHeap:
    symbolic = False
    def __init__(s):
        s.objs = {}
        s.brk = 1
    def new(s, nbytes=None):
        b = s.brk; s.brk += 1
        s.objs[b] = Obj(nbytes)
        return b

# ---------------------------------------------------------------- executor
class Ex:
    MAXSTEPS = 400000
    def __init__(s, eng, decisions):
        s.eng, s.tu = eng, eng.tu
        s.pc = []
        s.dec = decisions
        s.nd = 0
        s.heap = SymHeap() if eng.heapkind == "sym" else ConcHeap()
        s.frames = []
        s.nfresh = 0
        s.loop_seen = 0
        s.steps = 0
        s.cur = None
        s.inits = {}
        s.ghost = {}
        s.depth = 0
        s.solver = None
        s.nsolv = 0
        s.frame_mod = None      # function-level frame: map name -> list of modifiable bases
        s.entry = None
        s.strbase = {}
        s.loopstack = []
        s.trace = []
        s.callhook = None
        s.loop_map = {}
        s.labels = []

    # -------- logic
    def fresh(s, nm, sort=None):
        s.nfresh += 1
        n = f"{nm}!{s.nfresh}"
        if sort is None: sort = z3.IntSort()
        return z3.Const(n, sort)
    def assume(s, f):
        if f is True: return
        if f is False: raise PathEnd()
        f2 = f
        if z3.is_true(f2): return
        s.pc.append(f2)
    @property
    def live(s):
        return s.nd >= len(s.dec)
    def oblige(s, name, f, kind="vc", extra=None):
        if f is True or (isz(f) and z3.is_true(f)):
            if s.live: s.eng.trivial += 1
            return
        if isz(f) and not z3.is_quantifier(f):
            g = z3.simplify(f)
            if z3.is_true(g):
                if s.live: s.eng.trivial += 1
                return
        if s.live:
            g = z3.BoolVal(False) if f is False else f
            o = Obl(name, list(s.pc), g, s.cur, kind)
            o.extra = extra if extra is not None else s.ghost.get('case')
            o.func = s.eng.current
            if s.eng.batch: o.path = s.eng.paths
            s.eng.obls.append(o)
        if f is False:
            raise PathEnd()
        s.assume(f)
    def _chk(s, extra):
        if s.solver is None:
            s.solver = z3.Solver()
            s.solver.set("timeout", s.eng.branch_timeout)
            s.nsolv = 0
        while s.nsolv < len(s.pc):
            f = s.pc[s.nsolv]
            if not s.eng.skip_quant or not _hasq(f):
                s.solver.add(f)
            s.nsolv += 1
        return s.solver.check(extra)
    def branch(s, c):
        """Decide a condition, forking if both ways are possible."""
        if isinstance(c, bool): return c
        c = z3.simplify(c)
        if z3.is_true(c): return True
        if z3.is_false(c): return False
        if s.nd < len(s.dec):
            v = s.dec[s.nd]; s.nd += 1
        else:
            if s.eng.check_branches:
                t = s._chk(c) != z3.unsat
                f = s._chk(z3.Not(c)) != z3.unsat
                if not t and not f: raise PathEnd()
            else:
                t = f = True
            v = t
            if t and f:
                s.eng.work.append(s.dec[:s.nd] + [False])
            s.dec = s.dec + [v]
            s.nd += 1
        s.assume(c if v else z3.Not(c))
        return v
    def choose(s, n, label="choice"):
        """Demonic choice among n alternatives (used by harnesses): full case split."""
        for i in range(n - 1):
            if s.nd < len(s.dec):
                v = s.dec[s.nd]; s.nd += 1
            else:
                v = True
                s.eng.work.append(s.dec[:s.nd] + [False])
                s.dec = s.dec + [True]; s.nd += 1
            if v: return i
        return n - 1

    # -------- values
    def toint(s, v, bits=32):
        if isinstance(v, bool): return int(v)
        if isz(v) and z3.is_bool(v):
            if s.eng.mode == "bv":
                return z3.If(v, z3.BitVecVal(1, bits), z3.BitVecVal(0, bits))
            return z3.If(v, z3.IntVal(1), z3.IntVal(0))
        return v
    def tobool(s, v):
        if isinstance(v, bool): return v
        if isinstance(v, int): return v != 0
        if isz(v):
            if z3.is_bool(v): return v
            return simp(v != 0)
        if isinstance(v, P): return s.peq_neg(v, NULL)
        if isinstance(v, (CellPtr, FieldPtr, GPtr, FnVal)): return True
        if v is UNINIT:
            s.oblige("use of an uninitialised value", False, "mem")
        raise Structural(f"condition on {v!r}")
    def peq(s, a, b):
        """pointer equality"""
        if isinstance(a, P) and isinstance(b, P):
            r1 = s.ieq(a.b, b.b)
            r2 = s.ieq(a.o, b.o)
            if r1 is False: return False
            if r1 is True: return r2
            if b.b == 0 or (isinstance(a.b, int) and a.b == 0): return r1
            return z3.And(r1, r2) if r2 is not True else r1
        if type(a) != type(b): return False
        if isinstance(a, CellPtr): return a.c is b.c
        if isinstance(a, FieldPtr): return a.rec == b.rec and a.f == b.f and s.ieq(a.b, b.b)
        if isinstance(a, GPtr):
            return a.name == b.name and s.ieq(a.o, b.o)
        if isinstance(a, FnVal):
            return a.name == b.name and a.owner == b.owner and a.field == b.field
        raise Structural("pointer comparison")
    def peq_neg(s, a, b):
        r = s.peq(a, b)
        return (not r) if isinstance(r, bool) else z3.Not(r)
    def ieq(s, a, b):
        if isinstance(a, int) and isinstance(b, int): return a == b
        if isz(a) and isz(b) and a.eq(b): return True
        r = z3.simplify(s.coerce(a, b)[0] == s.coerce(a, b)[1])
        if z3.is_true(r): return True
        if z3.is_false(r): return False
        return r
    def coerce(s, a, b):
        if isinstance(a, int) and isz(b) and z3.is_bv(b): return z3.BitVecVal(a, b.size()), b
        if isinstance(b, int) and isz(a) and z3.is_bv(a): return a, z3.BitVecVal(b, a.size())
        if isinstance(a, int): a = z3.IntVal(a) if not isz(b) or not z3.is_bv(b) else a
        if isinstance(b, int): b = z3.IntVal(b)
        return a, b
    @staticmethod
    def rng(t):
        bits, sg = t[1], t[2]
        return (-(1 << (bits - 1)), (1 << (bits - 1)) - 1) if sg else (0, (1 << bits) - 1)
    @staticmethod
    def wrap(v, t):
        bits, sg = t[1], t[2]
        v &= (1 << bits) - 1
        if sg and v >> (bits - 1): v -= 1 << bits
        return v
    def inrange(s, v, t):
        lo, hi = s.rng(t)
        return z3.And(v >= lo, v <= hi)
    def icast(s, v, ft, tt):
        """integer conversion from type ft to type tt"""
        if v is UNINIT: return v
        if isinstance(v, bool) or (isz(v) and z3.is_bool(v)):
            v = s.toint(v, tt[1] if s.eng.mode == "bv" else 32)
            if isinstance(v, int): return v
            if s.eng.mode == "bv": return v
            return v
        if isinstance(v, int): return s.wrap(v, tt)
        if not isz(v): 
            if isinstance(v, (P, GPtr)): raise Structural("pointer to integer conversion")
            return v
        if z3.is_bv(v):
            n = v.size(); m = tt[1]
            if m == n: return v
            if m < n: return simp(z3.Extract(m - 1, 0, v))
            return simp(z3.SignExt(m - n, v) if ft[2] else z3.ZeroExt(m - n, v))
        flo, fhi = s.rng(ft); tlo, thi = s.rng(tt)
        if tlo <= flo and fhi <= thi: return v
        M = 1 << tt[1]
        if ft[1] <= tt[1]:
            if ft[2] and not tt[2]: return z3.If(v < 0, v + M, v)
            return z3.If(v > thi, v - M, v)
        if tt[2]: return (v + M // 2) % M - M // 2
        return v % M
    def arith(s, op, a, b, t, n):
        a = s.toint(a, t[1]); b = s.toint(b, t[1])
        if a is UNINIT or b is UNINIT:
            s.oblige("use of an uninitialised value", False, "mem")
        if not isinstance(a, int) and not isz(a) or not isinstance(b, int) and not isz(b):
            raise Structural(f"arithmetic {op} on {a!r} {b!r} at line {n.line}")
        if isinstance(a, int) and isinstance(b, int):
            if op == "+": r = a + b
            elif op == "-": r = a - b
            elif op == "*": r = a * b
            elif op in "/%":
                if b == 0: s.oblige("division by zero", False, "ub")
                q = abs(a) // abs(b)
                if (a < 0) != (b < 0): q = -q
                r = q if op == "/" else a - q * b
            elif op == "&": r = a & b
            elif op == "|": r = a | b
            elif op == "^": r = a ^ b
            elif op == "<<":
                if not (0 <= b < t[1]): s.oblige("shift amount in range", False, "ub")
                r = a << b
                if t[2]:
                    if a < 0: s.oblige("left shift of a negative value", s.eng.allow_shift, "ub")
                    return s.wrap(r, t)
            elif op == ">>":
                if not (0 <= b < t[1]): s.oblige("shift amount in range", False, "ub")
                r = a >> b
            else: raise Structural("operator " + op)
            if t[2]:
                lo, hi = s.rng(t)
                if not lo <= r <= hi: s.oblige(f"no signed overflow in {op}", False, "ub")
            return s.wrap(r, t)
        if s.eng.mode == "bv" and ((isz(a) and z3.is_bv(a)) or (isz(b) and z3.is_bv(b))):
            w = t[1]
            if isinstance(a, int): a = z3.BitVecVal(a, w)
            if isinstance(b, int): b = z3.BitVecVal(b, w)
            if b.size() != a.size():   # shifts keep the left operand's type
                b = z3.Extract(a.size() - 1, 0, b) if b.size() > a.size() else z3.ZeroExt(a.size() - b.size(), b)
            sg = t[2]
            if op == "+":
                if sg: s.oblige("no signed overflow in +", z3.And(z3.BVAddNoOverflow(a, b, True), z3.BVAddNoUnderflow(a, b)), "ub")
                r = a + b
            elif op == "-":
                if sg: s.oblige("no signed overflow in -", z3.And(z3.BVSubNoOverflow(a, b), z3.BVSubNoUnderflow(a, b, True)), "ub")
                r = a - b
            elif op == "*":
                if sg: s.oblige("no signed overflow in *", z3.And(z3.BVMulNoOverflow(a, b, True), z3.BVMulNoUnderflow(a, b)), "ub")
                r = a * b
            elif op == "/":
                s.oblige("division by zero", b != 0, "ub")
                r = a / b if sg else z3.UDiv(a, b)
            elif op == "%":
                s.oblige("division by zero", b != 0, "ub")
                r = z3.SRem(a, b) if sg else z3.URem(a, b)
            elif op == "&": r = a & b
            elif op == "|": r = a | b
            elif op == "^": r = a ^ b
            elif op == "<<":
                s.oblige("shift amount in range", z3.ULT(b, w), "ub")
                if sg and not s.eng.allow_shift: s.oblige("left shift of a negative value", a >= 0, "ub")
                r = a << b
            elif op == ">>":
                s.oblige("shift amount in range", z3.ULT(b, w), "ub")
                r = a >> b if sg else z3.LShR(a, b)
            else: raise Structural("operator " + op)
            return simp(r)
        # mathematical integers
        if op == "+": r = a + b
        elif op == "-": r = a - b
        elif op == "*": r = a * b
        elif op in "/%":
            s.oblige("division by zero", b != 0 if isz(b) else b != 0, "ub")
            if isinstance(b, int) and b > 0:
                az = a if isz(a) else z3.IntVal(a)
                q = z3.If(az >= 0, az / b, -((-az) / b))
                r = q if op == "/" else az - q * b
                if s.eng.nonneg_div:
                    r = az / b if op == "/" else az % b
                    s.oblige("dividend is non-negative", az >= 0, "ub")
            else:
                s.oblige(f"operands of {op} are non-negative", z3.And(a >= 0, b > 0), "ub")
                if op == "/":
                    raise Structural("symbolic division")
                r = s.eng.MOD(a if isz(a) else z3.IntVal(a), b)
                s.assume(z3.And(r >= 0, r < b, z3.Implies(a < b, r == a), z3.Implies(z3.And(a >= b, a < 2 * b), r == a - b)))
                return r
        elif op in ("<<", ">>", "&", "|", "^"):
            raise Structural("bit operation on mathematical integers")
        else: raise Structural("operator " + op)
        lo, hi = s.rng(t)
        s.oblige(f"no {'signed overflow' if t[2] else 'unsigned wrap'} in {op}", z3.And(r >= lo, r <= hi), "ub")
        return r
    def compare(s, op, a, b, t):
        if a is UNINIT or b is UNINIT:
            s.oblige("use of an uninitialised value", False, "mem")
        isptr = not (isinstance(a, (int, bool)) or isz(a)) or not (isinstance(b, (int, bool)) or isz(b))
        if isptr:
            if isinstance(a, int) and a == 0: a = NULL
            if isinstance(b, int) and b == 0: b = NULL
            if op == "==": return s.peq(a, b)
            if op == "!=": return s.peq_neg(a, b)
            if isinstance(a, P) and isinstance(b, P):
                s.oblige("comparison within one object", s.ieq(a.b, b.b), "ub")
                a, b = a.o, b.o
            elif isinstance(a, GPtr) and isinstance(b, GPtr) and a.name == b.name:
                a, b = a.o, b.o
            else:
                raise Structural("pointer ordering")
        a = s.toint(a, t[1] if t and t[0] == "int" else 32); b = s.toint(b, t[1] if t and t[0] == "int" else 32)
        if isinstance(a, int) and isinstance(b, int):
            return {"==": a == b, "!=": a != b, "<": a < b, "<=": a <= b, ">": a > b, ">=": a >= b}[op]
        if (isz(a) and z3.is_bv(a)) or (isz(b) and z3.is_bv(b)):
            w = (a if isz(a) else b).size()
            if isinstance(a, int): a = z3.BitVecVal(a, w)
            if isinstance(b, int): b = z3.BitVecVal(b, w)
            sg = t[2]
            r = {"==": lambda: a == b, "!=": lambda: a != b,
                 "<": lambda: a < b if sg else z3.ULT(a, b), "<=": lambda: a <= b if sg else z3.ULE(a, b),
                 ">": lambda: a > b if sg else z3.UGT(a, b), ">=": lambda: a >= b if sg else z3.UGE(a, b)}[op]()
        else:
            if isinstance(a, int): a = z3.IntVal(a)
            r = {"==": lambda: a == b, "!=": lambda: a != b, "<": lambda: a < b, "<=": lambda: a <= b, ">": lambda: a > b, ">=": lambda: a >= b}[op]()
        return simp(r)

    # -------- memory
    def ekind(s, qt):
        t = s.tu.norm(qt)
        if t[0] == "ptr": return "ptr"
        if t[0] == "int": return {8: "char", 16: "short", 32: "int", 64: "long"}[t[1]]
        if t[0] == "void": return "ptr"
        raise Structural("element type " + qt)
    def typed(s, v, qt):
        """value loaded from a symbolic map -> typed value, with range facts"""
        t = s.tu.norm(qt)
        if t[0] == "ptr":
            s.assume(v < s.heap.brk)
            s.assume(v >= 0)
            return P(v, 0)
        if t[0] == "int":
            s.assume(s.inrange(v, t))
            return v
        raise Structural("load of " + qt)
    def enc(s, v, qt):
        """typed value -> map value"""
        if isinstance(v, P):
            s.oblige("stored pointer addresses the start of an object", s.ieq(v.o, 0), "mem")
            return v.b if isz(v.b) else z3.IntVal(v.b)
        if isinstance(v, GPtr):
            return z3.IntVal(s.gbase(v))
        v = s.toint(v)
        if isinstance(v, int): return z3.IntVal(v)
        if isz(v): return v
        raise Structural(f"store of {v!r}")
    def gbase(s, g):
        """numeric base for a global object (negative numbers, distinct)"""
        k = g.name
        if k not in s.strbase: s.strbase[k] = -(len(s.strbase) + 2)
        return s.strbase[k]
    def fread(s, b, rec, f, qt):
        h = s.heap
        if h.symbolic:
            if s.tu.norm(qt)[0] == "ptr" and "(" in qt:
                return FnVal(None, b, f)
            s.oblige(f"{rec}.{f}: object is allocated", s.okrec(b, rec), "mem")
            return s.typed(h.sel(f"{rec}.{f}", b if isz(b) else z3.IntVal(b)), qt)
        o = s.obj(b, f"{rec}.{f}")
        s.oblige(f"{rec}.{f}: access inside the allocated object", o.nbytes is None or isz(o.nbytes) or o.nbytes >= s.tu.size_align(rec)[0], "mem")
        v = o.fields.get(f, UNINIT)
        if v is UNINIT and o.fill is not None:
            v = o.fill(s, b, rec, f, qt); o.fields[f] = v
        return v
    def fwrite(s, b, rec, f, v, qt):
        h = s.heap
        if h.symbolic:
            s.oblige(f"{rec}.{f}: object is allocated", s.okrec(b, rec), "mem")
            nm = f"{rec}.{f}"
            if isinstance(v, FnVal): return
            s.wrote(nm)
            h.set(nm, z3.Store(h.get(nm), b, s.enc(v, qt)))
            return
        o = s.obj(b, f"{rec}.{f}")
        s.oblige(f"{rec}.{f}: access inside the allocated object", o.nbytes is None or isz(o.nbytes) or o.nbytes >= s.tu.size_align(rec)[0], "mem")
        s.oblige("write to a read-only object", not o.const, "mem")
        s.onwrite(b, o, f)
        o.rec = o.rec or rec
        o.fields[f] = v
    def onwrite(s, b, o, f):
        pass
    def obj(s, b, what):
        if isz(b):
            b = simp(b)
            if z3.is_int_value(b): b = b.as_long()
            else: raise Structural(f"symbolic object address for {what}")
        if b == 0: s.oblige(f"{what}: null pointer dereference", False, "mem")
        o = s.heap.objs.get(b)
        if o is None: s.oblige(f"{what}: wild pointer", False, "mem")
        if not o.alive: s.oblige(f"{what}: use after free", False, "mem")
        return o
    def okrec(s, b, rec):
        b = b if isz(b) else z3.IntVal(b)
        h = s.heap
        return z3.And(b > 0, z3.Select(h.get("alive"), b), z3.Select(h.get("nbytes"), b) >= s.tu.size_align(rec)[0])
    def okel(s, b, i, esz):
        b = b if isz(b) else z3.IntVal(b)
        h = s.heap
        return z3.And(b > 0, z3.Select(h.get("alive"), b), i >= 0, z3.Select(h.get("nbytes"), b) >= (i + 1) * esz)
    def wrote(s, nm):
        for lp in s.loopstack:
            if nm not in lp["maps"]:
                lp["missing"].add(nm)
                raise NeedMaps(lp)
    def eread(s, p, qt):
        esz = s.tu.size_align(qt)[0]
        if isinstance(p, CellPtr):
            return p.c.v
        if isinstance(p, FieldPtr):
            return s.fread(p.b, p.rec, p.f, qt)
        if isinstance(p, GPtr):
            return s.gread(p, qt)
        if not isinstance(p, P): 
            if p is UNINIT: s.oblige("use of an uninitialised pointer", False, "mem")
            raise Structural(f"read through {p!r}")
        h = s.heap
        if h.symbolic:
            i = p.o if isz(p.o) else z3.IntVal(p.o)
            b = p.b if isz(p.b) else z3.IntVal(p.b)
            s.oblige("array read in bounds", s.okel(b, i, esz), "mem")
            k = s.ekind(qt)
            if k == "char" and s.tu.norm(qt)[2] is False: k = "uchar"
            return s.typed(h.el(k, b, i), qt)
        o = s.obj(p.b, "array read")
        return s.cel(o, p.o, qt, esz)
    def cel(s, o, i, qt, esz):
        i = simp(i)
        if isz(i) and z3.is_bv_value(i): i = i.as_signed_long()
        if o.elems is None:
            o.elems = {}
        if isz(i):
            # symbolic index into a concrete object: case split over the elements
            n = (o.nbytes // esz) if o.nbytes is not None else None
            if n is None: raise Structural("symbolic index into an object of unknown size")
            for k in range(n):
                if s.branch(i == k): i = k; break
            else:
                s.oblige("array read in bounds", False, "mem")
        s.oblige("array read in bounds", i >= 0 and (o.nbytes is None or isz(o.nbytes) or (i + 1) * esz <= o.nbytes), "mem")
        v = o.elems.get(i, UNINIT)
        if v is UNINIT and o.fill is not None:
            v = o.fill(s, None, None, i, qt); o.elems[i] = v
        return v
    def ewrite(s, p, v, qt):
        esz = s.tu.size_align(qt)[0]
        if isinstance(p, CellPtr):
            p.c.v = v; return
        if isinstance(p, FieldPtr):
            return s.fwrite(p.b, p.rec, p.f, v, qt)
        if isinstance(p, GPtr):
            s.oblige("write to a constant", False, "mem")
        if p is UNINIT: s.oblige("use of an uninitialised pointer", False, "mem")
        h = s.heap
        if h.symbolic:
            i = p.o if isz(p.o) else z3.IntVal(p.o)
            b = p.b if isz(p.b) else z3.IntVal(p.b)
            s.oblige("array write in bounds", s.okel(b, i, esz), "mem")
            k = s.ekind(qt)
            if k == "char" and s.tu.norm(qt)[2] is False: k = "uchar"
            nm = "E." + k
            s.wrote(nm)
            h.set(nm, z3.Store(h.get(nm), b, z3.Store(z3.Select(h.get(nm), b), i, s.enc(v, qt))))
            return
        o = s.obj(p.b, "array write")
        i = simp(p.o)
        if isz(i) and z3.is_bv_value(i): i = i.as_signed_long()
        if isz(i):
            n = (o.nbytes // esz) if o.nbytes is not None else None
            if n is None: raise Structural("symbolic index into an object of unknown size")
            for k in range(n):
                if s.branch(i == k): i = k; break
            else:
                s.oblige("array write in bounds", False, "mem")
        s.oblige("array write in bounds", i >= 0 and (o.nbytes is None or isz(o.nbytes) or (i + 1) * esz <= o.nbytes), "mem")
        s.oblige("write to a read-only object", not o.const, "mem")
        s.onwrite(p.b, o, i)
        if o.elems is None: o.elems = {}
        o.elems[i] = v
    def gread(s, g, qt):
        d = g.data
        i = g.o
        if isz(i): i = simp(i)
        if isz(i) and (z3.is_int_value(i)): i = i.as_long()
        if isz(i) and z3.is_bv_value(i): i = i.as_signed_long()
        if isz(i):
            s.oblige("table index in bounds", z3.And(i >= 0, i < len(d)), "mem")
            if s.heap.symbolic or s.eng.table_ite:
                if all(isinstance(x, int) for x in d):
                    t = s.tu.norm(qt)
                    e = s.eng.num(d[-1], t)
                    for k in range(len(d) - 2, -1, -1):
                        e = z3.If(i == k, s.eng.num(d[k], t), e)
                    return e
            f = getattr(s.eng, "table_opq", None)
            if f is not None:
                r = f(s, d, i)
                if r is not None: return r
            for k in range(len(d)):
                if s.branch(i == k): return d[k]
            raise PathEnd()
        s.oblige("table index in bounds", 0 <= i < len(d), "mem")
        return d[i]

    def malloc(s, n):
        h = s.heap
        if h.symbolic:
            n = n if isz(n) else z3.IntVal(n)
            b = h.brk
            h.brk = z3.simplify(h.brk + 1)
            s.wrote("alive"); s.wrote("nbytes")
            h.set("alive", z3.Store(h.get("alive"), b, True))
            h.set("nbytes", z3.Store(h.get("nbytes"), b, n))
            if s.loopstack: s.wrote("brk")
            return P(b, 0)
        if isz(n):
            n = simp(n)
            if z3.is_int_value(n): n = n.as_long()
            elif z3.is_bv_value(n): n = n.as_long()
        b = h.new(n)
        return P(b, 0)
    def free(s, p):
        h = s.heap
        if isinstance(p, P) and isinstance(p.b, int) and p.b == 0: return
        if h.symbolic:
            b = p.b
            s.oblige("free of an allocated block, once", z3.Or(b == 0, z3.And(b > 0, z3.Select(h.get("alive"), b), s.tobool(s.ieq(p.o, 0)))), "mem")
            s.wrote("alive")
            h.set("alive", z3.Store(h.get("alive"), b, False))
            return
        if not isinstance(p, P): s.oblige("free of a heap block", False, "mem")
        o = s.heap.objs.get(p.b)
        s.oblige("free of a heap block", o is not None and p.o == 0, "mem")
        s.oblige("double free", o.alive, "mem")
        s.oblige("free of a read-only object", not o.const, "mem")
        o.alive = False
        s.onfree(p.b, o)
    def onfree(s, b, o): pass
    def realloc(s, p, n):
        h = s.heap
        if h.symbolic:
            b0 = p.b
            s.oblige("realloc of an allocated block", z3.And(b0 > 0, z3.Select(h.get("alive"), b0), s.tobool(s.ieq(p.o, 0))), "mem")
            old = h.clone()
            q = s.malloc(n)
            n = n if isz(n) else z3.IntVal(n)
            s.wrote("alive")
            h.set("alive", z3.Store(h.get("alive"), b0, False))
            k = s.eng.realloc_kind
            esz = {"ptr": 8, "char": 1, "int": 4}[k]
            s.wrote("E." + k)
            row = s.fresh("row", z3.ArraySort(z3.IntSort(), z3.IntSort()))
            i = z3.Int("i!q")
            s.assume(z3.ForAll([i], z3.Implies(z3.And(i >= 0, (i + 1) * esz <= n, (i + 1) * esz <= z3.Select(old.get("nbytes"), b0)),
                                               z3.Select(row, i) == old.el(k, b0, i)), patterns=[z3.Select(row, i)]))
            h.set("E." + k, z3.Store(h.get("E." + k), q.b, row))
            return q
        q = s.malloc(n)
        if isinstance(p, P) and p.b != 0:
            o = s.obj(p.b, "realloc")
            o2 = h.objs[q.b]
            if o.elems is not None: o2.elems = dict(o.elems)
            o2.fields = dict(o.fields)
            o2.fill = o.fill
            o.alive = False
        return q

    # -------- expressions
    def ty(s, n): return s.tu.norm(n.qt)
    def lval(s, n):
        k = n.kind
        if k == "DeclRefExpr":
            c = s.lookup(n.ref)
            if isinstance(c, Cell): return ("cell", c)
            return ("glob", c)
        if k == "ParenExpr": return s.lval(n.inner[0])
        if k == "MemberExpr":
            rec, f = s.tu.field_of[n.memid]
            if n.arrow:
                p = s.ev(n.inner[0])
                if isinstance(p, GPtr):
                    return ("gfield", p, rec, f)
                if isinstance(p, FieldPtr): raise Structural("nested struct pointer")
                if p is UNINIT: s.oblige("use of an uninitialised pointer", False, "mem")
                if not isinstance(p, P): raise Structural(f"member of {p!r}")
                if isz(p.o) or p.o != 0: raise Structural("array of structs")
                return ("field", p.b, rec, f)
            base = s.lval(n.inner[0])
            if base[0] == "glob": return ("gfield", base[1], rec, f)
            raise Structural("struct value member")
        if k == "ArraySubscriptExpr":
            a = s.ev(n.inner[0]); i = s.ev(n.inner[1])
            if isinstance(i, P): a, i = i, a
            return ("ptr", s.padd(a, i, n))
        if k == "UnaryOperator" and n.op == "*":
            return ("ptr", s.ev(n.inner[0]))
        if k == "ImplicitCastExpr" and n.cast == "NoOp": return s.lval(n.inner[0])
        if k == "StringLiteral":
            return ("ptr", s.strlit(n))
        raise Structural(f"lvalue {k} line {n.line}")
    def padd(s, a, i, n=None):
        i = s.toint(i)
        if a is UNINIT or i is UNINIT: s.oblige("use of an uninitialised pointer", False, "mem")
        def add(o, i):
            if isinstance(o, int) and isinstance(i, int): return o + i
            if isz(o) and z3.is_bv(o) or isz(i) and z3.is_bv(i):
                if isz(i) and z3.is_bv(i) and i.size() != 64: i = z3.SignExt(64 - i.size(), i)
                if isinstance(o, int): o = z3.BitVecVal(o, 64)
                if isinstance(i, int): i = z3.BitVecVal(i, 64)
                if o.size() != 64: o = z3.SignExt(64 - o.size(), o)
                return simp(o + i)
            return simp(o + i)
        if isinstance(a, P): return P(a.b, add(a.o, i))
        if isinstance(a, GPtr): return GPtr(a.name, add(a.o, i), a.data)
        if isinstance(a, CellPtr) and isinstance(i, int) and i == 0: return a
        raise Structural(f"pointer arithmetic on {a!r}")
    def load(s, lv, qt):
        k = lv[0]
        if k == "cell":
            v = lv[1].v
            return v
        if k == "field": return s.fread(lv[1], lv[2], lv[3], qt)
        if k == "ptr": return s.eread(lv[1], qt)
        if k == "glob": return s.gload(lv[1], qt)
        if k == "gfield":
            d = lv[1].data
            if isinstance(d, dict): return d[lv[3]]
            return s.gread(lv[1], qt)[lv[3]]
        raise Structural("load " + k)
    def store(s, lv, v, qt):
        k = lv[0]
        if k == "cell":
            for lp in s.loopstack:
                if lv[1] in lp["outer"] and lv[1] not in lp["cells"]:
                    lp["missing_cells"].add(lv[1].idx)
                    raise NeedMaps(lp)
            lv[1].v = v; return
        if k == "field": return s.fwrite(lv[1], lv[2], lv[3], v, qt)
        if k == "ptr": return s.ewrite(lv[1], v, qt)
        raise Structural("store " + k)
    def lookup(s, ref):
        kind, name, did = ref
        fr = s.frames[-1]
        c = fr["vars"].get(did)
        if c is not None: return c
        if kind == "FunctionDecl": return FnVal(name)
        if kind in ("VarDecl",):
            if name in s.tu.globals: return s.glob(name)
        raise Structural("unknown name " + name)
    def glob(s, name):
        g = s.eng.globals.get(name)
        if g is None:
            g = GPtr(name, 0, s.eng.ginit(name))
            s.eng.globals[name] = g
        return g
    def gload(s, g, qt):
        d = g.data
        if isinstance(d, (int, GPtr, FnVal, P)): return d
        raise Structural(f"load of global {g.name}")
    def strlit(s, n):
        b = s.eng.strbytes(n.value)
        return GPtr("str:" + n.value, 0, b)

    def ev(s, n):
        s.steps += 1
        if s.steps > s.MAXSTEPS: raise Structural("path too long")
        return getattr(s, "e_" + n.kind, s.e_unknown)(n)
    def e_unknown(s, n): raise Structural(f"construct {n.kind} at line {n.line}")
    def e_ParenExpr(s, n): return s.ev(n.inner[0])
    def e_ConstantExpr(s, n): return s.ev(n.inner[0])
    def e_IntegerLiteral(s, n): return int(n.value)
    def e_CharacterLiteral(s, n): return int(n.value)
    def e_StringLiteral(s, n): return s.strlit(n)
    def e_DeclRefExpr(s, n):
        if n.ref[0] == "EnumConstantDecl": return s.tu.enums[n.ref[1]]
        if n.ref[0] == "FunctionDecl": return FnVal(n.ref[1])
        lv = s.lval(n)
        return s.load(lv, n.qt)
    def e_MemberExpr(s, n): return s.load(s.lval(n), n.qt)
    def e_ArraySubscriptExpr(s, n): return s.load(s.lval(n), n.qt)
    def e_ImplicitCastExpr(s, n): return s.cast(n)
    def e_CStyleCastExpr(s, n): return s.cast(n)
    def cast(s, n):
        k = n.cast; x = n.inner[0]
        if k == "LValueToRValue":
            v = s.load(s.lval(x), x.qt)
            if v is UNINIT:
                s.oblige(f"read of an initialised value (line {n.line})", False, "mem")
            return v
        if k in ("FunctionToPointerDecay", "BuiltinFnToFnPtr"):
            return s.ev(x)
        if k == "ArrayToPointerDecay":
            lv = s.lval(x)
            if lv[0] == "cell": return lv[1].v      # local array: cell holds the pointer
            if lv[0] == "glob": return lv[1]
            if lv[0] == "ptr" and isinstance(lv[1], (GPtr,)): return lv[1]
            if lv[0] == "field":
                return s.fread(lv[1], lv[2], lv[3], "void *")
            raise Structural("array decay")
        if k == "IntegralCast":
            v = s.ev(x)
            return s.icast(v, s.ty(x), s.ty(n))
        if k == "NullToPointer": 
            return NULL
        if k == "BitCast":
            return s.ev(x)
        if k == "NoOp": return s.ev(x)
        if k == "ToVoid":
            s.ev(x); return None
        if k == "IntegralToPointer":
            v = s.ev(x)
            if isinstance(v, int): return P(v, 0) if s.heap.symbolic else GPtr(f"int:{v}", 0, [])
            raise Structural("integer to pointer")
        if k == "IntegralToBoolean" or k == "PointerToBoolean":
            return s.tobool(s.ev(x))
        raise Structural(f"cast {k} at line {n.line}")
    def e_UnaryOperator(s, n):
        op = n.op; x = n.inner[0]
        if op == "&":
            lv = s.lval(x)
            if lv[0] == "cell": return CellPtr(lv[1])
            if lv[0] == "field": return FieldPtr(lv[1], lv[2], lv[3])
            if lv[0] == "ptr": return lv[1]
            if lv[0] == "glob": return lv[1]
            raise Structural("address of")
        if op == "*": return s.load(s.lval(n), n.qt)
        if op == "!":
            b = s.tobool(s.ev(x))
            return (not b) if isinstance(b, bool) else z3.simplify(z3.Not(b))
        if op == "-":
            return s.arith("-", 0, s.ev(x), s.ty(n), n)
        if op == "+": return s.ev(x)
        if op == "~":
            v = s.toint(s.ev(x)); t = s.ty(n)
            if isinstance(v, int): return s.wrap(~v, t)
            if z3.is_bv(v): return ~v
            return -v - 1
        if op in ("++", "--"):
            lv = s.lval(x)
            v = s.load(lv, x.qt)
            t = s.tu.norm(x.qt)
            if t[0] == "ptr":
                w = s.padd(v, 1 if op == "++" else -1)
            else:
                w = s.arith("+" if op == "++" else "-", v, 1, t, n) if t[1] >= 32 else s.icast(s.arith("+" if op == "++" else "-", s.icast(v, t, INT), 1, INT, n), INT, t)
            s.store(lv, w, x.qt)
            return v if n.postfix else w
        raise Structural("unary " + op)
    def e_UnaryExprOrTypeTraitExpr(s, n):
        if n.name == "sizeof":
            q = n.argt or n.inner[0].qt
            return s.tu.size_align(q)[0]
        raise Structural(n.name)
    def e_BinaryOperator(s, n):
        op = n.op; a, b = n.inner
        if op == "=":
            t = s.tu.norm(a.qt)
            if s.tu.norm(a.qt)[0] == "rec": raise Structural("struct assignment")
            lv = s.lval(a)
            v = s.ev(b)
            if t[0] == "int" and (isinstance(v, bool) or isz(v) and z3.is_bool(v)): v = s.toint(v, t[1])
            s.store(lv, v, a.qt)
            return v
        if op == ",":
            s.ev(a); return s.ev(b)
        if op == "&&":
            x = s.tobool(s.ev(a))
            if not s.branch(x): return False
            return s.tobool(s.ev(b))
        if op == "||":
            x = s.tobool(s.ev(a))
            if s.branch(x): return True
            return s.tobool(s.ev(b))
        x = s.ev(a); y = s.ev(b)
        ta, tb = s.ty(a), s.ty(b)
        if op in ("==", "!=", "<", "<=", ">", ">="):
            return s.compare(op, x, y, ta)
        if ta[0] == "ptr" and tb[0] == "int":
            return s.padd(x, y if op == "+" else s.arith("-", 0, y, tb, n), n)
        if tb[0] == "ptr" and ta[0] == "int":
            return s.padd(y, x, n)
        if ta[0] == "ptr" and tb[0] == "ptr" and op == "-":
            if isinstance(x, P) and isinstance(y, P):
                s.oblige("difference within one object", s.ieq(x.b, y.b), "ub")
                return simp(x.o - y.o)
            raise Structural("pointer difference")
        return s.arith(op, x, y, s.ty(n), n)
    def e_CompoundAssignOperator(s, n):
        op = n.op[:-1]; a, b = n.inner
        lv = s.lval(a)
        t = s.tu.norm(a.qt)
        y = s.ev(b)
        x = s.load(lv, a.qt)
        if t[0] == "ptr":
            w = s.padd(x, y if op == "+" else s.arith("-", 0, y, s.ty(b), n))
        else:
            tb = s.ty(b)
            ct = t if t[1] >= 32 else INT
            if tb[1] > ct[1] or (tb[1] == ct[1] and not tb[2]): ct = tb
            if op in ("<<", ">>"): ct = t if t[1] >= 32 else INT
            w = s.arith(op, s.icast(x, t, ct), s.icast(y, tb, ct), ct, n)
            w = s.icast(w, ct, t)
        s.store(lv, w, a.qt)
        return w
    def e_ConditionalOperator(s, n):
        c = s.tobool(s.ev(n.inner[0]))
        return s.ev(n.inner[1]) if s.branch(c) else s.ev(n.inner[2])
    def e_VAArgExpr(s, n):
        lv = s.lval(n.inner[0]) if n.inner[0].kind == "DeclRefExpr" else None
        fr = s.frames[-1]
        va = fr["va"]
        if not va: s.oblige("variable argument present", False, "ub")
        return va.pop(0)
    def e_CallExpr(s, n):
        f = s.ev(n.inner[0])
        args = [s.ev(a) for a in n.inner[1:]]
        argn = n.inner[1:]
        s.cur = (s.frames[-1]["fn"] if s.frames else None, n.line)
        if isinstance(f, CellPtr) or not isinstance(f, FnVal):
            raise Structural("call through unknown pointer")
        t = s.tu.norm(n.qt)
        r = s.call(f, args, n.qt, argn, n)
        return r
    def e_InitListExpr(s, n):
        return [s.ev(x) for x in n.inner]

    # -------- calls
    def call(s, f, args, qt, argn=None, n=None):
        if f.name is None:
            c = s.eng.iface.get(f.field)
            if c is None: raise Structural("no interface contract for " + f.field)
            return c(s, f.owner, args)
        name = f.name
        h = s.eng.overrides.get(name)
        if h is not None:
            r = h(s, args)
            if r is not NotImplemented:
                return r
        c = s.eng.contracts.get(name)
        if c is not None and name != s.eng.inline_force:
            return s.use_contract(c, args)
        if name in s.tu.funcs:
            return s.inline(name, args)
        b = s.eng.builtins.get(name)
        if b is not None: return b(s, args, argn)
        raise Structural("call of unknown function " + name)
    def inline(s, name, args):
        fn = s.tu.funcs[name]
        if s.depth > s.eng.maxdepth: raise Structural("recursion without contract: " + name)
        s.depth += 1
        s.eng.inlined.add(name)
        params = [c for c in fn.inner if c.kind == "ParmVarDecl"]
        body = [c for c in fn.inner if c.kind == "CompoundStmt"][0]
        fr = {"fn": name, "vars": {}, "va": list(args[len(params):]), "names": {}}
        s.frames.append(fr)
        for p, a in zip(params, args):
            c = Cell(p.qt, p.name, a)
            fr["vars"][p.id] = c
            if p.name: fr["names"][p.name] = c
        try:
            s.st(body)
            r = None
        except _Return as e:
            r = e.v
        s.frames.pop()
        s.depth -= 1
        return r
    def use_contract(s, c, args):
        return c.apply(s, args)

    # -------- statements
    def st(s, n):
        if n is None: return
        s.steps += 1
        if s.steps > s.MAXSTEPS: raise Structural("path too long")
        if n.line and s.frames: s.cur = (s.frames[-1]["fn"], n.line)
        m = getattr(s, "s_" + n.kind, None)
        if m: return m(n)
        s.ev(n)
    def s_CompoundStmt(s, n):
        for x in n.inner: s.st(x)
    def s_NullStmt(s, n): pass
    def s_DeclStmt(s, n):
        for d in n.inner:
            if d.kind != "VarDecl": continue
            fr = s.frames[-1]
            c = Cell(d.qt, d.name, UNINIT)
            t = s.tu.norm(d.qt)
            init = [x for x in d.inner if x is not None]
            fr["vars"][d.id] = c
            fr["names"][d.name] = c
            if t[0] == "arr":
                sz = s.tu.size_align(d.qt)[0]
                c.v = s.malloc(sz)
                if init:
                    if init[0].kind == "InitListExpr":
                        vals = [s.ev(x) for x in init[0].inner]
                        for i in range(t[2]):
                            s.ewrite(P(c.v.b, i), vals[i] if i < len(vals) else 0, t[1])
                    elif init[0].kind == "StringLiteral":
                        bs = s.eng.strbytes(init[0].value)
                        for i in range(t[2]):
                            s.ewrite(P(c.v.b, i), bs[i] if i < len(bs) else 0, t[1])
            elif t[0] == "rec" and d.qt not in ("va_list", "__builtin_va_list") and "va_list" not in d.qt:
                raise Structural("local struct " + d.qt)
            elif init:
                v = s.ev(init[0])
                if t[0] == "int" and (isinstance(v, bool) or isz(v) and z3.is_bool(v)): v = s.toint(v, t[1])
                c.v = v
    def s_ReturnStmt(s, n):
        v = s.ev(n.inner[0]) if n.inner else None
        if n.inner:
            t = s.tu.norm(n.inner[0].qt)
            if t[0] == "int" and (isinstance(v, bool) or isz(v) and z3.is_bool(v)): v = s.toint(v, t[1])
        raise _Return(v)
    def s_IfStmt(s, n):
        c = s.tobool(s.ev(n.inner[0]))
        if s.branch(c): s.st(n.inner[1])
        elif n.hasElse: s.st(n.inner[2])
    def s_BreakStmt(s, n): raise _Break()
    def s_ContinueStmt(s, n): raise _Continue()
    def s_SwitchStmt(s, n):
        v = s.ev(n.inner[0]); body = n.inner[1]
        t = s.tu.norm(n.inner[0].qt)
        # flatten
        seq = []
        def flat(x):
            if x.kind in ("CaseStmt",):
                seq.append(("case", x.inner[0], x)); flat(x.inner[-1])
            elif x.kind == "DefaultStmt":
                seq.append(("default", None, x)); flat(x.inner[-1])
            else: seq.append(("st", x, x))
        for x in body.inner: flat(x)
        cases = [(i, s.ev(e[1])) for i, e in enumerate(seq) if e[0] == "case"]
        dflt = [i for i, e in enumerate(seq) if e[0] == "default"]
        start = None
        for i, cv in cases:
            if s.branch(s.compare("==", v, cv, t)): start = i; break
        if start is None: start = dflt[0] if dflt else len(seq)
        try:
            for e in seq[start:]:
                if e[0] == "st": s.st(e[1])
        except _Break: pass
    def s_ForStmt(s, n):
        init, _, cond, inc, body = n.inner
        if init is not None: s.st(init)
        s.loop(n, cond, inc, body, False)
    def s_WhileStmt(s, n):
        s.loop(n, n.inner[0], None, n.inner[1], False)
    def s_DoStmt(s, n):
        s.loop(n, n.inner[1], None, n.inner[0], True)
    def loopspec(s, n):
        idx = s.loop_map.get(n.id)
        if idx is None: return None
        return s.eng.loopspecs.get(idx)
    def loop(s, n, cond, inc, body, isdo):
        spec = s.loopspec(n)
        if spec is None:
            cnt = 0
            first = isdo
            while True:
                if not first:
                    c = s.tobool(s.ev(cond)) if cond is not None else True
                    if not isinstance(c, bool):
                        c = z3.simplify(c)
                        if not (z3.is_true(c) or z3.is_false(c)):
                            if cnt >= s.eng.unroll:
                                raise Structural(f"loop without invariant at line {n.line}")
                    if not s.branch(c): return
                first = False
                cnt += 1
                if cnt > s.eng.maxiter: raise Structural("loop bound exceeded")
                try: s.st(body)
                except _Continue: pass
                except _Break: return
                if inc is not None: s.ev(inc)
        return s.cut(n, cond, inc, body, isdo, spec)

    def cut(s, n, cond, inc, body, isdo, spec):
        """Loop with an invariant: prove on entry, havoc, assume, run one iteration, prove again."""
        if isdo: raise Structural("do loop with invariant")
        eng = s.eng
        lid = n.id
        info = eng.loopinfo.setdefault(lid, {"maps": set(), "cells": set(), "missing": set(), "missing_cells": set()})
        outer = []
        for fr in s.frames:
            for c in fr["vars"].values(): outer.append(c)
        for i, c in enumerate(outer): c.idx = i
        L = Roles(s)
        entry = s.heap.clone() if s.heap.symbolic else None
        ctx = LoopCtx(s, L, entry)
        ctx.snap = {c.name: c.v for c in outer if c.name}
        cells = ctx.cells = [outer[i] for i in sorted(info["cells"]) if i < len(outer)]   # local variables the loop assigns
        for nm, f in spec["inv"](ctx):
            s.oblige(f"loop invariant on entry: {nm}", f, "inv")
        # havoc
        for c in cells:
            if spec.get("ptr") and s.tu.norm(c.qt)[0] == "ptr": c.v = spec["ptr"](ctx, c)
            else: c.v = s.havoc_value(c.qt, c.name)
        if s.heap.symbolic:
            h = s.heap
            for m in sorted(info["maps"]):
                if m == "brk":
                    nb = s.fresh("brk"); s.assume(nb >= h.brk); h.brk = nb
                else:
                    h.set(m, s.fresh(m.replace(".", "_"), h.sort(m)))
            s.auto_frame(entry, info["maps"], assume=True)
        elif spec.get("havoc"):
            spec["havoc"](ctx)
        for nm, f in spec["inv"](ctx):
            s.assume(f)
        if s.eng.vacuity and s.live:
            s.eng.reach.append((f"loop head in {s.frames[-1]['fn']}", list(s.pc)))
        v0 = spec["dec"](ctx) if spec.get("dec") else None
        lp = {"maps": info["maps"], "cells": set(cells), "outer": set(outer), "missing": info["missing"], "missing_cells": info["missing_cells"], "lid": lid}
        # evaluate the condition inside the frame of the loop
        s.loopstack.append(lp)
        c = s.tobool(s.ev(cond)) if cond is not None else True
        go = s.branch(c)
        if not go:
            s.loopstack.pop()
            if spec.get("exit"): spec["exit"](ctx)
            return
        h1 = s.heap.clone() if s.heap.symbolic else None
        try:
            s.st(body)
        except _Continue:
            pass
        except _Break:
            s.loopstack.pop()
            return
        except _Return:
            s.loopstack.pop()
            raise
        if inc is not None: s.ev(inc)
        if spec.get("step"): spec["step"](ctx)
        for nm, f in spec["inv"](ctx):
            s.oblige(f"loop invariant kept: {nm}", f, "inv")
        if s.heap.symbolic:
            s.auto_frame(entry, info["maps"], assume=False)
        if v0 is not None:
            v1 = spec["dec"](ctx)
            s.oblige("loop variant decreases", z3.And(v1 < v0, v0 >= 0), "variant")
        raise PathEnd()
    def auto_frame(s, entry, maps, assume):
        """Maps change only at bases the function may modify or that are new since function entry."""
        if s.entry is None: return
        h = s.heap
        b = z3.Int("b!f")
        for m in sorted(maps):
            if m == "brk" or m.startswith("GV."): continue
            if s.frame_mod is None: continue
            mod = s.frame_mod.get(m, [])
            if mod == "all": continue
            old = s.entry.get(m); new = h.get(m)
            f = z3.ForAll([b], z3.Implies(z3.And(b < s.entry.brk, *[b != x for x in mod]), z3.Select(new, b) == z3.Select(old, b)), patterns=[z3.Select(new, b)])
            if assume: s.assume(f)
            else: s.oblige(f"frame of {m} kept by the loop", f, "frame")
        if assume and "alive" in maps:
            s.assume(z3.ForAll([b], z3.Implies(z3.Select(h.get("alive"), b), z3.And(b > 0, b < h.brk)), patterns=[z3.Select(h.get("alive"), b)]))
        elif "alive" in maps:
            s.oblige("only issued addresses are live", z3.ForAll([b], z3.Implies(z3.Select(h.get("alive"), b), z3.And(b > 0, b < h.brk)), patterns=[z3.Select(h.get("alive"), b)]), "frame")
    def havoc_value(s, qt, nm):
        t = s.tu.norm(qt)
        if t[0] == "int":
            if s.eng.mode == "bv":
                return s.fresh(nm or "h", z3.BitVecSort(t[1]))
            v = s.fresh(nm or "h"); s.assume(s.inrange(v, t)); return v
        if t[0] == "ptr":
            if not s.heap.symbolic: raise Structural("havoc of a pointer on the concrete heap")
            v = s.fresh(nm or "p"); s.assume(z3.And(v >= 0))
            o = 0
            if s.eng.ptr_offsets and s.tu.norm(t[1])[0] == "int":
                o = s.fresh((nm or "p") + "_off")
            return P(v, o)
        raise Structural("havoc of " + qt)

class NeedMaps(Exception):
    def __init__(s, lp): s.lp = lp

class Roles:
    """Local variables by name, with an alternative binding when the name is gone (renamed local)."""
    def __init__(s, ex): s.ex = ex
    def cell(s, nm):
        alt = s.ex.eng.rolemap.get(nm)
        for fr in reversed(s.ex.frames):
            c = fr["names"].get(nm)
            if c is not None: return c
        if alt:
            for fr in reversed(s.ex.frames):
                c = fr["names"].get(alt)
                if c is not None: return c
        cands = []
        for fr in s.ex.frames:
            for k, c in fr["names"].items(): cands.append((k, c.qt))
        raise RoleMissing(nm, cands)
    def __getitem__(s, nm):
        v = s.cell(nm).v
        return v
class RoleMissing(Exception):
    def __init__(s, nm, cands): s.nm, s.cands = nm, cands

class LoopCtx:
    def __init__(s, ex, L, entry): s.ex, s.L, s.entry = ex, L, entry
    @property
    def h(s): return s.ex.heap
    def b(s, nm):
        v = s.L[nm]
        return v.b if isz(v.b) else z3.IntVal(v.b)
    def i(s, nm):
        v = s.ex.toint(s.L[nm])
        return v if isz(v) else z3.IntVal(v)

def _hasq(f):
    if z3.is_quantifier(f): return True
    st = [f]; seen = set()
    while st:
        e = st.pop()
        if e.get_id() in seen: continue
        seen.add(e.get_id())
        if z3.is_quantifier(e): return True
        st.extend(e.children())
    return False

# ---------------------------------------------------------------- engine
STOP = None        # set by the runner: true when the unit in work has used its time
class Engine:
    def __init__(s, tu, mode="int", heap="sym"):
        s.tu = tu; s.mode = mode; s.heapkind = heap
        s.contracts = {}; s.overrides = {}; s.iface = {}; s.loopspecs = {}; s.builtins = dict(BUILTINS)
        s.globals = {}
        s.obls = []; s.trivial = 0; s.work = []; s.reach = []; s.inlined = set()
        s.branch_timeout = 2000; s.check_branches = (heap != "sym"); s.skip_quant = True
        s.allow_shift = False; s.nonneg_div = True; s.table_ite = True
        s.realloc_kind = "ptr"; s.maxdepth = 40; s.unroll = 0; s.maxiter = 5000
        s.loopinfo = {}; s.rolemap = {}; s.variant = 0; s.vacuity = True; s.inline_force = None
        s.MOD = z3.Function("MOD", z3.IntSort(), z3.IntSort(), z3.IntSort())
        s.batch = False
        s.paths = 0; s.current = None; s.ptr_offsets = True; s.maxpaths = 20000
        s.deadline = None
        s.exclass = Ex
    def num(s, v, t):
        if s.mode == "bv" and s.heapkind != "sym": return z3.BitVecVal(v, t[1])
        return z3.IntVal(v)
    def strbytes(s, lit):
        """bytes of a clang string literal value (with the quotes) and the final NUL"""
        body = lit[1:-1]
        out = []; i = 0
        esc = {"n": 10, "t": 9, "r": 13, "0": 0, "\\": 92, '"': 34, "'": 39, "a": 7, "b": 8, "f": 12, "v": 11, "?": 63}
        bs = body.encode("utf-8", "surrogateescape")
        while i < len(bs):
            c = chr(bs[i])
            if c == "\\":
                d = chr(bs[i + 1])
                if d in "01234567":
                    j = i + 1
                    while j < len(bs) and j < i + 4 and chr(bs[j]) in "01234567": j += 1
                    v = int(bs[i + 1:j], 8); i = j
                elif d == "x":
                    j = i + 2
                    while j < len(bs) and chr(bs[j]) in "0123456789abcdefABCDEF" and j < i + 4: j += 1
                    v = int(bs[i + 2:j], 16); i = j
                else:
                    v = esc[d]; i += 2
                out.append(v if v < 128 else v - 256)
            else:
                out.append(bs[i] if bs[i] < 128 else bs[i] - 256); i += 1
        return out + [0]
    def ginit(s, name):
        g = s.tu.globals[name]
        init = [x for x in g.inner if x is not None]
        if not init: return GPtr(name + ".ext", 0, [])
        return s.ginit_expr(init[0], g.qt)
    def ginit_expr(s, e, qt):
        t = s.tu.norm(qt)
        if t[0] == "arr":
            if e.kind == "StringLiteral": return s.strbytes(e.value)
            xs = [s.ginit_expr(x, t[1]) for x in e.inner if x is not None and x.kind != "ImplicitValueInitExpr"]
            if getattr(e, "filler", None): pass
            z = {"ptr": NULL, "int": 0}.get(s.tu.norm(t[1])[0], 0)
            while len(xs) < t[2]: xs.append(z)
            return xs
        if t[0] == "rec":
            d = {}
            for (f, ft), x in zip(s.tu.records[t[1]], e.inner):
                d[f] = s.ginit_expr(x, ft)
            return d
        ex = Ex(s, [])
        ex.frames.append({"fn": None, "vars": {}, "names": {}, "va": []})
        return ex.ev(e)
    def loop_order(s, fname):
        """loops in static order over the body with contract-less callees inlined"""
        order = []; seen = set()
        def walk(n, stack):
            if n is None: return
            if n.kind in ("ForStmt", "WhileStmt", "DoStmt"):
                if n.id not in seen:
                    seen.add(n.id); order.append(n.id)
            if n.kind == "CallExpr":
                x = n.inner[0]
                while x.kind in ("ImplicitCastExpr", "ParenExpr"): x = x.inner[0]
                if x.ref and x.ref[0] == "FunctionDecl":
                    nm = x.ref[1]
                    for a in n.inner[1:]: walk(a, stack)
                    if nm in s.tu.funcs and nm not in s.contracts and nm not in s.overrides and nm not in stack:
                        walk(s.tu.funcs[nm], stack | {nm})
                    return
            for c in n.inner: walk(c, stack)
        walk(s.tu.funcs[fname], {fname})
        return order
    def explore(s, run, name):
        """run(ex) executes one path; explores all of them."""
        s.current = name
        while True:
            s.work = [[]]; n0 = len(s.obls); t0 = s.trivial; r0 = len(s.reach); p0 = s.paths
            try:
                while s.work:
                    d = s.work.pop()
                    s.paths += 1
                    if s.paths - p0 > s.maxpaths: raise Structural("too many paths")
                    if STOP is not None and STOP(): raise Structural("time limit of the unit")
                    if s.deadline and time.time() > s.deadline: raise Structural("out of time while generating obligations")
                    ex = s.exclass(s, d)
                    try: run(ex)
                    except PathEnd: pass
                return
            except NeedMaps as e:
                info = s.loopinfo[e.lp["lid"]]
                info["maps"] |= e.lp["missing"]; info["cells"] |= e.lp["missing_cells"]
                del s.obls[n0:]; s.trivial = t0; del s.reach[r0:]; s.paths = p0

# ---------------------------------------------------------------- library
def _b_malloc(ex, a, n): return ex.malloc(a[0])
def _b_free(ex, a, n): ex.free(a[0])
def _b_realloc(ex, a, n): return ex.realloc(a[0], a[1])
def _b_exit(ex, a, n): raise Exited(a[0])
def _b_fprintf(ex, a, n): return 0
def _b_va(ex, a, n): return None
def cchar(ex, p, i):
    q = ex.padd(p, i)
    return ex.eread(q, "char")
def _b_strlen(ex, a, n):
    p = a[0]
    if ex.heap.symbolic: raise Structural("strlen on the symbolic heap")
    i = 0
    while True:
        c = cchar(ex, p, i)
        if c is UNINIT: ex.oblige("string is terminated", False, "mem")
        if ex.branch(ex.compare("==", c, 0, ("int", 8, True))): return i
        i += 1
        if i > 5000: raise Structural("string too long")
def _b_strcmp(ex, a, n):
    p, q = a
    i = 0
    while True:
        c = cchar(ex, p, i); d = cchar(ex, q, i)
        if c is UNINIT or d is UNINIT: ex.oblige("string is terminated", False, "mem")
        T = ("int", 8, True)
        if not ex.branch(ex.compare("==", c, d, T)):
            if isinstance(c, int) and isinstance(d, int): return 1 if (c & 255) > (d & 255) else -1
            return 1
        if ex.branch(ex.compare("==", c, 0, T)): return 0
        i += 1
def _b_strcpy(ex, a, n):
    d, p = a
    i = 0
    while True:
        c = cchar(ex, p, i)
        if c is UNINIT: ex.oblige("string is terminated", False, "mem")
        ex.ewrite(ex.padd(d, i), c, "char")
        if ex.branch(ex.compare("==", c, 0, ("int", 8, True))): return d
        i += 1
def _b_memset(ex, a, n):
    d, v, k = a
    if isz(k): raise Structural("memset of symbolic length")
    for i in range(k): ex.ewrite(ex.padd(d, i), ex.wrap(v, ("int", 8, True)) if isinstance(v, int) else v, "char")
    return d
def _b_memcpy(ex, a, n):
    d, p, k = a
    if isz(k): raise Structural("memcpy of symbolic length")
    for i in range(k): ex.ewrite(ex.padd(d, i), cchar(ex, p, i), "char")
    return d
def _b_strcat(ex, a, n):
    d, p = a
    k = _b_strlen(ex, [d], n)
    _b_strcpy(ex, [ex.padd(d, k), p], n)
    return d
def _b_sprintf(ex, a, n):
    d, f = a[0], a[1]
    out = format_c(ex, cstr(ex, f), a[2:])
    for i, c in enumerate(out): ex.ewrite(ex.padd(d, i), c, "char")
    ex.ewrite(ex.padd(d, len(out)), 0, "char")
    return len(out)
def cstr(ex, p):
    bs = []
    i = 0
    while True:
        c = cchar(ex, p, i)
        if not isinstance(c, int): raise Structural("symbolic string where a concrete one is needed")
        if c == 0: return bytes(x & 255 for x in bs).decode("latin-1")
        bs.append(c); i += 1
def cchars(ex, p):
    out = []; i = 0
    while True:
        c = cchar(ex, p, i)
        if c is UNINIT: ex.oblige("string is terminated", False, "mem")
        if ex.branch(ex.compare("==", c, 0, ("int", 8, True))): return out
        out.append(c); i += 1
def format_c(ex, f, args):
    out = []; args = list(args); i = 0
    while i < len(f):
        c = f[i]
        if c != "%":
            out.append(ord(c) if ord(c) < 128 else ord(c) - 256); i += 1; continue
        m = re.match(r"%(0?)(\d*)(ll|l|h|hh)?([a-z%])", f[i:])
        if not m: raise Structural("format " + f)
        i += m.end()
        k = m.group(4)
        if k == "%": out.append(37); continue
        a = args.pop(0)
        if k == "s": t = cchars(ex, a)
        elif k == "c": t = [a if not isinstance(a, int) else Ex.wrap(a, ("int", 8, True))]
        else:
            bits = 64 if m.group(3) in ("l", "ll") else 32
            if isz(a):
                a2 = simp(a)
                if z3.is_bv_value(a2): a = a2.as_signed_long()
                elif z3.is_int_value(a2): a = a2.as_long()
            if isz(a):
                t = ex.eng.fmtnum(ex, a, k, bits)
            else:
                if k == "d": s_ = "%d" % Ex.wrap(a, ("int", bits, True))
                elif k == "u": s_ = "%d" % Ex.wrap(a, ("int", bits, False))
                elif k == "x": s_ = "%x" % Ex.wrap(a, ("int", bits, False))
                elif k == "o": s_ = "%o" % Ex.wrap(a, ("int", bits, False))
                else: raise Structural("format " + f)
                if m.group(2):
                    s_ = s_.rjust(int(m.group(2)), "0" if m.group(1) else " ")
                t = [ord(x) for x in s_]
        out.extend(t)
    return out
BUILTINS = {"malloc": _b_malloc, "free": _b_free, "realloc": _b_realloc, "exit": _b_exit, "fprintf": _b_fprintf,
            "__builtin_va_start": _b_va, "__builtin_va_end": _b_va, "strlen": _b_strlen, "strcmp": _b_strcmp, "strcpy": _b_strcpy,
            "memset": _b_memset, "memcpy": _b_memcpy, "strcat": _b_strcat, "sprintf": _b_sprintf}

"""Harness for the intermediate code generator: one node's generator is run on the node with its children by contract, and the code it emits is read back."""
import z3, os
import absx, runner
from objs import *
import objs
FILES = ["src/immcgen/immcgen.c", "src/immcgen/statement.c", "src/immcgen/external.c", "src/immcgen/declaration.c", "src/immcgen/expression.c", "src/immcgen/util.c", "src/immc/immc.c", "src/immc/inst.c", "src/immc/ope.c",
         "src/immc/label.c", "src/immc/data.c", "src/immc/register.c", "src/immc/util.c", "src/immc/suffix.c", "src/srt/srt.c", "src/dtype/dtype.c", "src/dtype/array.c", "src/dtype/enum.c", "src/dtype/function.c",
         "src/dtype/pointer.c", "src/dtype/struct.c", "src/dtype/typedef.c", "src/literal/iliteral.c", "src/literal/sliteral.c", "src/pair/pair.c", "src/error/error.c", "src/error/errint.c", "src/common/util.c", "src/common/type.c", "src/vector/vector.c"]
TRUSTED = ["clang 18 front end (AST of /repo) and the CVV symbolic executor", "z3 / cvc5", "list, map and set contracts of C01/C02 at calls of vector_*, map_*, set_*"]
_tu = None
def tu():
    global _tu
    if _tu is None: _tu = TU([f for f in FILES if os.path.exists(os.path.join(runner.REPO, f))])
    return _tu
zi = lambda v: v if isz(v) else z3.IntVal(int(v))
def mk(mode="int"):
    e = Engine(tu(), mode=mode, heap="conc"); objs.install(e); e.batch = True; o = e.overrides
    def create_label_name(ex, a): return absx.new_str(ex, zi(a[0]))
    o["create_label_name"] = create_label_name
    def child(ex, a):
        h = ex.ghost.get("child")
        return NotImplemented if h is None else h(ex, a)
    o["immcgen_generate_immcode"] = child
    return e
SUF = {1: "BYTE", 2: "WORD", 4: "LONG", 8: "QUAD"}
NB = {"NONE": 0, "BYTE": 1, "WORD": 2, "LONG": 4, "QUAD": 8}
UNSIGNED = {"UNSIGNED_INT", "UNSIGNED_LONG", "UNSIGNED_LONGLONG"}
def nbytes(d): 
    if d[0] == "ARRAY": return d[2] * nbytes(d[1])
    if d[0] == "STRUCT": return d[3]
    return SIZE[d[0]]
class W:
    """immcgen on a node; kids: list of dict(kind, dtype, ...) or prebuilt pointers"""
    def __init__(s, ex, srt, **kw):
        s.ex = ex; s.E = ex.tu.enums; s.srt = srt; s.calls = []; s.regs = 0
        s.lab0 = ex.fresh("label_id") if ex.eng.mode == "int" else 40
        if isz(s.lab0): ex.assume(z3.And(s.lab0 >= 0, s.lab0 < 2**28))
        s.brk, s.cont, s.retl, s.dfl = 3, 4, 0, ex.fresh("default_label_id") if ex.eng.mode == "int" else 7
        if isz(s.dfl): ex.assume(z3.And(s.dfl >= -1, s.dfl < 2**28))
        s.sp, s.tp = opaque(ex, "symboltable", "sp"), opaque(ex, "tagtable", "tp")
        s.cases = absx.new_vec(ex, [], G(ex, "t_pair"))
        s.reg0 = 20
        f = dict(srt=srt, symbol_table=s.sp, tag_table=s.tp, expr_reg_suffix=0, expr_reg=NULL, next_reg_id=s.reg0, initialized_dtype=NULL, initialized_offset=-1, continue_label_id=s.cont, break_label_id=s.brk, return_label_id=s.retl,
                 case_label_values=s.cases, default_label_id=s.dfl, label_id=s.lab0)
        f.update(kw); s.g = rec(ex, "Immcgen", **f); s.init = dict(f); s.kids = {}; s.ranges = []; s.hook = {}
        ex.ghost["child"] = s.child; s.depth = 0
    @property
    def f(s): return s.ex.heap.objs[s.g.b].fields
    def kid(s, p, name, **kw): s.kids[p.b] = dict(name=name, p=p, **kw); return p
    def marker(s, name):
        p = rec(s.ex, "Immc", type=s.E["IMMC_INST"], inst=NULL, data=NULL, label=NULL); s.ex.heap.objs[p.b].tag = ["mark", name]; return p
    def child(s, ex, a):
        f = s.f; cur = f["srt"]
        k = s.kids.get(cur.b) if isinstance(cur, P) else None
        if k is None and isinstance(cur, P) and s.hook.get("named"):      # a copy of the tree of a part
            nm = ex.obj(cur.b, "tree").fields.get("ident_name", NULL)
            if not isn(nm): k = next((x for x in s.kids.values() if x["name"] == strid(ex, nm)), None)
        if k is None:
            if cur == s.srt and s.depth == 0: s.depth = 1; return NotImplemented
            if cur.b in s.hook.get("real", ()): return NotImplemented
            ex.oblige("only parts of the node are translated", False, "post")
        name = k["name"]; s.last = k
        ex.oblige(f"{name} is translated in the scope of the node", f["symbol_table"] == s.sp and f["tag_table"] == s.tp, "post")
        s.calls.append((name, {x: f[x] for x in ("break_label_id", "continue_label_id", "return_label_id", "case_label_values", "default_label_id")}))
        lo = f["label_id"]
        codes = k["gen"](ex, s, k) if k.get("gen") else [s.marker(name)]
        if not k.get("gen"):
            n = ex.fresh("n") if ex.eng.mode == "int" else 3
            if isz(n): ex.assume(z3.And(n >= 1, n < 1000))
            f["label_id"] = lo + n
            if k.get("tail"):     # code ending in a label of its own
                codes.append(s.label(lo + 1))
        s.ranges.append((lo, f["label_id"]))
        if "dtype" in k:
            d = k["dtype"]
            if d[0] == "VOID": f["expr_reg_suffix"] = 0; f["expr_reg"] = NULL
            else:
                f["next_reg_id"] = f["next_reg_id"] + 2; k["reg"] = f["next_reg_id"]
                k["uns"] = d[0] in UNSIGNED or d[0] == "POINTER" and bool(k.get("puns", 0))
                f["expr_reg_suffix"] = s.E["IMMC_SUFFIX_" + SUF[nbytes(d)]]; f["expr_reg"] = rec(ex, "ImmcRegister", reg_id=k["reg"], is_unsigned=int(k["uns"]))
                k["evals"] = k.get("evals", 0) + 1
        return absx.new_vec(ex, codes, G(ex, "t_immc"))
    def label(s, i):
        return rec(s.ex, "Immc", type=s.E["IMMC_LABEL"], inst=NULL, data=NULL, label=rec(s.ex, "ImmcLabel", type=s.E["IMMC_LABEL_NORMAL"], visibility=s.E["IMMC_VIS_NONE"], name=absx.new_str(s.ex, zi(i))))
    def run(s):
        r = s.ex.call(FnVal("immcgen_generate_immcode"), [s.g], None)
        s.codes = absx.vec(s.ex, r)[1]
        s.prog = [s.read(c) for c in s.codes]
        return s.prog
    def restored(s, also=()):
        ex = s.ex; f = s.f
        for x in ("srt", "symbol_table", "tag_table", "continue_label_id", "break_label_id", "return_label_id", "case_label_values", "default_label_id") :
            if x in also: continue
            ex.oblige(f"{x} is as before", same(ex, f[x], s.init[x]) if not isinstance(f[x], P) else f[x] == s.init[x], "post")
        ex.oblige("label numbers only grow", zi(f["label_id"]) >= zi(s.lab0), "post")
        ex.oblige("register numbers only grow", f["next_reg_id"] >= s.reg0, "post")
        # labels defined by this node itself
        own = [c[1] for c in s.prog if c[0] == "label" and c[2] not in s.kidlabels()]
        for i, l in enumerate(own):
            if not isz(l): ex.oblige("a label of the node is numbered", False, "post")
            ex.oblige("a label defined here is a new one", z3.And(l > zi(s.lab0), l <= zi(f["label_id"])), "post")
            for m in own[:i]: ex.oblige("no label is defined twice", l != m, "post")
            for lo, hi in s.ranges: ex.oblige("no label of a part is defined again", z3.Or(l <= zi(lo), l > zi(hi)), "post")
    def kidlabels(s): return s.hook.get("kidlabels", set())
    # ---- reading code
    def read(s, c):
        ex = s.ex; o = ex.obj(c.b, "code")
        if isinstance(o.tag, list) and o.tag[0] == "mark": return ("mark", o.tag[1])
        f = o.fields; t = f["type"]
        if t == s.E["IMMC_LABEL"]:
            l = ex.obj(f["label"].b, "label").fields; return ("label", strid(ex, l["name"]), c.b)
        if t == s.E["IMMC_DATA"]: return ("data", c)
        i = ex.obj(f["inst"].b, "instruction").fields
        nm = next(k for k, v in s.E.items() if k.startswith("IMMC_INST_") and v == i["type"])[10:]
        return ("inst", nm, s.ope(i["dst"]), s.ope(i["fst_src"]), s.ope(i["snd_src"]))
    def ope(s, p):
        ex = s.ex
        if isn(p): return None
        f = ex.obj(p.b, "operand").fields; E = s.E
        k = next(x for x, v in E.items() if x.startswith("IMMC_OPERAND_") and v == f["type"])[13:]
        suf = next((x for x, v in E.items() if x.startswith("IMMC_SUFFIX_") and v == f.get("suffix")), "IMMC_SUFFIX_NONE")[12:]
        if k in ("REG", "PTR", "ARG"):
            r = ex.obj(f["reg"].b, "register").fields; return (k, suf, r["reg_id"], r["is_unsigned"])
        if k == "INT":
            l = ex.obj(f["iliteral"].b, "literal").fields
            t = next(x for x, v in E.items() if x.startswith("INTEGER_") and v == l["type"])[8:]
            return (k, suf, l["unsigned_value"] if t.startswith("UNSIGNED") else l["signed_value"], t)
        if k == "MEM": return (k, suf, f["mem_offset"])
        if k == "LABEL": return (k, suf, strid(ex, f["label_name"]))
        return (k, suf, f.get("sliteral"))

# ---------------------------------------------------------------- control flow of a statement against C
NEG = {"EQ": "NEQ", "NEQ": "EQ", "LT": "GEQ", "GEQ": "LT", "GT": "LEQ", "LEQ": "GT"}
SWAP = {"EQ": "EQ", "NEQ": "NEQ", "LT": "GT", "GT": "LT", "LEQ": "GEQ", "GEQ": "LEQ"}
OPN = {"EQUAL": "EQ", "NEQUAL": "NEQ", "LESS": "LT", "GREATER": "GT", "LESSEQ": "LEQ", "GREATEREQ": "GEQ"}
def leq(a, b):
    if isz(a) and isz(b): return z3.simplify(a - b).eq(z3.IntVal(0)) if a.sort() == z3.IntSort() else a.eq(b)
    return a is not None and not isz(a) and not isz(b) and a == b
class Flow:
    """runs the emitted code against a reference machine.  ref: generator function of the reference state: ref(state) -> ("do", name, {outcome: state}) |
    ("cond", cond, state if true, state if false) | ("exit", where);  explores every pair of (code position, reference state): no bound on iterations"""
    def __init__(s, w, ref, outs): s.w, s.ex, s.ref, s.outs = w, w.ex, ref, outs
    def target(s, l):
        for i, c in enumerate(s.w.prog):
            if c[0] == "label" and leq(c[1], l): return i
        return ("outer", l)
    def norm(s, pos, regs):
        """follow labels and jumps; -> position of an event, or ("end",) / ("outer", label)"""
        seen = 0
        while True:
            if isinstance(pos, tuple): return pos, regs
            if pos >= len(s.w.prog): return ("end",), regs
            c = s.w.prog[pos]
            if c[0] == "label": pos += 1
            elif c[0] == "inst" and c[1] == "JMP": pos = s.target(c[2][2]) if c[2] is not None and c[2][0] == "LABEL" else ("bad", c)
            elif c[0] == "inst" and c[1] == "LOAD" and c[2][0] == "REG" and c[3][0] == "INT" and not isz(c[3][2]):
                regs = dict(regs); regs[c[2][2]] = ("const", c[3][2]); pos += 1
            elif c[0] == "inst" and c[1].startswith("J") and c[3] is not None and c[3][0] == "REG" and regs.get(c[3][2], ("",))[0] == "const" and c[4][0] == "INT":
                a, b = regs[c[3][2]][1], c[4][2]; op = c[1][1:]
                t = {"EQ": a == b, "NEQ": a != b, "LT": a < b, "GT": a > b, "LEQ": a <= b, "GEQ": a >= b}[op]
                pos = s.target(c[2][2]) if t else pos + 1
            else: return pos, regs
            seen += 1
            if seen > 4 * len(s.w.prog) + 8: return ("loop",), regs
    def check(s, start):
        ex = s.ex; todo = [(0, (), start)]; done = set(); n = 0
        while todo:
            pos, regs, st = todo.pop()
            pos, rg = s.norm(pos, dict(regs)); regs = tuple(sorted(rg.items(), key=lambda x: str(x[0])))
            st = s.skip(st)
            key = (pos if not isinstance(pos, tuple) else str(pos), regs, str(st))
            if key in done: continue
            done.add(key); n += 1
            if n > 3000: raise Structural("control flow too large")
            r = s.ref(st)
            if r[0] == "exit":
                want = r[1]
                if want == "end": ex.oblige(f"{s.w.what}: afterwards control continues behind the statement", pos == ("end",), "post")
                else: ex.oblige(f"{s.w.what}: control leaves to the {want} target", isinstance(pos, tuple) and pos[0] == "outer" and leq(pos[1], zi(s.outs[want])), "post")
                continue
            if isinstance(pos, tuple): ex.oblige(f"{s.w.what}: the code goes on where C does ({r[:2]})", False, "post"); continue
            c = s.w.prog[pos]
            if r[0] == "do":
                ok = c[0] == "mark" and c[1] == r[1]
                ex.oblige(f"{s.w.what}: {r[1]} runs when C runs it", ok, "post")
                if not ok: continue
                for out, nx in r[2].items():
                    if out == "next": todo.append((pos + 1, regs, nx))
                    else:
                        lab = s.w.callinfo(r[1])[out + "_label_id"]; todo.append((s.target(zi(lab)), regs, nx))
                continue
            if r[0] == "store":      # the value of an evaluated part handed on by an instruction
                ok = c[0] == "inst" and c[1] == r[1] and r[2](c)
                ex.oblige(f"{s.w.what}: {r[1]} with the value computed", ok, "post")
                if ok: todo.append((pos + 1, regs, r[3]))
                continue
            # a condition: parts evaluated, then one conditional jump
            cond = r[1]; p2 = pos; evs = []
            ok = True
            for e in cond["parts"]:
                p2, rg = s.norm(p2, rg)
                if isinstance(p2, tuple) or s.w.prog[p2] != ("mark", e): ok = False; break
                p2 += 1
            if ok: p2, rg = s.norm2(p2, rg)
            j = s.w.prog[p2] if ok and not isinstance(p2, tuple) and p2 < len(s.w.prog) else None
            ok = ok and j is not None and j[0] == "inst" and j[1][0] == "J" and j[1] != "JMP"
            ex.oblige(f"{s.w.what}: the condition is evaluated and decides", ok, "post")
            if not ok: continue
            op = j[1][1:]; a, b = s.val(j[3], rg), s.val(j[4], rg)
            want_op, wa, wb = cond["op"], cond["a"], cond["b"]
            m = None
            if s.vis(a, wa) and s.vis(b, wb): m = op
            elif s.vis(b, wa) and s.vis(a, wb): m = SWAP[op]
            ex.oblige(f"{s.w.what}: the condition compares its operands", m is not None, "post")
            if m is None: continue
            ex.oblige(f"{s.w.what}: the condition is decided as written", m in (want_op, NEG[want_op]), "post")
            if m not in (want_op, NEG[want_op]): continue
            ex.oblige(f"{s.w.what}: operands are compared at their width", j[3][1] == j[4][1] == cond["suffix"], "post")
            for o_, uns in ((j[3], cond["uns"][0]), (j[4], cond["uns"][1])):
                if o_[0] == "REG" and uns is not None: ex.oblige(f"{s.w.what}: operands are compared with their signedness", bool(o_[3]) == uns, "post")
            tk, nt = s.target(j[2][2]), p2 + 1
            t, f_ = (tk, nt) if m == want_op else (nt, tk)
            todo.append((t, regs, r[2])); todo.append((f_, regs, r[3]))
        s.ex.eng.reach.append(("flow", list(ex.pc)))
        return n
    def norm2(s, pos, rg):
        """constants loaded between the parts and the jump"""
        while pos < len(s.w.prog):
            c = s.w.prog[pos]
            if c[0] == "inst" and c[1] == "LOAD" and c[2][0] == "REG" and c[3][0] == "INT" and not isz(c[3][2]): rg = dict(rg); rg[c[2][2]] = ("const", c[3][2]); pos += 1
            else: break
        return pos, rg
    def val(s, o, rg):
        if o is None: return None
        if o[0] == "INT": return ("const", o[2])
        if o[0] == "REG": return rg.get(o[2], ("reg", o[2]))
        return ("?", o)
    def vis(s, v, want): return v == want
    def skip(s, st):
        while True:
            r = s.ref(st)
            if r[0] == "goto": st = r[1]
            else: return st

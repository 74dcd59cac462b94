"""C16: statements run their parts in the order and under the conditions C prescribes."""
import z3, runner, itertools
import absx, objs, e2e, flowgen, scopegen
from objs import *
import imm_spec as M
import scope_spec as S
import resolve_spec as R
from imm_spec import W, Flow, zi, SUF, UNSIGNED, OPN, nbytes
META = dict(technique="contract-based deductive verification (CVV: VCs from the clang AST of /repo, z3/cvc5); each statement's generator is run with its parts by contract and the emitted control flow is compared, state by state, with C's (every outcome, any number of iterations)",
            level_note="every statement kind, every kind of condition (any expression, the six relations, constants), parts that fall through, break, continue or return, with and without a trailing label; switch bodies up to 3 labels; blocks up to 3 parts; label numbers symbolic")
TRUSTED = M.TRUSTED + ["meaning of the intermediate jumps as proved for their machine code in C13"]
ASSUMPTIONS = ["parts of a statement are translated by contract (induction over the tree): they only jump to labels of their own or to the current break, continue and return targets", "label names are distinct for distinct numbers (C21)",
               "a case value beyond the width of the switched value is not converted to the promoted type first (the source of such a label is outside the supported subset)"]
CT = [("INT",), ("CHAR",), ("UNSIGNED_INT",), ("LONG",), ("UNSIGNED_LONG",), ("POINTER", ("INT",))]
def ident(ex, name, d): return mksrt(ex, "IDENT_EXPR", d, ident=name)
def lit(ex, v, d=("INT",)):
    return mksrt(ex, "ILITERAL_EXPR", d, il=rec(ex, "IntegerLiteral", type=ex.tu.enums["INTEGER_INT"], signed_value=v, unsigned_value=0))
def conds():
    r = [("expr", d) for d in CT] + [("lit", 0), ("lit", 1), ("lit", 300)]
    r += [("rel", op, d, k) for op in OPN for d in (("INT",), ("UNSIGNED_LONG",)) for k in ("expr", "lit")] + [("rel", "LESS", ("INT",), "litfirst")]
    return r
def mkcond(ex, w_kids, c, pre="cond"):
    """-> (srt, description)"""
    if c[0] == "expr":
        p = ident(ex, pre, c[1]); w_kids.append((p, pre, dict(dtype=c[1])))
        return p, c
    if c[0] == "lit": return lit(ex, c[1]), c
    a = ident(ex, pre + " left", c[2]) if c[3] != "litfirst" else lit(ex, 5, c[2]); b = ident(ex, pre + " right", c[2]) if c[3] != "lit" else lit(ex, 9, c[2])
    if c[3] != "litfirst": w_kids.append((a, pre + " left", dict(dtype=c[2])))
    if c[3] != "lit": w_kids.append((b, pre + " right", dict(dtype=c[2])))
    return mksrt(ex, c[1] + "_EXPR", ("INT",), [a, b]), c
def cinfo(w, c, pre="cond"):
    kid = lambda n: next(k for k in w.kids.values() if k["name"] == n)
    if c[0] == "expr":
        k = kid(pre); return dict(parts=[pre], op="NEQ", a=("reg", k["reg"]), b=("const", 0), suffix=SUF[nbytes(c[1])], uns=(None, None))
    d = c[2]; a = ("const", 5) if c[3] == "litfirst" else ("reg", kid(pre + " left")["reg"]); b = ("const", 9) if c[3] == "lit" else ("reg", kid(pre + " right")["reg"])
    u = d[0] in UNSIGNED
    return dict(parts=([pre + " left"] if c[3] != "litfirst" else []) + ([pre + " right"] if c[3] != "lit" else []), op=OPN[c[1]], a=a, b=b, suffix=SUF[nbytes(d)], uns=(u, u))
def branch(w, c, t, f, pre="cond"):
    if c[0] == "lit": return ("goto", t if c[1] else f)
    return ("cond", cinfo(w, c, pre), t, f)
def world(ex, what, srt, kids, **kw):
    w = W(ex, srt, **kw); w.what = what
    for p, n, k in kids: w.kid(p, n, **k)
    w.callinfo = lambda n: next(c[1] for c in w.calls if c[0] == n)
    return w
def stmt(ex, kids, name, tail=0):
    p = mksrt(ex, "NULL_STMT", None); kids.append((p, name, dict(tail=tail))); return p
JUMPS = {"break": "break", "continue": "continue", "return": "return"}
def part(name, nx, brk="break", cont="continue"):
    """a sub-statement: falls through or leaves"""
    return ("do", name, {"next": nx, "break": brk, "continue": cont, "return": "return"})
def outer(st):
    if st == "end": return ("exit", "end")
    if st in ("break", "continue", "return"): return ("exit", st)
    return None
def finish(ex, w, ref, start="start"):
    prog = w.run()
    # labels inside the parts' own code
    w.hook["kidlabels"] = {c[2] for c in prog if c[0] == "label" and any(z3.simplify(c[1] - zi(lo) - 1).eq(z3.IntVal(0)) for lo, hi in w.ranges) and w.tails.get(str(z3.simplify(c[1])))} if hasattr(w, "tails") else set()
    w.restored()
    Flow(w, ref, {"break": w.brk, "continue": w.cont, "return": w.retl}).check(start)
def tailset(w, kids):
    """labels that end the code of a part"""
    w.tails = {}
    orig = w.label
    def label(i):
        p = orig(i); w.tails[str(z3.simplify(zi(i)))] = 1; return p
    w.label = label
def h_if(c, els, t1, t2):
    def h(ex):
        kids = []; cs, _ = mkcond(ex, kids, c); ch = [cs, stmt(ex, kids, "then part", t1)]
        if els: ch.append(stmt(ex, kids, "else part", t2))
        w = world(ex, "if", mksrt(ex, "IF_STMT", None, ch), kids); tailset(w, kids)
        def ref(st):
            if st == "start": return branch(w, c, "then", "else")
            if st == "then": return part("then part", "end")
            if st == "else": return part("else part", "end") if els else ("goto", "end")
            return outer(st)
        finish(ex, w, ref)
    return h
def h_while(c, t1):
    def h(ex):
        kids = []; cs, _ = mkcond(ex, kids, c); w = world(ex, "while", mksrt(ex, "WHILE_STMT", None, [cs, stmt(ex, kids, "body", t1)]), kids); tailset(w, kids)
        def ref(st):
            if st == "start": return branch(w, c, "body", "end")
            if st == "body": return part("body", "start", "end", "start")
            return outer(st)
        finish(ex, w, ref)
    return h
def h_for(c, t1, t2):
    """c None: no condition"""
    def h(ex):
        kids = []; init = stmt(ex, kids, "init", t1)
        if c is None: cs = mksrt(ex, "NULL_STMT", None)
        else: e, _ = mkcond(ex, kids, c); cs = mksrt(ex, "EXPR_STMT", None, [e])
        step = stmt(ex, kids, "step", 0); body = stmt(ex, kids, "body", t2)
        w = world(ex, "for", mksrt(ex, "FOR_STMT", None, [init, cs, step, body]), kids); tailset(w, kids)
        ex.eng.overrides.update(symboltable_enter_scope=lambda ex, a: a[0], symboltable_exit_scope=lambda ex, a: a[0], tagtable_enter_scope=lambda ex, a: a[0], tagtable_exit_scope=lambda ex, a: a[0])
        def ref(st):
            if st == "start": return ("do", "init", {"next": "test"})
            if st == "test": return ("goto", "body") if c is None else branch(w, c, "body", "end")
            if st == "body": return part("body", "step", "end", "step")
            if st == "step": return ("do", "step", {"next": "test"})
            return outer(st)
        finish(ex, w, ref)
    return h
def h_switch(d, layout, litv=None):
    """layout: string over 1 2 3 (cases) and d (default) and s (a statement): the body as its parts lay it out"""
    VAL = {"1": 3, "2": 0, "3": 70000}
    def h(ex):
        kids = []
        if litv is None: cs = ident(ex, "value", d); kids.append((cs, "value", dict(dtype=d)))
        else: cs = lit(ex, litv)
        body = mksrt(ex, "CMPD_STMT", None)
        def gen(ex, s, k):
            f = s.f; codes = []; n = 0; lo = f["label_id"]
            ex.oblige("switch: the body starts with no labels of its own", absx.vec(ex, f["case_label_values"])[1] == [] and f["case_label_values"] != s.cases, "post")
            s.lb = {}
            for x in layout:
                if x == "s": codes.append(s.marker(f"section {n}")); s.secs.append(n); s.kids[-1 - n] = dict(name=f"section {n}"); s.calls.append((f"section {n}", dict(s.calls[-1][1]))); n += 1; continue
                f["label_id"] = f["label_id"] + 1; l = f["label_id"]; s.lb[x] = l
                if x == "d": f["default_label_id"] = l
                else:
                    il = rec(ex, "IntegerLiteral", type=ex.tu.enums["INTEGER_INT"], signed_value=VAL[x], unsigned_value=0)
                    b = ex.heap.new(4); ex.heap.objs[b].elems = {0: l}
                    absx.vec(ex, f["case_label_values"])[1].append(rec(ex, "Pair", t_first=G(ex, "t_integer"), t_second=G(ex, "t_iliteral"), first=P(b, 0), second=il))
                codes.append(s.label(l))
            return codes
        kids.append((body, "body", dict(gen=gen)))
        w = world(ex, "switch", mksrt(ex, "SWITCH_STMT", None, [cs, body]), kids); w.secs = []; tailset(w, kids)
        def entry(x):
            i = layout.index(x); n = layout[:i].count("s")
            return ("sec", n)
        secs = layout.count("s")
        prog = w.run(); w.hook["kidlabels"] = {c[2] for c in prog if c[0] == "label" and w.tails.get(str(z3.simplify(c[1])))}; w.restored()
        def ref(st):
            if isinstance(st, tuple) and st[0] == "sec":
                if st[1] >= secs: return ("goto", "end")
                return part(f"section {st[1]}", ("sec", st[1] + 1), "end", "continue")
            return outer(st)
        fl = Flow(w, ref, {"break": w.brk, "continue": w.cont, "return": w.retl})
        # dispatch: for every value, where the comparisons lead
        pos = 0
        if litv is None:
            ex.oblige("switch: the value is computed once, first", len(prog) > 0 and prog[0] == ("mark", "value") and sum(c == ("mark", "value") for c in prog) == 1, "post"); pos = 1
        cases = [x for x in layout if x in VAL]
        for v in ([VAL[x] for x in cases] + [12345] if litv is None else [litv]):
            p = pos; regs = {} if litv is None else {}
            if litv is None: regs[w.kids[cs.b]["reg"]] = ("const", v)
            q = p; steps = 0
            while isinstance(q, int) and q < len(prog) and steps < 50:
                c = prog[q]; steps += 1
                if c[0] == "inst" and c[1] in ("JEQ", "JNEQ") and c[3][0] == "REG":
                    ex.oblige("switch: the value itself is compared", c[3][2] in regs, "post")
                    if litv is None: ex.oblige("switch: the value is compared at its width", c[3][1] == SUF[nbytes(d)], "post")
                    ex.oblige("switch: compared with a constant", c[4][0] == "INT", "post")
                    t = (regs[c[3][2]][1] == c[4][2]) == (c[1] == "JEQ"); q = fl.target(c[2][2]) if t else q + 1
                elif c[0] == "inst" and c[1] == "LOAD" and c[3][0] == "INT": regs[c[2][2]] = ("const", c[3][2]); q += 1
                elif c[0] == "inst" and c[1] == "JMP": q = fl.target(c[2][2])
                elif c[0] == "label": q += 1
                else: break
            hit = next((x for x in cases if VAL[x] == v), None)
            st = entry(hit) if hit else entry("d") if "d" in layout else "end"
            # continue from q against the reference
            f2 = Flow(w, ref, fl.outs); f2.w = w
            f2_check(ex, f2, q if not (isinstance(q, int) and q >= len(prog)) else q, st)
    return h
def f2_check(ex, fl, pos, st):
    old = fl.check
    # start the product walk at a given position
    prog = fl.w.prog; w = fl.w
    class V: pass
    v = V(); v.__dict__.update(w.__dict__)
    v.prog = prog; v.callinfo = w.callinfo; v.what = "switch"
    f = Flow(v, fl.ref, fl.outs); v.ex = ex
    lab = ("label", z3.IntVal(-99), -99)
    if isinstance(pos, tuple): v.prog = prog; f2 = None
    off = [("inst", "JMP", ("LABEL", "NONE", z3.IntVal(-98)), None, None)]
    if isinstance(pos, tuple):
        ex.oblige("switch: the comparisons stay inside the statement", False, "post"); return
    v.prog = off + prog[:pos] + [("label", z3.IntVal(-98), -98)] + prog[pos:]
    f.check(st)
def h_case(dflt, tail):
    def h(ex):
        kids = []; s = stmt(ex, kids, "statement", tail)
        il = rec(ex, "IntegerLiteral", type=ex.tu.enums["INTEGER_INT"], signed_value=17, unsigned_value=0)
        cv = mksrt(ex, "ILITERAL_EXPR", ("INT",), il=il)
        w = world(ex, "label", mksrt(ex, "DEFAULT_STMT" if dflt else "CASE_STMT", None, [s] if dflt else [cv, s]), kids); tailset(w, kids)
        prog = w.run(); w.hook["kidlabels"] = {c[2] for c in prog if c[0] == "label" and w.tails.get(str(z3.simplify(c[1])))}
        w.restored(also=("default_label_id",) if dflt else ())
        ex.oblige("a label is placed before its statement", len(prog) >= 2 and prog[0][0] == "label" and prog[1] == ("mark", "statement"), "post")
        cs = absx.vec(ex, w.cases)[1]
        if dflt:
            ex.oblige("the default label is the one placed", leq_(w.f["default_label_id"], prog[0][1]) and cs == [], "post")
        else:
            ex.oblige("one case is added", len(cs) == 1, "post")
            f = ex.obj(cs[0].b, "pair").fields
            ex.oblige("the case's label is the one placed", leq_(ex.eread(f["first"], "int"), prog[0][1]), "post")
            l = ex.obj(f["second"].b, "literal").fields
            ex.oblige("the case's value is the one written", l["signed_value"] == 17 and l["type"] == ex.tu.enums["INTEGER_INT"] and f["second"] != il, "post")
        def ref(st):
            if st == "start": return part("statement", "end")
            return outer(st)
        Flow(w, ref, {"break": w.brk, "continue": w.cont, "return": w.retl}).check("start")
    return h
leq_ = lambda a, b: M.leq(zi(a), zi(b))
def h_jump(kind, target):
    def h(ex):
        w = world(ex, kind, mksrt(ex, kind, None), [])
        finish(ex, w, lambda st: ("exit", target) if st == "start" else outer(st))
    return h
def h_ret(k):
    def h(ex):
        kids = []
        if k is None: ch = []
        elif k[0] == "lit": ch = [lit(ex, k[1])]
        else: p = ident(ex, "value", k); kids.append((p, "value", dict(dtype=k))); ch = [p]
        w = world(ex, "return", mksrt(ex, "RET_STMT", None, ch), kids)
        def ok(c):
            s = c[3]
            if k[0] == "lit": return s is not None and s[0] == "INT" and s[2] == k[1] and s[1] == "LONG"
            kk = w.kids[ch[0].b]
            return s is not None and s[0] == "REG" and s[2] == kk["reg"] and s[1] == SUF[nbytes(k)] and bool(s[3]) == kk["uns"]
        def ref(st):
            if st == "start": return ("goto", "ret") if k is None else ("goto", "store") if k[0] == "lit" else ("do", "value", {"next": "store"})
            if st == "store": return ("store", "STRET", ok, "ret")
            if st == "ret": return ("exit", "return")
            return outer(st)
        finish(ex, w, ref)
    return h
def h_seq(kind, n, names):
    def h(ex):
        kids = []
        if kind == "EXPR_STMT": p = ident(ex, "expression", ("INT",)); kids.append((p, "expression", dict(dtype=("INT",)))); ch = [p]
        else: ch = [stmt(ex, kids, nm, i % 2) for i, nm in enumerate(names)]
        w = world(ex, kind, mksrt(ex, kind, None, ch), kids); tailset(w, kids)
        ex.eng.overrides.update(symboltable_enter_scope=lambda ex, a: a[0], symboltable_exit_scope=lambda ex, a: a[0], tagtable_enter_scope=lambda ex, a: a[0], tagtable_exit_scope=lambda ex, a: a[0])
        def ref(st):
            if isinstance(st, int):
                if st == len(names): return ("goto", "end")
                return ("do", names[st], {"next": st + 1}) if kind == "EXPR_STMT" else part(names[st], st + 1)
            return outer(st)
        finish(ex, w, ref, 0)
    return h
def many(cases):
    def h(ex):
        i = ex.choose(len(cases)); ex.ghost["case"] = cases[i][0]; cases[i][1](ex)
    return h
def units():
    cs = conds()
    u = [("if without else", many([(str((c, t)), h_if(c, 0, t, 0)) for c in cs for t in (0, 1)]))]
    u += [("if with else", many([(str((c, t)), h_if(c, 1, t, t2)) for c in cs for t in (0, 1) for t2 in (0, 1)]))]
    u += [("while", many([(str((c, t)), h_while(c, t)) for c in cs for t in (0, 1)])), ("for", many([(str((c, t)), h_for(c, t, t)) for c in cs + [None] for t in (0, 1)]))]
    lay = ["", "s", "1s", "ds", "1s2s", "1sds", "ds1s", "12s", "1ds", "d1s2s", "1s2s3s", "1sds2s", "s1s", "1", "d", "1s2", "3s1sd2s"]
    u += [("switch", many([(str((d, l)), h_switch(d, l)) for d in (("INT",), ("LONG",), ("UNSIGNED_INT",)) for l in lay] + [(f"lit {v} {l}", h_switch(("INT",), l, v)) for v in (3, 5) for l in lay]))]
    u += [("case", many([(str(t), h_case(0, t)) for t in (0, 1)])), ("default", many([(str(t), h_case(1, t)) for t in (0, 1)]))]
    u += [("break", h_jump("BREAK_STMT", "break")), ("continue", h_jump("CONTINUE_STMT", "continue")), ("null statement", h_jump("NULL_STMT", "end"))]
    u += [("return", many([(str(k), h_ret(k)) for k in [None, ("lit", 0), ("lit", 300)] + CT]))]
    u += [("expression statement", h_seq("EXPR_STMT", 1, ["expression"])), ("block", many([(str(n), h_seq("CMPD_STMT", n, [f"part {i}" for i in range(n)])) for n in (0, 1, 2, 3)]))]
    return u
# ---------------------------------------------------------------- the resolver: which statements are legal where, and what their parts see
def h_rstmt(kind, loop, sw, dflt, cond=("INT",), val=5, prev=(3,), rd=("INT",)):
    """sw: 1 inside a switch (with the case values prev), 0 not; loop: inside a loop"""
    SH = {"IF_STMT": "ESS", "WHILE_STMT": "ES", "FOR_STMT": "SSSS", "SWITCH_STMT": "ES", "CASE_STMT": "ES", "DEFAULT_STMT": "S", "CMPD_STMT": "SDS", "RET_STMT": "E", "EXPR_STMT": "E", "NULL_STMT": "", "BREAK_STMT": "", "CONTINUE_STMT": ""}
    sh = SH[kind]
    def h(ex):
        E = ex.tu.enums; il = lambda v: rec(ex, "IntegerLiteral", type=E["INTEGER_INT"], signed_value=v, unsigned_value=0)
        sp, tp = S.scopes(ex); shn = sh
        if kind == "IF_STMT" and ex.choose(2): shn = "ES"
        if kind == "RET_STMT" and ex.choose(2): shn = ""
        ast = mkast(ex, kind, [mkast(ex, "DECL" if k == "D" else "NULL_STMT" if k == "S" else "IDENT_EXPR", ident=f"k{i}") for i, k in enumerate(shn)])
        kp = list(absx.vec(ex, ex.heap.objs[ast.b].fields["children"])[1])
        cases = absx.new_vec(ex, [il(v) for v in prev], G(ex, "t_iliteral")) if sw else NULL
        r = S.resolver(ex, ast, sp, tp, inside_loop=loop, switch_cases=cases, switch_default_exists=dflt, return_dtype=dt(ex, rd))
        rf = lambda: ex.heap.objs[r.b].fields
        top = [1]; failed = [0]; seen = []; trees = []
        vals = lambda p: [ex.obj(x.b, "literal").fields["signed_value"] for x in absx.vec(ex, p)[1]]
        def child(what):
            def f(ex, a):
                if what == "S" and top[0]: top[0] = 0; return NotImplemented
                cur = rf()["ast"]; i = next((j for j, p in enumerate(kp) if p == cur), None)
                ex.oblige("a part of the statement is resolved", i is not None, "post"); seen.append(i); F = rf(); w = f"{kind}, part {i}"
                body = {"WHILE_STMT": 1, "FOR_STMT": 3}.get(kind) == i
                ex.oblige(f"{w}: loops are known as such", bool(F["inside_loop"]) == bool(loop or body), "post")
                if kind == "SWITCH_STMT" and i == 1: ex.oblige(f"{w}: the switch starts without labels", not isn(F["switch_cases"]) and F["switch_cases"] != cases and vals(F["switch_cases"]) == [] and not F["switch_default_exists"], "post"); absx.vec(ex, F["switch_cases"])[1].append(il(77)); F["switch_default_exists"] = 1
                elif sw: ex.oblige(f"{w}: the labels of the enclosing switch are known", F["switch_cases"] == cases and vals(cases) == list(prev) + ([val] if kind == "CASE_STMT" and i == 1 else []) and bool(F["switch_default_exists"]) == bool(dflt or kind == "DEFAULT_STMT"), "post")
                else: ex.oblige(f"{w}: outside a switch no label is allowed", isn(F["switch_cases"]), "post")
                if ex.choose(2): failed[0] = 1; return S.reterr(ex)
                if what == "E":
                    t = mksrt(ex, "ILITERAL_EXPR", ("INT",), il=il(val)) if kind == "CASE_STMT" else mksrt(ex, "IDENT_EXPR", cond, ident=f"k{i}")
                elif kind == "FOR_STMT" and i == 1: t = mksrt(ex, "EXPR_STMT", None, [mksrt(ex, "IDENT_EXPR", cond, ident="c")])
                else: t = mksrt(ex, "DECL_LIST" if what == "D" else "NULL_STMT", None)
                trees.append(t); return S.ret(ex, t)
            return f
        ex.eng.overrides.update(resolve_stmt=child("S"), resolve_decl=child("D"), resolve_expr=child("E"))
        p = ex.call(FnVal("resolve_stmt"), [r], None); f = ex.obj(p.b, "result").fields; F = rf(); t = f["srt"]
        ok = not isn(t); ex.oblige(f"{kind}: either a tree or errors come out", ok == isn(f["errs"]), "post")
        d = R.decay(cond)
        legal = {"CASE_STMT": sw and val not in prev, "DEFAULT_STMT": sw and not dflt, "BREAK_STMT": loop or sw, "CONTINUE_STMT": loop, "IF_STMT": R.isscal(d), "WHILE_STMT": R.isscal(d), "FOR_STMT": R.isscal(d) or None, "SWITCH_STMT": R.isint(d)}.get(kind, True)
        if kind == "RET_STMT": legal = rd[0] == "VOID" if shn == "" else rd[0] != "VOID" and R.assignable(d, rd) 
        ex.oblige(f"{kind}: accepted exactly where C allows it", ok == (bool(legal) and not failed[0]), "post")
        ex.oblige(f"{kind}: afterwards the surroundings are as before", F["ast"] == ast and bool(F["inside_loop"]) == bool(loop) and F["switch_cases"] == cases and (kind == "DEFAULT_STMT" or bool(F["switch_default_exists"]) == bool(dflt)), "post")
        if sw: ex.oblige(f"{kind}: the labels of the enclosing switch are kept", vals(cases)[:len(prev)] == list(prev) and (len(vals(cases)) == len(prev) or kind == "CASE_STMT" and vals(cases) == list(prev) + [val]), "post")
        if not ok: return
        ex.oblige(f"{kind}: every part is resolved once, in order", seen == list(range(len(shn))), "post")
        tf = ex.obj(t.b, "tree").fields; ch = absx.vec(ex, tf["children"])[1]
        ex.oblige(f"{kind}: the tree has the statement's kind and parts", tf["type"] == E["SRT_" + kind] and len(ch) == len(shn), "post")
        for i, c in enumerate(ch):
            if shn[i] != "E": ex.oblige(f"{kind}: part {i} stands in its place", c == trees[i], "post"); continue
            cd = objs.srt_read(ex, c)[0]
            if kind == "CASE_STMT": ex.oblige("case: the value stands in its place", cd[1] == "ILITERAL_EXPR" and same(ex, cd[5][1], val), "post")
            else:
                want = rd if kind == "RET_STMT" else R.promote(d) if kind == "SWITCH_STMT" else d
                R.converted(ex, f"{kind}: the expression", cd, (f"k{i}", cond), want)
        ex.eng.reach.append(("r", list(ex.pc)))
    return h
def runits():
    u = []; st = [(l, s, d) for l in (0, 1) for s in (0, 1) for d in ((0, 1) if s else (0,))]
    for k in ("IF_STMT", "WHILE_STMT", "FOR_STMT", "SWITCH_STMT", "DEFAULT_STMT", "CMPD_STMT", "EXPR_STMT", "NULL_STMT", "BREAK_STMT", "CONTINUE_STMT"):
        cs = [("INT",), ("CHAR",), ("UNSIGNED_LONG",), ("POINTER", ("INT",)), ("ARRAY", ("CHAR",), 3), ("STRUCT", "s", None, 8, 4), ("VOID",)] if k in ("IF_STMT", "WHILE_STMT", "FOR_STMT", "SWITCH_STMT") else [("INT",)]
        if k == "FOR_STMT": cs = [c for c in cs if c[0] != "ARRAY"]
        u.append((f"resolve {k}", many([(str((a, c)), h_rstmt(k, *a, cond=c)) for a in st for c in cs])))
    u.append(("resolve CASE_STMT", many([(str((a, v, p)), h_rstmt("CASE_STMT", *a, val=v, prev=p)) for a in st for v in (5, 0) for p in ((), (3,), (5,), (3, 5), (0, 7), (7, 0, 5))])))
    TS = [("INT",), ("CHAR",), ("UNSIGNED_INT",), ("LONG",), ("POINTER", ("INT",)), ("POINTER", ("CHAR",)), ("VOID",)]
    u.append(("resolve RET_STMT", many([(str((c, t)), h_rstmt("RET_STMT", 0, 0, 0, cond=c, rd=t)) for c in TS[:-1] + [("ARRAY", ("INT",), 3)] for t in TS])))
    return u
def prove(ctx):
    M.tu(); S.tu()
    us = [(n, M.mk, h) for n, h in units()] + [(n, S.mk, h) for n, h in runits()] + [(n, S.mk, h) for n, h in S.user_units() if n.startswith(("resolve_stmt", "gen_function"))]
    ctx.prove_all([(n, (lambda c, n=n, m=m, h=h: c.prove_harness(n, m, h))) for n, m, h in us])

def native(ctx, n):
    return scopegen.accept_reject(ctx, flowgen.ACCEPT, flowgen.REJECT) or flowgen.programs(ctx, n, runner.SEED)
def search(ctx, failed, struct): return native(ctx, 600)
def standin(ctx):
    n = 150 if runner.TIER == "quick" else 3000
    m = native(ctx, n)
    ctx.bounded.append({"what": "random functions nesting if, while, for, switch, case, default, break, continue, return, blocks, with the path taken recorded, compiled by umlcc and gcc and called with the same arguments; fixed lists of programs to accept and to reject", "cases": n, "label": "bounded"})
    return m

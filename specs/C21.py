"""C21: rendered assembly text."""
import z3, os, random
import absx, runner, text as T
from engine import *
from objs import rec, isn, opaque
from cast import TU
import objs
META = dict(technique="contract-based deductive verification (CVV: VCs from the clang AST of /repo, z3/cvc5); buffers as sequences of characters and names of unbounded length, every write obliged to stay inside its buffer, the text compared with the AT&T spelling of the object",
            level_note="every instruction, operand combination, width and register; names, offsets and numbers of any length and value; strings of any length (loop invariant)")
TRUSTED = ["clang 18 front end (AST of /repo) and the CVV symbolic executor", "z3 / cvc5", "libc string functions and printf conversions %s %c %d %lld %llu %03o", "GNU as reads AT&T syntax as documented (the native comparison assembles what is printed)"]
ASSUMPTIONS = ["a name is shorter than 2^29 characters, a string shorter than 2^26", "instructions have the operands the generators of C12 to C16 give them: two operands of the same width except for shifts, sign and zero extension; a memory offset is not the smallest int"]
FILES = ["src/x64/x64.c", "src/x64/inst.c", "src/x64/ope.c", "src/x64/label.c", "src/x64/data.c", "src/x64/register.c", "src/x64/suffix.c", "src/literal/iliteral.c", "src/literal/sliteral.c", "src/common/type.c", "src/common/util.c", "src/immc/util.c"]
_tu = None
def tu():
    global _tu
    if _tu is None: _tu = TU([f for f in FILES if os.path.exists(os.path.join(runner.REPO, f))])
    return _tu
def mk():
    e = Engine(tu(), mode="int", heap="conc"); objs.install(e); T.install(e); e.batch = True
    return e
W = ["BYTE", "WORD", "LONG", "QUAD"]; CH = dict(zip(W, "bwlq"))
R8 = ["AX", "BX", "CX", "DX", "SP", "BP", "SI", "DI"]
def regname(i, w):
    if i < 8:
        n = R8[i].lower()
        return "%" + {"QUAD": "r" + n, "LONG": "e" + n, "WORD": n, "BYTE": (n[0] + "l" if n[1] == "x" else n + "l")}[w]
    return f"%r{i}" + {"QUAD": "", "LONG": "d", "WORD": "w", "BYTE": "b"}[w]
ONE = {"MOVX": "mov", "MOVABSX": "movabs", "LEAX": "lea", "PUSHX": "push", "POPX": "pop", "ADDX": "add", "SUBX": "sub", "IMULX": "imul", "DIVX": "div", "IDIVX": "idiv", "NEGX": "neg", "ANDX": "and", "NOTX": "not", "ORX": "or", "XORX": "xor", "SALX": "sal", "SARX": "sar", "SHRX": "shr", "CMPX": "cmp"}
ZERO = {n: n.lower() for n in "CQTO SETE SETNE SETA SETAE SETB SETBE SETG SETGE SETL SETLE JMP JE JNE JA JAE JB JBE JG JGE JL JLE CALL RET".split()}
def lit(s): return [ord(c) for c in s]
def name(ex):
    L = ex.fresh("len"); ex.assume(z3.And(L >= 1, L < 2**29)); return [("opq", f"name{ex.nfresh}", L)]
def result(ex, r, want, what):
    o = ex.obj(r.b, "text")
    ex.oblige(f"{what}: the text is what the object denotes", T.same_text(ex, T.pieces(ex, r), want), "post")
    ex.eng.reach.append((what, list(ex.pc)))
def il(ex, u):
    v = ex.fresh("value"); ex.assume(z3.And(v >= (0 if u else -2**63), v < (2**64 if u else 2**63)))
    k = (["UNSIGNED_INT", "UNSIGNED_LONG", "UNSIGNED_LONGLONG"] if u else ["INT", "LONG", "LONGLONG"])[ex.choose(3) if ex.ghost.get("allregs") else 1]
    p = ex.call(FnVal("new_unsigned_iliteral" if u else "new_signed_iliteral"), [ex.tu.enums["INTEGER_" + k], v], None)
    return p, [("opq", ("num", 64, "u" if u else "s", v), None)]
def num(v, bits=64, sg="s"): return ("opq", ("num", bits, sg, v), None)
KINDS = ["SUFFIX", "REG", "PTR", "JPTR", "MEM", "LABEL", "JLABEL", "INT"]
def operand(ex, kind, w):
    """-> (pointer, its text, width or None)"""
    E = ex.tu.enums; call = lambda f, *a: ex.call(FnVal(f), list(a), None); sw = E["X64_SUFFIX_" + w]
    reg = lambda: ex.choose(16) if ex.ghost.get("allregs") else 9
    if kind == "SUFFIX": return call("new_suffix_x64ope", sw), None, w
    if kind == "REG": r = reg(); return call("new_reg_x64ope", sw, r), lit(regname(r, w)), w
    if kind == "PTR": r = reg(); return call("new_ptr_x64ope", r), lit(f"({regname(r, 'QUAD')})"), None
    if kind == "JPTR": r = reg(); return call("new_jptr_x64ope", r), lit(f"*{regname(r, 'QUAD')}"), None
    if kind == "MEM": m = ex.fresh("off"); ex.assume(z3.And(m > -2**31, m < 2**31)); return call("new_mem_x64ope", m), [num(-m, 32)] + lit("(%rbp)"), None
    if kind == "LABEL": n = name(ex); return call("new_label_x64ope", T.new_text(ex, n)), n + lit("(%rip)"), None
    if kind == "JLABEL": n = name(ex); return call("new_jlabel_x64ope", T.new_text(ex, n)), n, None
    u = ex.choose(2); p, t = il(ex, u); return call("new_int_x64ope", sw, p), lit("$") + t, w
def h_ope(ex):
    ex.ghost["allregs"] = True; k = KINDS[ex.choose(len(KINDS))]; w = W[ex.choose(4)] if k in ("SUFFIX", "REG", "INT") else "QUAD"
    p, t, _ = operand(ex, k, w); ex.ghost["case"] = (k, w)
    result(ex, ex.call(FnVal("x64ope_tostring"), [p], None), t or [], f"{k} operand")
def h_inst(ty):
    def h(ex):
        E = ex.tu.enums; ks = [None] + KINDS; a, b = ks[ex.choose(len(ks))], ks[ex.choose(len(ks))]
        two = ty in ("MOVSXX", "MOVZXX", "CXTX"); wid = ("SUFFIX", "REG", "INT")
        if two and (a is None or b is None or a not in wid + ("MEM", "PTR", "LABEL") or b not in wid): raise PathEnd()
        if two and a not in wid: raise PathEnd()
        if not two and ty not in ZERO and a not in wid and b not in wid: raise PathEnd()
        wa = W[ex.choose(4)] if a in wid else "QUAD"; same = ty not in ("SALX", "SARX", "SHRX") and not two
        wb = (wa if same and a in wid else W[ex.choose(4)]) if b in wid else "QUAD"
        src, ta, sa = operand(ex, a, wa) if a else (NULL, None, None); dst, tb, sb = operand(ex, b, wb) if b else (NULL, None, None)
        ex.ghost["case"] = (ty, a, wa, b, wb)
        x = ex.call(FnVal("new_inst_x64"), [E["X64_INST_" + ty], src, dst], None)
        if two: m = {"MOVSXX": "movs", "MOVZXX": "movz"}.get(ty); m = m + CH[sa] + CH[sb] if m else f"c{CH[sa]}t{CH[sb]}"
        elif ty in ZERO: m = ZERO[ty]
        else: s = CH[sb or sa]; m = f"c{s}td" if ty == "CXTD" else ONE[ty] + s
        ops = [t for t in (ta, tb) if t is not None]; want = lit("\t" + m)
        for i, t in enumerate(ops): want = want + lit(", " if i else "\t") + t
        result(ex, ex.call(FnVal("x64_tostring"), [x], None), want + lit("\n"), "instruction " + ty)
    return h
def h_label(ex):
    E = ex.tu.enums; n = name(ex); t = ["FUNCTION", "VARIABLE", "NORMAL"][ex.choose(3)]; v = ["NONE", "LOCAL", "GLOBAL"][ex.choose(3)]; ex.ghost["case"] = (t, v)
    x = ex.call(FnVal("new_label_x64"), [E["X64_LABEL_" + t], E["X64_VIS_" + v], T.new_text(ex, n)], None)
    want = lit({"FUNCTION": "\t.text\n", "VARIABLE": "\t.data\n", "NORMAL": ""}[t]) + ([] if v == "NONE" else lit(f"\t.{ {'LOCAL': 'local', 'GLOBAL': 'globl'}[v]} ") + n + lit("\n")) + n + lit(":\n")
    result(ex, ex.call(FnVal("x64_tostring"), [x], None), want, f"label {t} {v}")
def h_data(ex):
    E = ex.tu.enums; ex.ghost["allregs"] = True; k = ["BYTE", "WORD", "LONG", "QUAD", "ZERO"][ex.choose(5)]; p, t = il(ex, ex.choose(2)); ex.ghost["case"] = k
    x = ex.call(FnVal("new_int_data_x64"), [E["X64_DATA_" + k], p], None)
    result(ex, ex.call(FnVal("x64_tostring"), [x], None), lit(f"\t.{k.lower()}\t") + t + lit("\n"), f"data {k}")
def h_ilit(ex):
    ex.ghost["allregs"] = True; p, t = il(ex, ex.choose(2)); result(ex, ex.call(FnVal("iliteral_display_string"), [p], None), t, "number")
def h_name(fn, pre):
    def h(ex):
        i = ex.fresh("id"); ex.assume(z3.And(i >= 0, i < 2**31)); result(ex, ex.call(FnVal(fn), [i], None), lit(pre) + [num(i, 32)], fn)
    return h
def prove(ctx):
    tu(); E = tu().enums
    import C05, x64spec as X; X.tu(); C05.tu()
    u = [("x64ope_tostring", mk, h_ope), ("x64label_tostring", mk, h_label), ("x64data_tostring: numbers", mk, h_data), ("iliteral_display_string", mk, h_ilit), ("create_label_name", mk, h_name("create_label_name", ".L")), ("create_sliteral_label", mk, h_name("create_sliteral_label", ".SL"))]
    for t in [k[9:] for k in E if k.startswith("X64_INST_")]: u.append((f"x64inst_tostring: {t}", mk, h_inst(t)))
    u.append(("x64data_tostring: strings", C05.mk, C05.h_datastr))
    u += [("gen_label_x64code", X.mk, h_genlabel), ("gen_data_x64code", X.mk, h_gendata)]
    ctx.prove_all([(n, (lambda c, n=n, m=m, h=h: c.prove_harness(n, m, h))) for n, m, h in u])
def h_genlabel(ex):
    import x64spec as X
    w = X.World(ex); en = w.en; t = ("FUNCTION", "VARIABLE", "NORMAL")[ex.choose(3)]; v = ("GLOBAL", "LOCAL", "NONE")[ex.choose(3)]; w.case["inst"] = f"label {t} {v}"
    im = w.call("new_label_immc", en["IMMC_LABEL_" + t], en["IMMC_VIS_" + v], absx.new_str(ex, "l")); w.genimmc([im], entry="gen_label_x64code")
    ok = len(w.codes) == 1
    if ok:
        x = ex.obj(w.codes[0].b, "code").fields; l = ex.obj(x["label"].b, "label").fields
        ok = x["type"] == en["X64_LABEL"] and l["type"] == en["X64_LABEL_" + t] and l["visibility"] == en["X64_VIS_" + v] and objs.strid(ex, l["name"]) == "l"
    ex.oblige("a label line keeps its kind, visibility and name", ok, "post"); ex.eng.reach.append(("label", list(ex.pc)))
def h_gendata(ex):
    import x64spec as X
    w = X.World(ex); en = w.en; t = ("BYTE", "WORD", "LONG", "QUAD", "ZERO", "STR")[ex.choose(6)]; w.case["inst"] = f"data {t}"; v = z3.BitVec("v", 64)
    if t == "STR":
        s = w.call("new_sliteral", objs.new_ctext(ex, "ab\0c"), 5); im = w.call("new_str_data_immc", en["IMMC_DATA_STR"], s)
    else: im = w.call("new_int_data_immc", en["IMMC_DATA_" + t], w.call("new_signed_iliteral", en["INTEGER_LONG"], v))
    w.genimmc([im], entry="gen_data_x64code"); ok = len(w.codes) == 1
    if ok:
        x = ex.obj(w.codes[0].b, "code").fields; d = ex.obj(x["data"].b, "data").fields; ok = x["type"] == en["X64_DATA"] and d["type"] == en["X64_DATA_" + t]
        if t == "STR":
            s = ex.obj(d["sliteral"].b, "string").fields; ok = ok and isn(d["iliteral"]) and s["size"] == 5 and [ex.obj(s["value"].b, "bytes").elems.get(i) for i in range(5)] == [97, 98, 0, 99, 0]
        else:
            i = ex.obj(d["iliteral"].b, "number").fields; ok = ok and isn(d["sliteral"]) and i["type"] == en["INTEGER_LONG"]; ex.oblige("a data line keeps its value", i["signed_value"] == v, "post")
    ex.oblige("a data line keeps its kind and contents", ok, "post"); ex.eng.reach.append(("data", list(ex.pc)))
# ---- native: random objects rendered by the real code (with the address sanitizer) and spelled here
def cstring(b): return '"' + "".join("\\%03o" % x for x in b) + '"'
SP = {34: '\\"', 92: "\\\\", 39: "\\'", 63: "\\?", 7: "\\007", 8: "\\b", 12: "\\f", 10: "\\n", 13: "\\r", 9: "\\t", 11: "\\v"}
def decode(t):
    """what the assembler reads in a quoted string, or None"""
    m = {98: 8, 102: 12, 110: 10, 114: 13, 116: 9, 118: 11}; o = []; i = 1
    if len(t) < 2 or t[0] != 34 or t[-1] != 34: return None
    while i < len(t) - 1:
        c = t[i]
        if c == 34 or c == 10: return None
        if c != 92: o.append(c); i += 1; continue
        j = i + 1
        while j < i + 4 and j < len(t) - 1 and 48 <= t[j] < 56: j += 1
        if j > i + 1: o.append(int(bytes(t[i + 1:j]), 8) & 255); i = j
        else: o.append(m.get(t[i + 1], t[i + 1])); i += 2
    return o
def rname(r): return "".join(r.choice("abcdefgh_XYZ019") for _ in range(r.choice([1, 2, 5, 30, 49, 50, 51, 100, 199, 200, 201, 500, 3000])))
def rint(r, w=None): return r.choice([0, 1, -1, 2**31 - 1, -2**31, 2**63 - 1, 1 - 2**63, r.randrange(-2**62, 2**62)])
def rope(r, k, w):
    i = r.randrange(16); n = rname(r); S = "X64_SUFFIX_" + w; rg = (R8[i] if i < 8 else f"R{i}") + "_REG_ID"
    if k == "SUFFIX": return f"new_suffix_x64ope({S})", None, w
    if k == "REG": return f"new_reg_x64ope({S}, {rg})", regname(i, w), w
    if k == "PTR": return f"new_ptr_x64ope({rg})", f"({regname(i, 'QUAD')})", None
    if k == "JPTR": return f"new_jptr_x64ope({rg})", f"*{regname(i, 'QUAD')}", None
    if k == "MEM": m = r.choice([0, 4, -8, 2**31 - 1, 1 - 2**31, r.randrange(-1000, 1000)]); return f"new_mem_x64ope({m})", f"{-m}(%rbp)", None
    if k == "LABEL": return f'new_label_x64ope(new_string("{n}"))', n + "(%rip)", None
    if k == "JLABEL": return f'new_jlabel_x64ope(new_string("{n}"))', n, None
    return (lambda v: (f"new_int_x64ope({S}, new_signed_iliteral(INTEGER_LONGLONG, {v}ll))", f"${v}", w) if r.random() < .6 else (f"new_int_x64ope({S}, new_unsigned_iliteral(INTEGER_UNSIGNED_{r.choice(['INT', 'LONG', 'LONGLONG'])}, {v % 2**64}ull))", f"${v % 2**64}", w))(rint(r))
def case(r, types):
    x = r.random(); wid = ("SUFFIX", "REG", "INT")
    if x < .6:
        while True:
            ty = r.choice(types); a, b = r.choice([None] + KINDS), r.choice([None] + KINDS); two = ty in ("MOVSXX", "MOVZXX", "CXTX")
            if two and (a not in wid or b not in wid) or not two and ty not in ZERO and a not in wid and b not in wid: continue
            wa = r.choice(W); wb = wa if ty not in ("SALX", "SARX", "SHRX") and not two else r.choice(W); break
        ca, ta, sa = rope(r, a, wa) if a else ("NULL", None, None); cb, tb, sb = rope(r, b, wb) if b else ("NULL", None, None)
        m = {"MOVSXX": "movs", "MOVZXX": "movz"}[ty] + CH[sa] + CH[sb] if ty in ("MOVSXX", "MOVZXX") else f"c{CH[sa]}t{CH[sb]}" if two else ZERO[ty] if ty in ZERO else f"c{CH[sb or sa]}td" if ty == "CXTD" else ONE[ty] + CH[sb or sa]
        return f"new_inst_x64(X64_INST_{ty}, {ca}, {cb})", "\t" + m + "".join((", " if i else "\t") + t for i, t in enumerate(t for t in (ta, tb) if t is not None)) + "\n"
    if x < .75:
        n = rname(r); t, v = r.choice(["FUNCTION", "VARIABLE", "NORMAL"]), r.choice(["NONE", "LOCAL", "GLOBAL"])
        return f'new_label_x64(X64_LABEL_{t}, X64_VIS_{v}, new_string("{n}"))', {"FUNCTION": "\t.text\n", "VARIABLE": "\t.data\n", "NORMAL": ""}[t] + ("" if v == "NONE" else f"\t.{ {'LOCAL': 'local', 'GLOBAL': 'globl'}[v]} {n}\n") + n + ":\n"
    if x < .85: k = r.choice(["BYTE", "WORD", "LONG", "QUAD", "ZERO"]); v = rint(r); return f"new_int_data_x64(X64_DATA_{k}, new_signed_iliteral(INTEGER_LONG, {v}ll))", f"\t.{k.lower()}\t{v}\n"
    b = [r.choice([r.randrange(256), r.randrange(32, 127), r.choice(list(SP)), 0, 48]) for _ in range(r.choice([1, 2, 3, 10, 60, 300]))]
    return f"new_str_data_x64(X64_DATA_STR, new_sliteral(memcpy(malloc({len(b)}), {cstring(b)}, {len(b)}), {len(b)}))", b
def native(ctx, n, seed):
    r = random.Random(seed * 53 + 9); types = [k[9:] for k in tu().enums if k.startswith("X64_INST_")]; cs = [case(r, types) for _ in range(n)]
    f = os.path.join(ctx.scratch, "x64text.c")
    open(f, "w").write('#include "x64/x64.h"\n#include "x64/register.h"\n#include "common/type.h"\n#include <stdio.h>\n#include <stdlib.h>\n#include <string.h>\nstatic void p(X64* x) { char* s = x64_tostring(x); size_t n = strlen(s); printf("%zu\\n", n); fwrite(s, 1, n, stdout); fflush(stdout); free(s); delete_x64(x); }\n' + "\n".join(f"static void f{i}(void) {{ p({c}); }}" for i, (c, _) in enumerate(cs)) + "\nint main(void) {\n" + "\n".join(f"    f{i}();" for i in range(n)) + "\n    return 0;\n}\n")
    exe = ctx.cc("x64text", [f, ctx.repo_lib("address,undefined")], ["-O0", "-w", "-I" + os.path.join(runner.REPO, "src"), "-fsanitize=address,undefined"])
    import subprocess
    q = subprocess.run([exe], capture_output=True, timeout=300, env=dict(os.environ, ASAN_OPTIONS="detect_leaks=0")); out = q.stdout; i = 0
    for k, (c, want) in enumerate(cs):
        j = out.find(b"\n", i)
        if j < 0: return f"rendering fails (exit {q.returncode}) for {c[:300]}\n{q.stderr.decode('latin-1')[:1500]}"
        m = int(out[i:j]); t = out[j + 1:j + 1 + m]; i = j + 1 + m
        if isinstance(want, list): ok = t.startswith(b"\t.ascii\t") and t.endswith(b"\n") and decode(list(t[8:-1])) == want
        else: ok = t == want.encode()
        if not ok: return f"object: {c[:600]}\nexpected text: {want!r:.600}\nrendered text: {t!r:.600}"
def search(ctx, failed, struct):
    for k in range(4):
        m = native(ctx, 600, runner.SEED + k)
        if m: return m
def standin(ctx):
    n = 400 if runner.TIER == "quick" else 6000; m = native(ctx, n, runner.SEED + 5)
    ctx.bounded.append({"what": "random instructions, labels and data (names up to 3000 characters) rendered by the real code under the address sanitizer and compared with their spelling", "cases": n, "label": "bounded"})
    return m

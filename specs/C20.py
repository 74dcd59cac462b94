"""C20: output is written exactly when every stage succeeded."""
import z3, os, random
import absx, objs, runner, text as T
from engine import *
from objs import rec, isn, opaque
from cast import TU
META = dict(technique="contract-based deductive verification (CVV: VCs from the clang AST of /repo, z3/cvc5); main and the file reader are executed with every stage and every file operation by a contract that may succeed or fail, loop invariant: the output holds exactly the lines before the index",
            level_note="every number of arguments, file name of any length, combination of stage and file-operation outcomes, number of lines and of messages")
TRUSTED = ["clang 18 front end (AST of /repo) and the CVV symbolic executor", "z3 / cvc5", "stdio of libc (fopen, fread, ftell, fprintf, fclose, ferror) as C specifies it", "the stages by contract: an error, or a result that the next stage is given (C03 to C19, C21 are about what they compute)"]
ASSUMPTIONS = ["the source text contains no NUL", "memory allocation succeeds", "the file does not change while it is read", "a crash inside a stage is not an outcome (known limits of the register allocator are findings of C11 and C15)"]
FILES = ["src/main.c", "src/freader/freader.c", "src/freader/freaderret.c", "src/lexer/lexerret.c", "src/parser/parserret.c", "src/resolver/resolverret.c", "src/regalloc/regallocret.c", "src/common/util.c", "src/x64/register.c"]
_tu = None
def tu():
    global _tu
    if _tu is None: _tu = TU([f for f in FILES if os.path.exists(os.path.join(runner.REPO, f))])
    return _tu
STDERR, STDOUT = GPtr("stderr!file", 0, 0), GPtr("stdout!file", 0, 0)
def mk():
    e = Engine(tu(), mode="int", heap="conc"); objs.install(e); T.install(e); e.batch = True
    e.globals["stderr"] = GPtr("stderr", 0, STDERR); e.globals["stdout"] = GPtr("stdout", 0, STDOUT)
    o = e.overrides
    def is_file(ex, p):
        ob = ex.obj(p.b, "file"); ex.oblige("an open file", isinstance(ob.tag, list) and ob.tag[0] == "file" and ob.tag[3], "mem"); return ob.tag
    def out(ex, f, ps):
        g = ex.ghost
        if isinstance(f, GPtr): g["diag"] = g.get("diag", 0) + (f.name == STDERR.name); return
        t = is_file(ex, f); ex.oblige("only a file opened for writing is written", t[2] == "w", "post"); t[4] += ps
    def fopen(ex, a):
        ps = T.pieces(ex, a[0]); m = cstr(ex, a[1])[:1]; g = ex.ghost
        g.setdefault("opened", []).append((ps, m))
        if not ex.choose(2): g["fail"] = True; return NULL
        b = ex.heap.new(None); ex.heap.objs[b].tag = ["file", ps, m, True, []]; g["file" + m] = b; return P(b, 0)
    def fclose(ex, a):
        t = is_file(ex, a[0]); t[3] = False
        if t[2] == "w":
            ex.ghost["closed"] = True
            if "wrote_bad" not in ex.ghost and t[4]: ex.ghost["wrote_bad"] = ex.choose(2)
            if ex.ghost.get("wrote_bad"): ex.ghost["wfail"] = True
            if ex.choose(2): ex.ghost["wfail"] = True; return -1
        return 0
    def ferror(ex, a):
        t = is_file(ex, a[0])
        if "wrote_bad" not in ex.ghost: ex.ghost["wrote_bad"] = ex.choose(2)
        if t[2] == "w" and ex.ghost["wrote_bad"]: ex.ghost["wfail"] = True; return 1
        return 0
    def fflush(ex, a):
        t = is_file(ex, a[0])
        if "wrote_bad" not in ex.ghost: ex.ghost["wrote_bad"] = ex.choose(2)
        if t[2] == "w" and ex.ghost["wrote_bad"]: ex.ghost["wfail"] = True; return -1
        return 0
    o["fflush"] = fflush
    def fprintf(ex, a): out(ex, a[0], T.format_pieces(ex, cstr(ex, a[1]), a[2:])); return 0
    def fputs(ex, a): out(ex, a[1], T.pieces(ex, a[0])); return 0
    def printf(ex, a): out(ex, STDOUT, []); return 0
    def strrchr(ex, a):
        ps = T.pieces(ex, a[0]); k = len(ps); off = T.total(ex.obj(a[0].b, "string").tag[1][:len(ex.obj(a[0].b, "string").tag[1]) - len(ps)])
        while k > 0:
            k -= 1
            if isinstance(ps[k], tuple):
                if "without a dot" in str(ps[k][1]): continue
                raise Structural("search in an opaque name")
            if isinstance(ps[k], int) and ps[k] == a[1]: return P(a[0].b, simp(off + T.total(ps[:k])) if isz(off) or isz(T.total(ps[:k])) else off + T.total(ps[:k]))
        return NULL
    base_cmp = o["strcmp"]
    def strcmp(ex, a):
        ps = T.pieces(ex, a[0]), T.pieces(ex, a[1])
        for x, y in (ps, ps[::-1]):
            if len(x) == 2 and x[0] == 46 and isinstance(x[1], tuple) and "other than c" in x[1][1] and not any(isinstance(p, tuple) for p in y) and T.show(y) == ".c":
                r = ex.fresh("strcmp"); ex.assume(z3.And(r != 0, r >= -255, r <= 255)); return r
        return base_cmp(ex, a)
    def perror(ex, a): out(ex, STDERR, []); return 0
    def exit_(ex, a): ex.ghost["exit"] = a[0]; raise Exit()
    for n in ("remove", "unlink", "rename", "system", "freopen"): o[n] = lambda ex, a, n=n: ex.oblige(f"no use of {n}", False, "post")
    o.update(fopen=fopen, fclose=fclose, ferror=ferror, fprintf=fprintf, fputs=fputs, printf=printf, puts=printf, strrchr=strrchr, strcmp=strcmp, perror=perror, exit=exit_)
    o.pop("new_error", None); o["new_error"] = lambda ex, a: err(ex); o["delete_error"] = lambda ex, a: setattr(ex.obj(a[0].b, "error"), "alive", False)
    return e
class Exit(Exception): pass
def tell(ex, w): ex.eng.reach.append((w, list(ex.pc)))
def err(ex):
    L = ex.fresh("len"); ex.assume(z3.And(L >= 0, L < 2**20)); ex.ghost["err"] = ex.ghost.get("err", 0) + 1
    return rec(ex, "Error", message=T.new_text(ex, [("opq", f"message{ex.nfresh}", L)]))
def stages(ex):
    """each stage is given the previous one's result and returns its own or an error"""
    o = ex.eng.overrides; g = ex.ghost; g["stage"] = "none"
    def new(name, wants):
        def f(ex, a):
            for k, w in enumerate(wants): ex.oblige(f"{name} is given the result of the stage before", isinstance(a[k], P) and objs.isopq(ex, a[k]) and objs.opq(ex, a[k]) == w or w == "content" and isinstance(a[k], P) and g.get("content") == a[k].b, "post")
            b = opaque(ex, "stage", name); return b
        return f
    def run(name, fn, recname, field, result, errfield="err", may_fail=True):
        def f(ex, a):
            ex.oblige(f"{fn} runs its stage", objs.isopq(ex, a[0]) and objs.opq(ex, a[0]) == name, "pre"); g["ran"] = g.get("ran", []) + [name]
            if may_fail and ex.choose(2):
                g["fail"] = True; g["err"] = g.get("err", 0)
                if errfield == "errs":
                    n = ex.fresh("nerrs"); ex.assume(z3.And(n >= 1, n < 2**20)); b = ex.heap.new(None); ex.heap.objs[b].tag = ["many", "errs", n]; e = P(b, 0)
                else: e = err(ex)
                return rec(ex, recname, **{field: NULL, errfield: e})
            return rec(ex, recname, **{field: opaque(ex, result, result), errfield: NULL})
        o[fn] = f
        o["delete_" + name] = lambda ex, a: ex.oblige("only the stage itself is released", objs.isopq(ex, a[0]) and objs.opq(ex, a[0]) == name, "mem") and None
    def freader_read(ex, a):
        f = ex.obj(a[0].b, "reader").fields["file_ptr"]; ex.oblige("the reader reads the source file", isinstance(f, P) and f.b == g.get("filer"), "post")
        if ex.choose(2): g["fail"] = True; return rec(ex, "FileReaderReturn", file_content=NULL, err=err(ex))
        L = ex.fresh("len"); ex.assume(z3.And(L >= 1, L < 2**26)); p = T.new_text(ex, [("opq", "content", L)]); g["content"] = p.b; return rec(ex, "FileReaderReturn", file_content=p, err=NULL)
    o["freader_read"] = freader_read
    o["new_lexer"] = new("lexer", ["content"]); run("lexer", "lexer_read_ctokens", "LexerReturn", "ctokens", "tokens")
    o["new_parser"] = new("parser", ["tokens"]); run("parser", "parser_create_ast", "ParserReturn", "ast", "tree")
    o["new_resolver"] = new("resolver", ["tree"]); run("resolver", "resolver_resolve_semantics", "ResolverReturn", "srt", "resolved", "errs")
    o["new_immcgen"] = new("immcgen", ["resolved"]); o["immcgen_generate_immcode"] = lambda ex, a: opaque(ex, "codes", "immcode"); o["delete_immcgen"] = lambda ex, a: 0
    o["new_regalloc"] = new("regalloc", ["immcode"]); o["regalloc_allocate_regs"] = lambda ex, a: rec(ex, "RegAllocReturn", immcs=opaque(ex, "codes", "allocated"), liveseqs=opaque(ex, "live", "liveseqs")); o["delete_regalloc"] = lambda ex, a: 0
    o["new_x64gen"] = new("x64gen", ["allocated", "liveseqs"])
    def gen(ex, a): n = ex.fresh("ncodes"); ex.assume(z3.And(n >= 0, n < 2**26)); b = ex.heap.new(None); ex.heap.objs[b].tag = ["many", "codes", n]; return P(b, 0)
    o["x64gen_generate_x64code"] = gen; o["delete_x64gen"] = lambda ex, a: 0
    def many(ex, p): t = ex.obj(p.b, "list").tag; return t if isinstance(t, list) and t[0] == "many" else None
    size, at, dele = o["vector_size"], o["vector_at"], o["delete_vector"]
    o["vector_size"] = lambda ex, a: many(ex, a[0])[2] if many(ex, a[0]) else size(ex, a)
    def vat(ex, a):
        t = many(ex, a[0])
        if not t: return at(ex, a)
        i = a[1]; ex.oblige("an element of the list", z3.And(i >= 0, i < t[2]), "pre")
        if t[1] == "errs": return err(ex)
        b = ex.heap.new(None); ex.heap.objs[b].tag = ["opq", "line", simp(i) if isz(i) else z3.IntVal(i)]; return P(b, 0)
    o["vector_at"] = vat
    def dv(ex, a):
        t = many(ex, a[0])
        if not t: return dele(ex, a)
        ex.heap.objs[a[0].b].alive = False
    o["delete_vector"] = dv
    def tostring(ex, a):
        L = ex.fresh("len"); ex.assume(z3.And(L >= 0, L < 2**26)); return T.new_text(ex, [("opq", ("line", objs.opq(ex, a[0])), L)])
    o["x64_tostring"] = tostring
def h_main(ex):
    g = ex.ghost; o = ex.eng.overrides; argc = ex.fresh("argc"); ex.assume(z3.And(argc >= 0, argc < 2**20)); N = 0
    kind = ["c", "other", "nodot", "dotc"][ex.choose(4)]; L = ex.fresh("len"); ex.assume(z3.And(L >= 0, L < 2**20)); L2 = ex.fresh("len"); ex.assume(z3.And(L2 >= 0, L2 < 2**20))
    stem = ("opq", "stem", L)
    name = {"c": [stem, 46, 99], "other": [stem, 46, ("opq", "ending without a dot, other than c", L2)], "nodot": [("opq", "name without a dot", L)], "dotc": [stem, 46, 99, 46, ("opq", "ending without a dot, other than c", L2)]}[kind]; g["case"] = kind
    two = ex.branch(argc == 2); b = ex.heap.new(24); ex.heap.objs[b].elems = {0: T.new_text(ex, lit("umlcc")), 1: T.new_text(ex, name) if two else NULL}
    stages(ex); loops = {}
    def calls(x):
        s = set()
        def w(y):
            if y is None: return
            if y.kind == "DeclRefExpr" and y.ref and y.ref[0] == "FunctionDecl": s.add(y.ref[1])
            for c in y.inner: w(c)
        w(x); return s
    def walk(x):
        if x is None: return
        if x.kind in ("ForStmt", "WhileStmt", "DoStmt"): loops[x.id] = 0 if "x64_tostring" in calls(x) else 1
        for c in x.inner: walk(c)
    for fn in ex.tu.funcs:
        if fn not in o and not fn.startswith("freader"): walk(ex.tu.funcs[fn])
    ex.loop_map = loops
    def cnt(c):
        """the index: the one integer of the loop that starts at 0 and is not a length"""
        return c.i("i")
    def dst():
        t = ex.heap.objs[g["filew"]].tag if "filew" in g else None
        if t is None: raise Structural("lines are written to no file")
        return t
    def codes():
        for ob in ex.heap.objs.values():
            if isinstance(ob.tag, list) and ob.tag[0] == "many" and ob.tag[1] == "codes": return ob.tag[2]
        raise Structural("no list of lines")
    def errs():
        for ob in ex.heap.objs.values():
            if isinstance(ob.tag, list) and ob.tag[0] == "many" and ob.tag[1] == "errs": return ob.tag[2]
        raise Structural("no list of errors")
    def inv0(c):
        i = cnt(c); f = [("the index is inside the list", z3.And(i >= 0, i <= codes()))]
        if "I" not in g: f += [("nothing is written before the first line", z3.And(z3.BoolVal(dst()[4] == []), i == 0))]
        return f
    def havoc0(c):
        i = ex.fresh("i"); c.L.cell("i").v = i; g["I"] = i; dst()[4][:] = [("opq", ("lines before", i), ex.fresh("len"))]
    def step0(c):
        t = dst()[4]; ok = len(t) == 2 and isinstance(t[1], tuple) and isinstance(t[1][1], tuple) and t[1][1][0] == "line"
        ex.oblige("an iteration writes exactly the line of the index", z3.And(z3.BoolVal(ok), t[1][1][1] == g["I"] if ok else False, cnt(c) == g["I"] + 1), "inv"); tell(ex, "line")
    def inv1(c): i = cnt(c); return [("the index is inside the list of errors", z3.And(i >= 0, i <= errs()))] + ([("from the first error on", i == 0)] if "E" not in g else [])
    def havoc1(c): i = ex.fresh("i"); c.L.cell("i").v = i; g["E"] = i; g["diag0"] = g.get("diag", 0)
    def step1(c): ex.oblige("each error has a message on standard error", z3.And(z3.BoolVal(g.get("diag", 0) == g["diag0"] + 1), cnt(c) == g["E"] + 1), "inv"); tell(ex, "message")
    def exit1(c): ex.oblige("every error of the list has been reported", g["E"] == errs(), "post"); g["diag"] = g.get("diag0", 0); g["errs_listed"] = True
    def exit0(c): g["all"] = g["I"] == codes()
    P_ = lambda c, x: x.v
    ex.eng.loopspecs = {0: dict(inv=inv0, havoc=havoc0, step=step0, exit=exit0, ptr=P_, dec=lambda c: codes() - cnt(c)), 1: dict(inv=inv1, havoc=havoc1, step=step1, exit=exit1, ptr=P_, dec=lambda c: errs() - cnt(c))}
    try: r = ex.call(FnVal("main"), [argc, P(b, 0)], None)
    except Exit: r = g["exit"]
    r = simp(r) if isz(r) else r
    if not isinstance(r, int): raise Structural("exit status is not definite")
    writes = [ps for ps, m in g.get("opened", []) if m != "r"]; good = two and kind == "c" and not g.get("fail") and not g.get("wfail")
    if good:
        ex.oblige("the command succeeds when every stage does", r == 0, "post")
        ok = len(writes) == 1 and "filew" in g; ex.oblige("one output file is written", ok, "post")
        if ok:
            w = ex.heap.objs[g["filew"]].tag; nm = writes[0]
            ex.oblige("the output is named like the source, with .s for .c", len(nm) == 3 and nm[0] is stem and nm[1] == 46 and nm[2] == 115, "post")
            ex.oblige("the output holds every line, in order, and is closed", z3.And(z3.BoolVal(not w[3] and len(w[4]) == 1 and "I" in g), g.get("all", False)), "post")
        tell(ex, "success")
    else:
        ex.oblige("the command fails", r % 256 != 0, "post"); ex.oblige("a failure has a message on standard error", g.get("diag", 0) > 0, "post")
        if not (g.get("wfail") or len(writes) == 1 and g.get("fail") and "filew" not in g): ex.oblige("no file is opened for writing when something before failed", writes == [], "post")
        if g.get("wfail"): ex.oblige("a failure to write is one of the output", len(writes) == 1 and two and kind == "c", "post")
        tell(ex, f"failure: {kind} {two} " + " ".join(g.get("ran", [])) + (" write" if g.get("wfail") else ""))
    ex.oblige("the source is opened for reading", all(len(ps) == len(name) and all(x is y or x == y for x, y in zip(ps, name)) for ps, m in g.get("opened", []) if m == "r"), "post")
def lit(s): return [ord(c) for c in s]
# ---- the reader
def h_read(ex):
    g = ex.ghost; S = ex.fresh("bytes"); ex.assume(z3.And(S >= 0, S < 2**26)); b = ex.heap.new(None); ex.heap.objs[b].tag = ["file", [], "r", True, []]; pos = {"p": z3.IntVal(0), "bad": False}
    fails = ex.choose(3)        # 0: fine, 1: the size cannot be told, 2: reading fails
    def fseek(ex, a):
        if a[1] == 0 and a[2] == 2: pos["p"] = S
        elif a[1] == 0 and a[2] == 0: pos["p"] = z3.IntVal(0)
        else: raise Structural("fseek")
        return 0
    def ftell(ex, a): return -1 if fails == 1 else pos["p"]
    def rewind(ex, a): pos["p"] = z3.IntVal(0)
    def fread(ex, a):
        n = simp(a[1] * a[2]) if isz(a[1]) or isz(a[2]) else a[1] * a[2]; n = n if isz(n) else z3.IntVal(n); rest = S - pos["p"]; k = z3.If(n < rest, n, rest)
        if fails == 2: r = ex.fresh("read"); ex.assume(z3.And(r >= 0, r <= k)); pos["bad"] = True
        else: r = k
        ob = T.totext(ex, a[0].b); ex.oblige("the bytes read fit the buffer", z3.And(n >= 0, n <= ob.nbytes) if ob.nbytes is not None else False, "mem"); ex.oblige("bytes are read to the start of the buffer", a[0].o == 0, "mem")
        L = simp(r); ob.tag[1] = [("opq", ("file bytes", str(simp(pos["p"]))), L)]; ob.tag[2] = False; pos["p"] = simp(pos["p"] + L); return L
    ex.eng.overrides.update(fseek=fseek, ftell=ftell, rewind=rewind, fread=fread, ferror=lambda ex, a: 1 if pos["bad"] else 0)
    r = ex.obj(ex.call(FnVal("freader_read"), [rec(ex, "FileReader", file_ptr=P(b, 0))], None).b, "result").fields
    one = isn(r["err"]) != isn(r["file_content"]); ex.oblige("either the content or an error", one, "post")
    if fails: ex.oblige("a file that cannot be read is an error", not isn(r["err"]), "post"); tell(ex, "failure"); return
    if not isn(r["err"]): ex.oblige("only an empty file is an error", S == 0, "post"); tell(ex, "empty"); return
    ps = T.pieces(ex, r["file_content"]); ok = len(ps) <= 1 and all(isinstance(p, tuple) and p[1] == ("file bytes", "0") for p in ps)
    ex.oblige("the content is that of the file, from its start to its end", z3.And(z3.BoolVal(ok), T.total(ps) == S if ps else S == 0), "post"); tell(ex, "content")
def prove(ctx):
    tu()
    ctx.prove_all([("main", lambda c: c.prove_harness("main", mk, h_main)), ("freader_read", lambda c: c.prove_harness("freader_read", mk, h_read))])
# ---- native: the command itself in scratch directories
GOOD = ["int main(void) { return 0; }\n", "int f(int x) { return x + 1; }\nint g(void) { char s[4] = \"abc\"; return f(s[1]); }\n", "int x = 3;\nlong y[4];\nint main(void) { for (int i = 0; i < 4; i++) y[i] = x; return 0; }\n"]
BAD = ["int main(void) { return 0 }\n", "int main(void) { return y; }\n", "int main(void) { return '; }\n", "int main(void) { return \"abc; }\n", "@\n", "", "int f(void) { int a; int a; return 0; }\n", "int f(void) { break; }\n", "struct S x;\n", "int f(void) { return 1; }\nint g(void) { x = 1; y = 2; return z; }\n", "int f(void) { int x; x.a = 1; return 0; }\n", "/* a */ int x;\n", "int a[3] = {1, 2, 3, 4};\n", "int f(int x) { switch (x) { case 1: case 1: return 0; } return 1; }\n"]
def native(ctx, n, seed):
    import e2e, tempfile, shutil, subprocess
    exe = e2e.build_umlcc(ctx); drv = ctx.cc("stage_drv", [os.path.join(runner.ROOT, "native/stage_drv.c"), ctx.repo_lib(san=False)], san=False); env = dict(os.environ, MALLOC_PERTURB_="85"); r = random.Random(seed * 17 + 3); done = 0
    def files(d):
        o = {}
        for root, ds, fs in os.walk(d):
            for f in fs: o[os.path.relpath(os.path.join(root, f), d)] = open(os.path.join(root, f), "rb").read()
        return o
    def go(what, args, setup=None, good=None, outname=None, cwd=None, srcname=None):
        nonlocal done
        d = tempfile.mkdtemp(dir=ctx.scratch)
        try:
            if setup: setup(d)
            before = files(d); q = subprocess.run([exe] + args, cwd=os.path.join(d, cwd) if cwd else d, capture_output=True, timeout=60, env=env); after = files(d); done += 1
            p = os.path.join(d, cwd or "", args[0]) if len(args) == 1 and args[0] else None; x = subprocess.run([drv, p], capture_output=True, timeout=60) if p and os.path.isfile(p) and p.endswith(".c") else None
            if good is not None:
                if q.returncode: return f"{what}: exit {q.returncode}\n{q.stderr.decode('latin-1')[-400:]}"
                new = {k for k in after if after[k] != before.get(k)} | {k for k in before if k not in after}
                if outname not in after or new - {outname}: return f"{what}: files changed: {sorted(new)}, expected {outname}"
                t = after[outname]
                if x is None or x.returncode: return f"{what}: the stages fail on a source the command accepts"
                if t != x.stdout or not t.strip(): return f"{what}: the output is not the lines the last stage generates, in order"
                x = subprocess.run(["gcc", "-c", "-o", "/dev/null", "-x", "assembler", "-"], input=t, capture_output=True)
                if x.returncode: return f"{what}: the output is not accepted by the assembler"
                return None
            if q.returncode <= 0: return f"{what}: exit {q.returncode} where the command has to fail"
            if not q.stderr.strip(): return f"{what}: no message on standard error"
            if x is not None and x.returncode == 1:
                for l in x.stderr.decode("latin-1").splitlines():
                    if l not in q.stderr.decode("latin-1"): return f"{what}: no message {l!r} on standard error"
            if before != after: return f"{what}: files were changed: {sorted(k for k in set(before) | set(after) if before.get(k) != after.get(k))}"
        finally: shutil.rmtree(d, ignore_errors=True)
    def put(**kw):
        def f(d):
            for k, v in kw.items():
                k = k.replace("__", "."); p = os.path.join(d, k); os.makedirs(os.path.dirname(p), exist_ok=True); open(p, "w").write(v)
        return f
    def puts(*kv):
        def f(d):
            for k, v in kv:
                p = os.path.join(d, k); os.makedirs(os.path.dirname(p), exist_ok=True); open(p, "w").write(v)
        return f
    jobs = []
    names = ["t.c", "a.b.c", ".c", "x.c.c", "dir.c/t.c", "d/e/f.c", "n" * 200 + ".c", "..c", "s.s.c", "a b.c", "c.c", "%s%n.c"]
    for i in range(n):
        g = r.choice(GOOD); nm = r.choice(names) if i >= len(names) else names[i]; jobs.append((f"source {nm[:40]!r}", [nm], puts((nm, g), *([(nm[:-1] + "s", "old contents " * 5000)] if i % 3 == 0 else [])), g, nm[:-1] + "s"))
    for b in BAD: jobs.append((f"source {b!r}", ["t.c"], puts(("t.c", b), ("t.s", "old\n"), ("u.c", GOOD[0]))))
    g = GOOD[0]
    for nm in ["t", "t.cc", "t.C", "t.h", "t.c.txt", "t.c~", "t.", "tc", "t.s", "d.c/t", "t.cpp"]: jobs.append((f"source named {nm!r}", [nm], puts((nm, g), ("t.s", "old\n") if nm != "t.s" else ("u.s", "old\n"))))
    jobs += [("no argument", [], None), ("two arguments", ["t.c", "u.c"], puts(("t.c", g), ("u.c", g))), ("an option", ["t.c", "-x"], puts(("t.c", g))), ("missing file", ["u.c"], puts(("t.c", g))), ("missing folder", ["d/u.c"], puts(("t.c", g))), ("a folder", ["d.c"], puts(("d.c/x", "y"))), ("an empty argument", [""], puts(("t.c", g))), ("the output is a folder", ["t.c"], puts(("t.c", g), ("t.s/x", "y"))), ("an output in a missing place", ["/proc/self/nothing.c"], None)]
    for j in jobs:
        m = go(j[0], j[1], j[2], *(j[3:] if len(j) > 3 else ()))
        if m: return m, done
    # an output that cannot be written: a full device behind a link
    d = tempfile.mkdtemp(dir=ctx.scratch)
    try:
        if os.path.exists("/dev/full"):
            open(os.path.join(d, "t.c"), "w").write(g); os.symlink("/dev/full", os.path.join(d, "t.s")); q = subprocess.run([exe, "t.c"], cwd=d, capture_output=True, timeout=60); done += 1
            if q.returncode <= 0 or not q.stderr.strip(): return f"an output on a full device: exit {q.returncode}", done
    finally: shutil.rmtree(d, ignore_errors=True)
    return None, done
def search(ctx, failed, struct):
    return native(ctx, 40, runner.SEED)[0]
def standin(ctx):
    m, k = native(ctx, 24 if runner.TIER == "quick" else 200, runner.SEED)
    ctx.bounded.append({"what": "runs of the command in scratch folders: names, wrong arguments, missing and unreadable sources, erroneous sources, unwritable outputs", "cases": k, "label": "bounded"})
    return m

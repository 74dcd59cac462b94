"""The grammar of parse_spec run on concrete tokens (reference parser), random programs, and the comparison with the real parser."""
import random, sys, os
import runner, parse_spec as S
from parse_spec import A, Fail, G_, chain, unchain, rechain
sys.setrecursionlimit(100000)
class _B:
    @staticmethod
    def branch(x): return bool(x)
class CW:
    """concrete tokens in place of symbolic ones"""
    ex = _B(); newnames = []
    def __init__(s, toks): s.t = toks; s.names = frozenset(); s.flag = 0; s.memo = {}; s.g = CG(s)
    def kindat(s, t): return s.t[t][0] if t < len(s.t) else "EOF"
    def isk(s, t, *ns): return s.kindat(t) in ns
    def kind(s, t, ns): return s.kindat(t) if s.kindat(t) in ns else None
    def name(s, t): return s.t[t][1]
    def member(s, added, n): return n in s.names
    def istd(s, t): return s.name(t) in s.names
    def key(s, t): return str(t)
    def nt(s, N, t):
        k = (N, t, s.names, s.flag)
        if k not in s.memo:
            n0, f0 = s.names, s.flag
            try: r, e = getattr(s.g, N)(t); s.memo[k] = (True, r, e, s.names, s.flag)
            except Fail: s.memo[k] = (False, None, None, n0, f0)
        ok, r, e, s.names, s.flag = s.memo[k]
        return ok, r, e, None
class CG(G_):
    def lit(s, t, kind): return (kind, s.w.name(t))
    def scoped(s, f, t, names=True):
        n, fl = s.w.names, s.w.flag
        r = f(t); s.w.flag = fl
        if names: s.w.names = n
        return r
    def parse_decl_specifiers(s, t):
        s.w.flag = 0; r = G_.parse_decl_specifiers(s, t); s.w.flag = int(any(c[1] == "STG_TYPEDEF" for c in r[0][5])); return r
    def parse_specifier_qualifier_list(s, t): s.w.flag = 0; r = G_.parse_specifier_qualifier_list(s, t); s.w.flag = 0; return r
    def parse_decl(s, t): return s.scoped(lambda t: G_.parse_decl(s, t), t, False)
    def parse_parameter_decl(s, t): return s.scoped(lambda t: G_.parse_parameter_decl(s, t), t, False)
    def parse_struct_decl(s, t): return s.scoped(lambda t: G_.parse_struct_decl(s, t), t)
    def parse_type_name(s, t): return s.scoped(lambda t: G_.parse_type_name(s, t), t)
    def parse_compound_stmt(s, t): return s.scoped(lambda t: G_.parse_compound_stmt(s, t), t)
    def parse_function_definition(s, t): return s.scoped(lambda t: G_.parse_function_definition(s, t), t)
    def decl(s, t, ab):
        p = 0
        while s.w.isk(t, "ASTERISK"): t += 1; p += 1
        d, e = s.nt("parse_direct_abstract_declarator" if ab else "parse_direct_declarator", t); ks, term = unchain(d)
        return rechain([(k, q) for k, q in ks] + [("PTR_DECLOR", [])] * p, term), e
    def parse_declarator(s, t): return s.decl(t, 0)
    def parse_abstract_declarator(s, t): return s.decl(t, 1)
    def direct(s, t, ab):
        ks = []; dn = "parse_abstract_declarator" if ab else "parse_declarator"
        if s.w.isk(t, "LPAREN"):
            d, e = s.nt(dn, t + 1); ks, term = unchain(d)
            if not (ab and not ks): t = s.eat(e, "RPAREN")
        elif ab:
            if s.w.isk(t, "IDENT"): raise Fail()
            term = A("ABS_DECLOR")
        else:
            e = s.eat(t, "IDENT"); term = s.ident(t, "IDENT_DECLOR")
            if s.w.flag: s.w.names = s.w.names | {s.w.name(t)}
            t = e
        while True:
            k = s.w.kind(t, ["LBRACKET", "LPAREN"])
            if k is None: return rechain(ks, term), t
            x, t = s.nt("parse_constant_expr" if k == "LBRACKET" else "parse_parameter_list", t + 1); t = s.eat(t, "RBRACKET" if k == "LBRACKET" else "RPAREN")
            ks = ks + [("ARRAY_DECLOR" if k == "LBRACKET" else "FUNC_DECLOR", [x])]
    def parse_direct_declarator(s, t): return s.direct(t, 0)
    def parse_direct_abstract_declarator(s, t): return s.direct(t, 1)
    def unit(s, t):
        out = []
        while True:
            n, f = s.w.names, s.w.flag
            ok, _, e, _ = s.w.nt("parse_decl_specifiers", t)
            if not ok: raise Fail()
            ok, _, e, _ = s.w.nt("parse_declarator", e); m = ok and s.w.isk(e, "LBRACE"); s.w.names, s.w.flag = n, f
            x, t = s.nt("parse_function_definition" if m else "parse_decl", t); out.append(x)
            if s.w.isk(t, "EOF"): return A("TRAS_UNIT", out), t
def reference(toks):
    w = CW(toks)
    try: return w.g.unit(0)[0]
    except Fail: return None
# ---------------------------------------------------------------- random programs
class Gen:
    def __init__(s, r): s.r = r; s.n = 0; s.types = ["T"]
    def p(s, x): return s.r.random() < x
    def k(s, x): return [(x, None)]
    def num(s): s.n += 1; return [("INT", s.n)]
    def var(s): return [("IDENT", s.r.choice("abcfgx"))]
    BIN = [list(o) for _, _, o in G_.LV]
    def expr(s, d, lv=0):
        r = s.r
        if lv == 0:
            if d > 0 and s.p(.15): return s.unary(d - 1) + s.k(r.choice(list(G_.ASG))) + s.expr(d - 1, 0)
            return s.expr(d, 1)
        if lv == 1:
            if d > 0 and s.p(.1): return s.expr(d - 1, 2) + s.k("QUESTION") + s.expr(d - 1) + s.k("COLON") + s.expr(d - 1, 1)
            return s.expr(d, 2)
        if lv - 2 < len(s.BIN):
            out = s.expr(d, lv + 1)
            while d > 0 and s.p(.13): out = out + s.k(r.choice(s.BIN[lv - 2])) + s.expr(d - 1, lv + 1)
            return out
        return s.cast(d)
    def cast(s, d):
        if d > 0 and s.p(.08): return s.k("LPAREN") + s.tname(d - 1) + s.k("RPAREN") + s.cast(d - 1)
        return s.unary(d)
    def unary(s, d):
        x = s.r.random()
        if d > 0 and x < .08: return s.k(s.r.choice(list(G_.INC))) + s.unary(d - 1)
        if d > 0 and x < .22: return s.k(s.r.choice(list(G_.UN))) + s.cast(d - 1)
        if d > 0 and x < .26: return s.k("KEYWORD_SIZEOF") + (s.unary(d - 1) if s.p(.5) else s.k("LPAREN") + s.tname(d - 1) + s.k("RPAREN"))
        return s.postfix(d)
    def postfix(s, d):
        out = s.primary(d)
        while d > 0 and s.p(.22):
            x = s.r.randrange(6)
            if x == 0: out = out + s.k("LBRACKET") + s.expr(d - 1) + s.k("RBRACKET")
            elif x == 1: out = out + s.k("LPAREN") + s.commas(s.r.randrange(4), lambda: s.expr(d - 2)) + s.k("RPAREN")
            elif x == 2: out = out + s.k("DOT") + s.var()
            elif x == 3: out = out + s.k("ARROW") + s.var()
            else: out = out + s.k("PLUS_PLUS" if x == 4 else "MINUS_MINUS")
        return out
    def commas(s, n, f):
        out = []
        for i in range(n): out = out + (s.k("COMMA") if i else []) + f()
        return out
    def primary(s, d):
        x = s.r.random()
        if d > 0 and x < .2: return s.k("LPAREN") + s.expr(d - 1) + s.k("RPAREN")
        if x < .5: return s.num()
        if x < .55: s.n += 1; return [("CHAR", s.n)]
        if x < .6: s.n += 1; return [("STRING", f"s{s.n}")]
        return s.var()
    def spec(s, d):
        x = s.r.random()
        if x < .45: return s.k(s.r.choice(["KEYWORD_INT", "KEYWORD_CHAR", "KEYWORD_VOID", "KEYWORD_LONG"]))
        if x < .55: return s.k("KEYWORD_UNSIGNED") + s.k("KEYWORD_INT")
        if x < .7: return [("IDENT", s.r.choice(s.types))]
        if x < .85 or d <= 0: return s.k("KEYWORD_STRUCT") + (s.var() if d <= 0 or s.p(.7) else []) + [] if False else s.tag("KEYWORD_STRUCT", d, lambda: sum((s.spec(d - 1) + s.commas(s.r.randrange(1, 3), lambda: s.declor(d - 1)) + s.k("SEMICOLON") for _ in range(s.r.randrange(1, 3))), []))
        return s.tag("KEYWORD_ENUM", d, lambda: s.commas(s.r.randrange(1, 4), lambda: s.var() + (s.k("EQUAL") + s.expr(d - 1, 1) if s.p(.4) else [])) + (s.k("COMMA") if s.p(.3) else []))
    def tag(s, kw, d, body):
        n = s.p(.7); b = d > 0 and (not n or s.p(.5))
        return s.k(kw) + (s.var() if n or not b else []) + (s.k("LBRACE") + body() + s.k("RBRACE") if b else [])
    def declor(s, d, ab=False, nm=None):
        out = []
        while s.p(.25): out += s.k("ASTERISK")
        if d > 0 and s.p(.2) and not ab: core = s.k("LPAREN") + s.declor(d - 1, ab, nm) + s.k("RPAREN")
        elif d > 0 and ab and s.p(.2): core = s.k("LPAREN") + s.k("ASTERISK") + s.declor(d - 1, ab) + s.k("RPAREN")
        else: core = [] if ab else (nm or s.var())
        while d > 0 and s.p(.25):
            if s.p(.5): core = core + s.k("LBRACKET") + s.expr(d - 1, 1) + s.k("RBRACKET")
            else: core = core + s.k("LPAREN") + s.commas(s.r.randrange(1, 3), lambda: s.spec(d - 1) + s.declor(d - 1, s.p(.5))) + s.k("RPAREN")
        return out + core
    def tname(s, d): return s.spec(d) + (s.declor(d, True) if s.p(.5) else [])
    def init(s, d):
        if d > 0 and s.p(.3): return s.k("LBRACE") + s.commas(s.r.randrange(1, 4), lambda: s.init(d - 1)) + (s.k("COMMA") if s.p(.3) else []) + s.k("RBRACE")
        return s.expr(d)
    def decl(s, d):
        if s.p(.15):
            n = s.r.choice(["U", "V"]); o = s.k("KEYWORD_TYPEDEF") + s.spec(d) + s.declor(d - 1, nm=[("IDENT", n)]) + s.k("SEMICOLON"); s.types = s.types + [n]; return o
        if s.p(.1): return s.tag(s.r.choice(["KEYWORD_STRUCT"]), d, lambda: s.spec(d - 1) + s.declor(d - 1) + s.k("SEMICOLON")) + s.k("SEMICOLON")
        return s.spec(d) + s.commas(s.r.randrange(1, 4), lambda: s.declor(d) + (s.k("EQUAL") + s.init(d - 1) if s.p(.4) else [])) + s.k("SEMICOLON")
    def stmt(s, d):
        x = s.r.randrange(14); K = s.k; e = lambda: s.expr(min(d, 3))
        if d <= 0 or x < 4: return e() + K("SEMICOLON")
        if x == 4: return K("SEMICOLON")
        if x == 5: return K("KEYWORD_RETURN") + (e() if s.p(.7) else []) + K("SEMICOLON")
        if x == 6: return K(s.r.choice(["KEYWORD_BREAK", "KEYWORD_CONTINUE"])) + K("SEMICOLON")
        if x == 7: return (K("KEYWORD_CASE") + e() if s.p(.6) else K("KEYWORD_DEFAULT")) + K("COLON") + s.stmt(d - 1)
        if x in (8, 9): return K("KEYWORD_IF") + K("LPAREN") + e() + K("RPAREN") + s.stmt(d - 1) + (K("KEYWORD_ELSE") + s.stmt(d - 1) if s.p(.5) else [])
        if x == 10: return K(s.r.choice(["KEYWORD_WHILE", "KEYWORD_SWITCH"])) + K("LPAREN") + e() + K("RPAREN") + s.stmt(d - 1)
        if x == 11: return K("KEYWORD_FOR") + K("LPAREN") + (s.spec(0) + s.declor(0) + K("EQUAL") + e() if s.p(.4) else e() if s.p(.7) else []) + K("SEMICOLON") + (e() if s.p(.7) else []) + K("SEMICOLON") + (e() if s.p(.7) else []) + K("RPAREN") + s.stmt(d - 1)
        return s.block(d - 1)
    def block(s, d):
        out = s.k("LBRACE"); t0 = s.types
        for _ in range(s.r.randrange(4)): out = out + (s.decl(min(d, 2)) if s.p(.3) else s.stmt(d))
        s.types = t0; return out + s.k("RBRACE")
    def program(s):
        out = s.k("KEYWORD_TYPEDEF") + s.k("KEYWORD_INT") + [("IDENT", "T")] + s.k("SEMICOLON")
        for _ in range(s.r.randrange(1, 3)):
            if s.p(.5): out = out + s.spec(2) + s.declor(1) + s.k("LPAREN") + s.spec(1) + s.declor(1, s.p(.3)) + s.k("RPAREN") + s.block(4)
            else: out = out + s.decl(3)
        return out
    def mutate(s, t):
        t = list(t); K = [k[7:] for k in S.tu().enums if k.startswith("CTOKEN_") and k not in ("CTOKEN_EOF", "CTOKEN_KEYWORD_TYPEDEF")]
        for _ in range(s.r.choice([1, 1, 2])):
            if len(t) < 6: break
            i = s.r.randrange(4, len(t)); x = s.r.randrange(4)
            if x == 0: del t[i]
            elif x == 1: t.insert(i, s.r.choice(t[4:]))
            elif x == 2: j = s.r.randrange(4, len(t)); t[i], t[j] = t[j], t[i]
            else:
                k = s.r.choice(K); t[i] = s.var()[0] if k == "IDENT" else (k, 0) if k in ("INT", "CHAR") else (k, "s") if k == "STRING" else (k, None)
        return t
TXT = {"ASTERISK": "*", "PLUS": "+", "MINUS": "-", "SLASH": "/", "PERCENT": "%", "AND": "&", "VBAR": "|", "CARET": "^", "LESS": "<", "GREATER": ">", "EQUAL": "=", "EXCLAM": "!", "TILDE": "~", "LPAREN": "(", "RPAREN": ")", "LBRACKET": "[", "RBRACKET": "]", "LBRACE": "{", "RBRACE": "}", "DOT": ".", "ARROW": "->", "QUESTION": "?", "COLON": ":", "SEMICOLON": ";", "COMMA": ","}
def text(toks):
    o = []
    for k, v in toks:
        if k in ("IDENT", "INT"): o.append(str(v))
        elif k == "CHAR": o.append(f"'\\{v % 256:o}'")
        elif k == "STRING": o.append(f'"{v}"')
        elif k.startswith("KEYWORD_"): o.append(k[8:].lower())
        elif k in TXT: o.append(TXT[k])
        else: o.append("".join(TXT[x] for x in k.split("_")))
    return " ".join(o)
def enc(toks):
    E = S.tu().enums; o = []
    for k, v in toks + [("EOF", None)]:
        c = E["CTOKEN_" + k]; o.append(f"{c}:{v}" if k == "IDENT" else f"{c}={v}" if k in ("INT", "CHAR") else f"{c}${v}" if k == "STRING" else str(c))
    return " ".join(o)
def dump(t, E):
    if t is None: return "ERR"
    _, kind, ident, il, sl, ch = t
    return f"({E['AST_' + kind]}" + (f" :{ident}" if ident is not None else "") + (f" ={il[1]}" if il else "") + (f" ${sl[1]}" if sl else "") + "".join(" " + dump(c, E) for c in ch) + ")"
def names(line, E):
    """numbers of node kinds back to names"""
    import re
    inv = {v: k[4:] for k, v in E.items() if k.startswith("AST_")}
    return re.sub(r"\((\d+)", lambda m: "(" + inv.get(int(m.group(1)), m.group(1)), line)
def native(ctx, n, seed):
    exe = ctx.cc("parse_drv", [os.path.join(runner.ROOT, "native", "parse_drv.c"), ctx.repo_lib()])
    r = random.Random(seed * 7919 + 3); E = S.tu().enums; progs = []
    while len(progs) < n:
        g = Gen(r); t = g.program()
        if len(t) > 1200: continue
        progs.append(t)
        if r.random() < .35: progs.append(g.mutate(t))
    # one token list per position of every operator pair is too many; pairs of binary operators exhaustively
    ops = [(k, lv) for lv, o in enumerate(Gen.BIN) for k in o]
    pre = [("KEYWORD_INT", None), ("IDENT", "x"), ("EQUAL", None)]
    for a, _ in ops:
        for b, _ in ops: progs.append(pre + [("INT", 1), (a, None), ("INT", 2), (b, None), ("INT", 3), ("SEMICOLON", None)])
    f = os.path.join(ctx.scratch, "parse.in"); open(f, "w").write("\n".join(enc(p) for p in progs) + "\n")
    rc, out, err = ctx.run([exe, f], 400); lines = out.splitlines(); acc = 0
    for i, p in enumerate(progs):
        want = dump(reference(p), E); acc += want != "ERR"
        if i >= len(lines): return f"the parser fails on: {text(p)}\nexit {rc}\n{err[-1500:]}", acc, len(progs)
        if lines[i] != want: return f"program: {text(p)}\nexpected tree: {names(want, E)}\nparser's tree: {names(lines[i], E)}", acc, len(progs)
    return None, acc, len(progs)

"""The parser against the grammar.

Each parse_* function is executed on a token list of any length and content (token kinds and spellings are symbolic), with the
functions for the other nonterminals by contract: at a position they either fail or yield that nonterminal's tree and a later
position, always the same at the same position.  The outcome (tree, position, or failure) must be the one of the grammar rule,
written below as a function over the same tokens and nonterminals."""
import z3
import absx, objs
from engine import *
from objs import *
from cast import TU

FILES = ["src/parser/expression.c", "src/parser/statement.c", "src/parser/declaration.c", "src/parser/external.c", "src/parser/util.c", "src/parser/parserret.c", "src/parser/parser.c",
         "src/ast/ast.c", "src/ctoken/ctoken.c", "src/common/util.c", "src/common/type.c", "src/error/error.c", "src/error/errint.c", "src/error/errstr.c", "src/vector/vector.c", "src/literal/iliteral.c", "src/literal/sliteral.c"]
TRUSTED = ["clang 18 front end (AST of /repo) and the CVV symbolic executor", "z3 / cvc5", "list and set contracts of C01/C02 at calls of vector_*, set_*", "error values carry no behaviour beyond their presence"]
ASSUMPTIONS = ["the token list ends in its only end-of-input token (C03)", "each nonterminal is parsed by contract (induction over the length of the text): it fails, or yields its tree and a later position, the same whenever asked at the same place"]
_tu = None
def tu():
    global _tu
    if _tu is None:
        import os
        from cast import REPO
        _tu = TU([f for f in FILES if os.path.exists(os.path.join(REPO, f))])
    return _tu
# nonterminals used by contract: function -> name of the tree
NT = ["parse_expr", "parse_constant_expr", "parse_assignment_expr", "parse_conditional_expr", "parse_logical_or_expr", "parse_logical_and_expr", "parse_bitwise_inclusive_or_expr",
      "parse_bitwise_exclusive_or_expr", "parse_bitwise_and_expr", "parse_equality_expr", "parse_relational_expr", "parse_shift_expr", "parse_additive_expr", "parse_multiplicative_expr",
      "parse_cast_expr", "parse_unary_expr", "parse_postfix_expr", "parse_primary_expr", "parse_argument_expr_list",
      "parse_stmt", "parse_compound_stmt", "parse_expression_stmt", "parse_decl", "parse_type_name", "parse_decl_specifiers", "parse_specifier_qualifier_list", "parse_type_specifier", "parse_storage_class_specifier",
      "parse_struct_specifier", "parse_struct_decl_list", "parse_struct_decl", "parse_struct_declarator_list", "parse_enum_specifier", "parse_enumerator_list", "parse_enumerator", "parse_init_declarator_list",
      "parse_init_declarator", "parse_declarator", "parse_abstract_declarator", "parse_direct_declarator", "parse_direct_abstract_declarator", "parse_parameter_list", "parse_parameter_decl", "parse_initializer", "parse_initializer_list",
      "parse_function_definition"]
DEF = [n for n in NT if "declarator" in n and "list" not in n and "init" not in n]
def tokeq(c):
    """token variable and kinds of a condition 'the token is one of these', or None"""
    if z3.is_or(c):
        v = None; ks = set()
        for x in c.children():
            r = tokeq(x)
            if r is None or (v is not None and r[0] != v): return None
            v = r[0]; ks |= r[1]
        return v, ks
    if z3.is_eq(c):
        a, b = c.children()
        if z3.is_int_value(a): a, b = b, a
        if z3.is_int_value(b) and z3.is_const(a) and a.decl().name().startswith("tok"): return a.decl().name(), {b.as_long()}
    return None
class TokEx(Ex):
    """decides questions about token kinds from the set of kinds still possible, without the solver"""
    def branch(s, c):
        if isinstance(c, bool): return c
        c = z3.simplify(c); neg = z3.is_not(c); r = tokeq(c.children()[0] if neg else c)
        if r is None: return Ex.branch(s, c)
        dom = s.ghost.setdefault("dom", {}); d = dom.get(r[0])
        if d is None: d = set(range(s.ghost["w"].ntok))
        yes = d & r[1]; no = d - r[1]
        if not yes or not no: v = bool(yes)
        elif s.nd < len(s.dec): v = s.dec[s.nd] != neg; s.nd += 1
        else:
            v = not neg; s.eng.work.append(s.dec[:s.nd] + [False]); s.dec = s.dec + [True]; s.nd += 1
        dom[r[0]] = yes if v else no
        f = c.children()[0] if neg else c
        s.assume(f if v else z3.Not(f))
        return v != neg
class W:
    """the world of one run: tokens, nonterminals, parser"""
    def __init__(s, ex, limit=8, tlimit=12):
        s.tlimit = tlimit; s.pin = None; s.shaped = False
        s.ex = ex; s.E = ex.tu.enums; s.toks = {}; s.nts = {}; s.limit = limit; s.calls = 0; s.incode = True
        s.n = ex.fresh("n"); s.i0 = ex.fresh("i"); s.ntok = len([k for k in s.E if k.startswith("CTOKEN_")])
        ex.assume(z3.And(s.n >= 1, s.n <= 2**31 - 2, s.i0 >= 0, s.i0 <= s.n - 1))
        s.base = z3.Function("typedef_name", z3.IntSort(), z3.BoolSort())
        b = ex.heap.new(None); ex.heap.objs[b].tag = ["ctokens"]; s.vp = P(b, 0)
        s.set0 = s.newset([]); s.flag0 = ex.choose(2)
        s.pp = rec(ex, "Parser", ctokens=s.vp, index=s.i0, typedef_names_set=s.set0, typedef_flag=s.flag0)
        ex.ghost["w"] = s; s.log = []; s.newnames = []; s.refcalls = 0
    def newset(s, added):
        b = s.ex.heap.new(None); s.ex.heap.objs[b].tag = ["tset", list(added)]; return P(b, 0)
    def key(s, t): return str(simp(t)) if isz(t) else str(t)
    def tok(s, t):
        """token record at a position"""
        k = s.key(t)
        if k not in s.toks:
            ex = s.ex; j = len(s.toks); ty = z3.Int(f"tok{j}@{k}"); nm = z3.Int(f"name{j}")
            ex.assume(z3.And(ty >= 0, ty < s.ntok, (ty == s.E["CTOKEN_EOF"]) == (t == s.n - 1)))
            p = rec(ex, "CToken", type=ty, ident_name=absx.new_str(ex, nm), iliteral=opaque(ex, "iliteral", ("il", k)), sliteral=opaque(ex, "sliteral", ("sl", k)))
            s.toks[k] = (p, ty, nm)
            if s.pin is not None and j == 0:
                ex.ghost.setdefault("dom", {})[ty.decl().name()] = set(s.pin); ex.assume(z3.Or(*[ty == x for x in s.pin]))
        return s.toks[k]
    def isk(s, t, *names):
        """branch: the token at t has one of these kinds"""
        ty = s.tok(t)[1]
        return s.ex.branch(z3.Or(*[ty == s.E["CTOKEN_" + n] for n in names]))
    def kind(s, t, names):
        for n in names:
            if s.isk(t, n): return n
        return None
    def name(s, t): return s.tok(t)[2]
    def istd(s, t): return s.ex.branch(s.member(s.ex.heap.objs[s.set0.b].tag[1] if False else s.added0(), s.name(t)))
    def added0(s): return []
    def member(s, added, nm): return z3.Or(s.base(nm), *[nm == a for a in added])
    # ---- nonterminals
    def nt(s, N, t, incode=False):
        k = (N, s.key(t))
        if k not in s.nts:
            ex = s.ex
            s.calls += 1
            if s.calls > s.limit + (0 if incode else 3): raise PathEnd()
            if N == "parse_storage_class_specifier" or ex.choose(2):
                e = ex.fresh("end"); tree = ("opq", (N, s.key(t))); ab = "abstract" in N
                if N == "parse_storage_class_specifier": tree = A("STG_TYPEDEF")
                if s.shaped and N in DEF:
                    ks = SHAPES[ex.choose(len(SHAPES))]; tree = chain(ks, A("ABS_DECLOR") if ab else A("IDENT_DECLOR", ident=z3.Int(f"name of {N} {s.key(t)}")), N + s.key(t), 0)
                    if ab: ex.assume((e == t) == (not ks))
                ex.assume(z3.And(e >= t if ab else e > t, e <= s.n - 1)); s.nts[k] = (True, tree, e, ex.choose(2) if N == "parse_decl_specifiers" else None)
            else: s.nts[k] = (False, None, None, None)
        return s.nts[k]
def build(ex, d):
    """tree on the heap from its description"""
    if d[0] == "opq": return opaque(ex, "ast", d[1])
    return mkast(ex, d[1], [build(ex, c) for c in d[5]], ident=d[2])
def chain(ks, term, N, k):
    """declarator tree: derivations from the outside in, ending in the name"""
    if not ks: return term
    inner = chain(ks[1:], term, N, k + 1)
    return A(ks[0] + "_DECLOR", [inner] + ([] if ks[0] == "PTR" else [("opq", (N, "part", k))]))
def unchain(d):
    """-> (list of (kind, parts), name)"""
    ks = []
    while d[1] in ("PTR_DECLOR", "ARRAY_DECLOR", "FUNC_DECLOR"): ks.append((d[1], d[5][1:])); d = d[5][0]
    return ks, d
def rechain(ks, term):
    for k, parts in reversed(ks): term = A(k, [term] + list(parts))
    return term
SHAPES = [(), ("PTR",), ("ARRAY",), ("FUNC",), ("PTR", "ARRAY"), ("ARRAY", "PTR"), ("FUNC", "PTR", "PTR")]
def c_nt(N):
    def f(ex, a):
        w = ex.ghost.get("w")
        if w is None: return NotImplemented
        if N in ex.ghost["real"]: ex.ghost["real"] = ex.ghost["real"] - {N}; return NotImplemented
        o = ex.obj(a[0].b, "parser"); i = o.fields["index"]
        w.log.append((N, o.fields["typedef_flag"]))
        ok, tree, e, fl = w.nt(N, i, True)
        E = ex.tu.enums
        if not ok:
            x = ex.fresh("anywhere"); ex.assume(z3.And(x >= 0, x <= w.n - 1)); o.fields["index"] = x
            return rec(ex, "ParserReturn", ast=NULL, err=opaque(ex, "error", "error"))
        o.fields["index"] = e
        if N == "parse_decl_specifiers": o.fields["typedef_flag"] = fl
        if N == "parse_specifier_qualifier_list": o.fields["typedef_flag"] = 0
        if N in ("parse_decl",):
            nn = ex.fresh("newname"); w.newnames.append(nn); ex.obj(o.fields["typedef_names_set"].b, "set of typedef names").tag[1].append(nn)
        return rec(ex, "ParserReturn", ast=build(ex, tree), err=NULL)
    return f
def mk():
    e = Engine(tu(), mode="int", heap="conc"); objs.install(e); e.batch = True; e.maxiter = 64; e.exclass = TokEx
    o = e.overrides
    for N in NT: o[N] = c_nt(N)
    v_at = o["vector_at"]
    def vector_at(ex, a):
        ob = ex.obj(a[0].b, "list")
        if ob.tag != ["ctokens"]: return v_at(ex, a)
        w = ex.ghost["w"]
        if len(w.toks) >= w.tlimit and w.key(a[1]) not in w.toks: raise PathEnd()
        ex.oblige("tokens are read inside the list", z3.And(a[1] >= 0, a[1] < w.n), "mem")
        return w.tok(a[1])[0]
    o["vector_at"] = vector_at
    def vector_size(ex, a):
        ob = ex.obj(a[0].b, "list")
        return ex.ghost["w"].n if ob.tag == ["ctokens"] else len(absx.vec(ex, a[0])[1])
    o["vector_size"] = vector_size
    def new_string(ex, a): return absx.new_str(ex, strid(ex, a[0]))
    o["new_string"] = new_string
    def ts(ex, p):
        t = ex.obj(p.b, "set of typedef names").tag
        if not (isinstance(t, list) and t[0] == "tset"): raise Structural("not the set of typedef names")
        return t
    def set_contains(ex, a): return ex.ghost["w"].member(ts(ex, a[0])[1], strid(ex, a[1]))
    def set_add(ex, a): ts(ex, a[0])[1].append(strid(ex, a[1]))
    def set_copy(ex, a): return ex.ghost["w"].newset(ts(ex, a[0])[1])
    def delete_set(ex, a): ts(ex, a[0]); ex.heap.objs[a[0].b].alive = False
    o.update(set_contains=set_contains, set_add=set_add, set_copy=set_copy, delete_set=delete_set)
    def ctoken_is_type_specifier(ex, a):
        w = ex.ghost.get("w")
        if w is None or "ctoken_is_type_specifier" in ex.ghost["real"]: return NotImplemented
        t = next((x for x in w.toks.values() if x[0].b == a[0].b), None)
        if t is None: return NotImplemented
        if ex.branch(z3.Or(*[t[1] == w.E["CTOKEN_" + k] for k in G_.TS])): return 1
        if not ex.branch(t[1] == w.E["CTOKEN_IDENT"]): return 0
        return int(ex.branch(w.member(ts(ex, a[1])[1], t[2])))
    o["ctoken_is_type_specifier"] = ctoken_is_type_specifier
    e.table_opq = lambda ex, d, i: None if all(isinstance(x, int) for x in d) else absx.new_str(ex, ("table",))
    return e
A = lambda kind, ch=(), ident=None, il=None, sl=None: ("AST", kind, ident, il, sl, list(ch))
class Fail(Exception): pass
# ---------------------------------------------------------------- the grammar
class G_:
    """reference: each rule returns (tree, position) or raises Fail"""
    def __init__(s, w): s.w = w
    def nt(s, N, t):
        ok, tree, e, _ = s.w.nt(N, t)
        if not ok: raise Fail()
        return tree, e
    def eat(s, t, k):
        if not s.w.isk(t, k): raise Fail()
        return simp(t + 1)
    def rep(s, it, tree, t):
        while True:
            r = it(tree, t)
            if r is None: return tree, t
            tree, t = r
    def left1(s, nxt, ops, tree, t):
        k = s.w.kind(t, ops)
        if k is None: return None
        r, t = s.nt(nxt, simp(t + 1)); return A(ops[k], [tree, r]), t
    def left(s, nxt, ops, t):
        tree, t = s.nt(nxt, t)
        return s.rep(lambda a, b: s.left1(nxt, ops, a, b), tree, t)
    def lit(s, t, kind): return ("opq", (kind, s.w.key(t)))
    def ident(s, t, kind): return A(kind, ident=s.w.name(t))
    # expressions
    def parse_expr(s, t): return s.nt("parse_assignment_expr", t)
    def parse_constant_expr(s, t): return s.nt("parse_conditional_expr", t)
    ASG = {"EQUAL": "ASSIGN_EXPR", "ASTERISK_EQUAL": "MUL_ASSIGN_EXPR", "SLASH_EQUAL": "DIV_ASSIGN_EXPR", "PERCENT_EQUAL": "MOD_ASSIGN_EXPR", "PLUS_EQUAL": "ADD_ASSIGN_EXPR", "MINUS_EQUAL": "SUB_ASSIGN_EXPR",
           "LESS_LESS_EQUAL": "LSHIFT_ASSIGN_EXPR", "GREATER_GREATER_EQUAL": "RSHIFT_ASSIGN_EXPR", "AND_EQUAL": "AND_ASSIGN_EXPR", "CARET_EQUAL": "XOR_ASSIGN_EXPR", "VBAR_EQUAL": "OR_ASSIGN_EXPR"}
    def parse_assignment_expr(s, t):
        ok, tree, e, _ = s.w.nt("parse_unary_expr", t)
        k = s.w.kind(e, s.ASG) if ok else None
        if k is None: return s.nt("parse_conditional_expr", t)
        r, e = s.parse_assignment_expr(simp(e + 1)); return A(s.ASG[k], [tree, r]), e
    def parse_conditional_expr(s, t):
        c, t = s.nt("parse_logical_or_expr", t)
        if not s.w.isk(t, "QUESTION"): return c, t
        a, t = s.nt("parse_expr", simp(t + 1)); t = s.eat(t, "COLON"); b, t = s.nt("parse_conditional_expr", t)
        return A("COND_EXPR", [c, a, b]), t
    LV = [("parse_logical_or_expr", "parse_logical_and_expr", {"VBAR_VBAR": "LOR_EXPR"}), ("parse_logical_and_expr", "parse_bitwise_inclusive_or_expr", {"AND_AND": "LAND_EXPR"}),
          ("parse_bitwise_inclusive_or_expr", "parse_bitwise_exclusive_or_expr", {"VBAR": "OR_EXPR"}), ("parse_bitwise_exclusive_or_expr", "parse_bitwise_and_expr", {"CARET": "XOR_EXPR"}),
          ("parse_bitwise_and_expr", "parse_equality_expr", {"AND": "AND_EXPR"}), ("parse_equality_expr", "parse_relational_expr", {"EQUAL_EQUAL": "EQUAL_EXPR", "EXCLAM_EQUAL": "NEQUAL_EXPR"}),
          ("parse_relational_expr", "parse_shift_expr", {"LESS": "LESS_EXPR", "GREATER": "GREATER_EXPR", "LESS_EQUAL": "LESSEQ_EXPR", "GREATER_EQUAL": "GREATEREQ_EXPR"}),
          ("parse_shift_expr", "parse_additive_expr", {"LESS_LESS": "LSHIFT_EXPR", "GREATER_GREATER": "RSHIFT_EXPR"}), ("parse_additive_expr", "parse_multiplicative_expr", {"PLUS": "ADD_EXPR", "MINUS": "SUB_EXPR"}),
          ("parse_multiplicative_expr", "parse_cast_expr", {"ASTERISK": "MUL_EXPR", "SLASH": "DIV_EXPR", "PERCENT": "MOD_EXPR"})]
    def parse_cast_expr(s, t):
        if s.w.isk(t, "LPAREN"):
            ok, tree, e, _ = s.w.nt("parse_type_name", simp(t + 1))
            if ok:
                e = s.eat(e, "RPAREN"); r, e = s.parse_cast_expr(e); return A("CAST_EXPR", [tree, r]), e
        return s.nt("parse_unary_expr", t)
    UN = {"AND": "ADDR_EXPR", "ASTERISK": "INDIR_EXPR", "PLUS": "POS_EXPR", "MINUS": "NEG_EXPR", "TILDE": "NOT_EXPR", "EXCLAM": "LNOT_EXPR"}
    INC = {"PLUS_PLUS": "PREINC_EXPR", "MINUS_MINUS": "PREDEC_EXPR"}
    def parse_unary_expr(s, t):
        k = s.w.kind(t, s.INC)
        if k: r, e = s.nt("parse_unary_expr", simp(t + 1)); return A(s.INC[k], [r]), e
        k = s.w.kind(t, s.UN)
        if k: r, e = s.nt("parse_cast_expr", simp(t + 1)); return A(s.UN[k], [r]), e
        if s.w.isk(t, "KEYWORD_SIZEOF"):
            t = simp(t + 1); ok, tree, e, _ = s.w.nt("parse_unary_expr", t)
            if ok: return A("SIZEOF_EXPR", [tree]), e
            t = s.eat(t, "LPAREN"); tree, t = s.nt("parse_type_name", t); t = s.eat(t, "RPAREN"); return A("SIZEOF_EXPR", [tree]), t
        return s.nt("parse_postfix_expr", t)
    def parse_postfix_expr(s, t):
        tree, t = s.nt("parse_primary_expr", t); return s.rep(s.post1, tree, t)
    def post1(s, tree, t):
        k = s.w.kind(t, ["LBRACKET", "LPAREN", "DOT", "ARROW", "PLUS_PLUS", "MINUS_MINUS"])
        if k is None: return None
        t = simp(t + 1)
        if k == "LBRACKET": r, t = s.nt("parse_expr", t); t = s.eat(t, "RBRACKET"); return A("SUBSC_EXPR", [tree, r]), t
        if k == "LPAREN": r, t = s.nt("parse_argument_expr_list", t); t = s.eat(t, "RPAREN"); return A("CALL_EXPR", [tree, r]), t
        if k in ("DOT", "ARROW"): e = s.eat(t, "IDENT"); return A("MEMBER_EXPR" if k == "DOT" else "TOMEMBER_EXPR", [tree, s.ident(t, "IDENT_EXPR")]), e
        return A("POSTINC_EXPR" if k == "PLUS_PLUS" else "POSTDEC_EXPR", [tree]), t
    def commas(s, N, t):
        out = []
        while True:
            x, t = s.nt(N, t); out.append(x)
            if not s.w.isk(t, "COMMA"): return out, t
            t = simp(t + 1)
    def parse_argument_expr_list(s, t):
        if s.w.isk(t, "RPAREN"): return A("ARG_LIST"), t
        l, t = s.commas("parse_assignment_expr", t); return A("ARG_LIST", l), t
    def parse_primary_expr(s, t):
        k = s.w.kind(t, ["IDENT", "INT", "CHAR", "STRING", "LPAREN"]); n = simp(t + 1)
        if k == "IDENT":
            if s.w.istd(t): raise Fail()
            return s.ident(t, "IDENT_EXPR"), n
        if k == "INT": return A("INT_EXPR", il=s.lit(t, "il")), n
        if k == "CHAR": return A("CHAR_EXPR", il=s.lit(t, "il")), n
        if k == "STRING": return A("STRING_EXPR", sl=s.lit(t, "sl")), n
        if k == "LPAREN": r, e = s.nt("parse_expr", n); return r, s.eat(e, "RPAREN")
        raise Fail()
    # statements
    def seq(s, kind, t, *parts):
        ch = []
        for p in parts:
            if p.startswith("parse_"): x, t = s.nt(p, t); ch.append(x)
            else: t = s.eat(t, p)
        return A(kind, ch), t
    def parse_case_stmt(s, t): return s.seq("CASE_STMT", t, "KEYWORD_CASE", "parse_expr", "COLON", "parse_stmt")
    def parse_default_stmt(s, t): return s.seq("DEFAULT_STMT", t, "KEYWORD_DEFAULT", "COLON", "parse_stmt")
    def parse_continue_stmt(s, t): return s.seq("CONTINUE_STMT", t, "KEYWORD_CONTINUE", "SEMICOLON")
    def parse_break_stmt(s, t): return s.seq("BREAK_STMT", t, "KEYWORD_BREAK", "SEMICOLON")
    def parse_return_stmt(s, t):
        t = s.eat(t, "KEYWORD_RETURN")
        if s.w.isk(t, "SEMICOLON"): return A("RET_STMT"), simp(t + 1)
        return s.seq("RET_STMT", t, "parse_expr", "SEMICOLON")
    def parse_expression_stmt(s, t):
        if s.w.isk(t, "SEMICOLON"): return A("NULL_STMT"), simp(t + 1)
        return s.seq("EXPR_STMT", t, "parse_expr", "SEMICOLON")
    def parse_if_else_stmt(s, t):
        r, t = s.seq("IF_STMT", t, "KEYWORD_IF", "LPAREN", "parse_expr", "RPAREN", "parse_stmt")
        if s.w.isk(t, "KEYWORD_ELSE"): x, t = s.nt("parse_stmt", simp(t + 1)); r[5].append(x)
        return r, t
    def parse_switch_stmt(s, t): return s.seq("SWITCH_STMT", t, "KEYWORD_SWITCH", "LPAREN", "parse_expr", "RPAREN", "parse_stmt")
    def parse_while_stmt(s, t): return s.seq("WHILE_STMT", t, "KEYWORD_WHILE", "LPAREN", "parse_expr", "RPAREN", "parse_stmt")
    def parse_for_stmt(s, t):
        t = s.eat(t, "KEYWORD_FOR"); t = s.eat(t, "LPAREN"); a, t = s.nt("parse_decl", t) if s.maydecl(t) else s.nt("parse_expression_stmt", t)
        b, t = s.nt("parse_expression_stmt", t)
        if s.w.isk(t, "RPAREN"): c = A("NULL_STMT")
        else: x, t = s.nt("parse_expr", t); c = A("EXPR_STMT", [x])
        t = s.eat(t, "RPAREN"); d, t = s.nt("parse_stmt", t); return A("FOR_STMT", [a, b, c, d]), t
    TS = ["KEYWORD_VOID", "KEYWORD_CHAR", "KEYWORD_INT", "KEYWORD_LONG", "KEYWORD_UNSIGNED", "KEYWORD_STRUCT", "KEYWORD_ENUM"]
    def istype(s, t, added=()):
        if s.w.isk(t, *s.TS): return True
        return s.w.isk(t, "IDENT") and s.w.ex.branch(s.w.member(list(added), s.w.name(t)))
    def maydecl(s, t, added=()): return s.w.isk(t, "KEYWORD_TYPEDEF") or s.istype(t, added)
    def parse_stmt(s, t):
        m = {"KEYWORD_CASE": "case", "KEYWORD_DEFAULT": "default", "KEYWORD_CONTINUE": "continue", "KEYWORD_BREAK": "break", "KEYWORD_RETURN": "return", "KEYWORD_IF": "if_else", "KEYWORD_SWITCH": "switch", "KEYWORD_WHILE": "while", "KEYWORD_FOR": "for"}
        k = s.w.kind(t, m)
        if k: return getattr(s, f"parse_{m[k]}_stmt")(t)
        if s.w.isk(t, "LBRACE"): return s.nt("parse_compound_stmt", t)
        return s.nt("parse_expression_stmt", t)
    def parse_compound_stmt(s, t):
        t = s.eat(t, "LBRACE"); out = []; added = s.w.newnames
        k = 0
        while not s.w.isk(t, "RBRACE"):
            if s.maydecl(t, added[:k]): x, t = s.nt("parse_decl", t); k += 1
            else: x, t = s.nt("parse_stmt", t)
            out.append(x)
        return A("CMPD_STMT", out), simp(t + 1)
    # declarations
    def parse_decl(s, t):
        sp, t = s.nt("parse_decl_specifiers", t)
        if s.w.isk(t, "SEMICOLON"): return A("DECL", [sp]), simp(t + 1)
        l, t = s.nt("parse_init_declarator_list", t); return A("DECL", [sp, l]), s.eat(t, "SEMICOLON")
    def parse_type_name(s, t):
        sp, t = s.nt("parse_specifier_qualifier_list", t); ok, d, e, _ = s.w.nt("parse_abstract_declarator", t)
        return (A("TYPE_NAME", [sp, d]), e) if ok else (A("TYPE_NAME", [sp]), t)
    def parse_decl_specifiers(s, t):
        out = []
        while True:
            if s.w.isk(t, "KEYWORD_TYPEDEF"): x, t = s.nt("parse_storage_class_specifier", t); s.td = 1
            elif s.istype(t): x, t = s.nt("parse_type_specifier", t)
            else: break
            out.append(x)
        if not out: raise Fail()
        return A("DECL_SPECS", out), t
    td = 0
    def parse_specifier_qualifier_list(s, t):
        out = []
        while s.istype(t): x, t = s.nt("parse_type_specifier", t); out.append(x)
        if not out: raise Fail()
        return A("SPEC_QUAL_LIST", out), t
    def parse_storage_class_specifier(s, t): return A("STG_TYPEDEF"), s.eat(t, "KEYWORD_TYPEDEF")
    def parse_type_specifier(s, t):
        for k in ("VOID", "CHAR", "INT", "LONG", "UNSIGNED"):
            if s.w.isk(t, "KEYWORD_" + k): return A("TYPE_" + k), simp(t + 1)
        if s.w.isk(t, "KEYWORD_STRUCT"): return s.nt("parse_struct_specifier", t)
        if s.w.isk(t, "KEYWORD_ENUM"): return s.nt("parse_enum_specifier", t)
        return s.ident(t, "TYPEDEF_NAME"), s.eat(t, "IDENT")
    def tagged(s, t, kw, node, nm, lst):
        t = s.eat(t, kw); ch = []
        if s.w.isk(t, "IDENT"): ch.append(s.ident(t, nm)); t = simp(t + 1)
        if s.w.isk(t, "LBRACE"): x, t = s.nt(lst, simp(t + 1)); ch.append(x); t = s.eat(t, "RBRACE")
        if not ch: raise Fail()
        return A(node, ch), t
    def parse_struct_specifier(s, t): return s.tagged(t, "KEYWORD_STRUCT", "TYPE_STRUCT", "STRUCT_NAME", "parse_struct_decl_list")
    def parse_enum_specifier(s, t): return s.tagged(t, "KEYWORD_ENUM", "TYPE_ENUM", "ENUM_NAME", "parse_enumerator_list")
    def parse_struct_decl_list(s, t):
        out = []
        while True:
            x, t = s.nt("parse_struct_decl", t); out.append(x)
            if s.w.isk(t, "RBRACE"): return A("STRUCT_DECL_LIST", out), t
    def parse_struct_decl(s, t): return s.seq("STRUCT_DECL", t, "parse_specifier_qualifier_list", "parse_struct_declarator_list", "SEMICOLON")
    def parse_struct_declarator_list(s, t): l, t = s.commas("parse_declarator", t); return A("STRUCT_DECLOR_LIST", l), t
    def closed(s, N, t):
        """comma-separated up to a closing brace, a comma allowed before it"""
        out = []
        while True:
            x, t = s.nt(N, t); out.append(x)
            if s.w.isk(t, "RBRACE"): return out, t
            t = s.eat(t, "COMMA")
            if s.w.isk(t, "RBRACE"): return out, t
    def parse_enumerator_list(s, t): l, t = s.closed("parse_enumerator", t); return A("ENUMOR_LIST", l), t
    def parse_enumerator(s, t):
        e = s.eat(t, "IDENT"); ch = [s.ident(t, "ENUM_CONST")]
        if s.w.isk(e, "EQUAL"): x, e = s.nt("parse_constant_expr", simp(e + 1)); ch.append(x)
        return A("ENUMOR", ch), e
    def parse_init_declarator_list(s, t): l, t = s.commas("parse_init_declarator", t); return A("INIT_DECLOR_LIST", l), t
    def parse_init_declarator(s, t):
        d, t = s.nt("parse_declarator", t); ch = [d]
        if s.w.isk(t, "EQUAL"): x, t = s.nt("parse_initializer", simp(t + 1)); ch.append(x)
        return A("INIT_DECLOR", ch), t
    def parse_parameter_list(s, t): l, t = s.commas("parse_parameter_decl", t); return A("PARAM_LIST", l), t
    def parse_parameter_decl(s, t):
        sp, t = s.nt("parse_decl_specifiers", t); ok, d, e, _ = s.w.nt("parse_declarator", t)
        if not ok: d, e = s.nt("parse_abstract_declarator", t)
        return A("PARAM_DECL", [sp, d]), e
    def parse_initializer(s, t):
        if not s.w.isk(t, "LBRACE"): return s.nt("parse_assignment_expr", t)
        x, t = s.nt("parse_initializer_list", simp(t + 1)); return x, s.eat(t, "RBRACE")
    def parse_initializer_list(s, t): l, t = s.closed("parse_initializer", t); return A("INIT_LIST", l), t
    def parse_function_definition(s, t): return s.seq("FUNC_DEF", t, "parse_decl_specifiers", "parse_declarator", "parse_compound_stmt")
def h_declarator(ab):
    """pointers in front of a direct declarator"""
    fn = "parse_abstract_declarator" if ab else "parse_declarator"; dn = "parse_direct_abstract_declarator" if ab else "parse_direct_declarator"
    def h(ex):
        w = W(ex, 4, 5); w.shaped = True; ex.ghost["real"] = {fn}
        def ref():
            g = G_(w); t = w.i0; p = 0
            while w.isk(t, "ASTERISK"): t = simp(t + 1); p += 1
            d, e = g.nt(dn, t); ks, term = unchain(d)
            return rechain(ks + [("PTR_DECLOR", [])] * p, term), e
        outcome(ex, w, fn, ex.call(FnVal(fn), [w.pp], None), ref)
    return h
def h_direct(ab):
    fn = "parse_direct_abstract_declarator" if ab else "parse_direct_declarator"; dn = "parse_abstract_declarator" if ab else "parse_declarator"
    def h(ex):
        w = W(ex, 4, 7); w.shaped = True; ex.ghost["real"] = {fn}; new = []
        def ref():
            g = G_(w); t = w.i0; ks = []
            if w.isk(t, "LPAREN"):
                d, e = g.nt(dn, simp(t + 1)); ks, term = unchain(d)
                if not (ab and not ks): t = g.eat(e, "RPAREN")
            elif ab:
                if w.isk(t, "IDENT"): raise Fail()
                term = A("ABS_DECLOR")
            else:
                e = g.eat(t, "IDENT"); term = g.ident(t, "IDENT_DECLOR"); t = e
                if w.flag0: new.append(term[2])
            while True:
                k = w.kind(t, ["LBRACKET", "LPAREN"])
                if k is None: return rechain(ks, term), t
                x, t = g.nt("parse_constant_expr" if k == "LBRACKET" else "parse_parameter_list", simp(t + 1)); t = g.eat(t, "RBRACKET" if k == "LBRACKET" else "RPAREN")
                ks = ks + [("ARRAY_DECLOR" if k == "LBRACKET" else "FUNC_DECLOR", [x])]
        outcome(ex, w, fn, ex.call(FnVal(fn), [w.pp], None), ref)
        f = ex.heap.objs[w.pp.b].fields; s1 = ex.obj(f["typedef_names_set"].b, "set of typedef names").tag[1]
        ex.oblige(f"{fn}: a name becomes a type name exactly in a type definition", same(ex, s1, new), "post")
    return h
def h_maydef(ex):
    fn = "external_may_function_definition"; w = W(ex, 4, 6); ex.ghost["real"] = {fn}; g = G_(w)
    r = ex.call(FnVal(fn), [w.pp], None); o = ex.obj(r.b, "result").fields; po = ex.heap.objs[w.pp.b].fields
    try:
        _, e = g.nt("parse_decl_specifiers", w.i0); ok, d, e, _ = w.nt("parse_declarator", e); want = ok and w.isk(e, "LBRACE")
        ex.oblige(f"{fn}: only looks ahead", isn(o["err"]), "post"); ex.oblige(f"{fn}: a declarator followed by a brace starts a function", ex.branch(ex.tobool(o["value"])) == bool(want), "post")
    except Fail: ex.oblige(f"{fn}: text without declaration specifiers is reported", not isn(o["err"]), "post")
    ex.oblige(f"{fn}: the position, type names and flag are as before", z3.And(z3.BoolVal(po["typedef_flag"] == w.flag0 and ex.obj(po["typedef_names_set"].b, "set of typedef names").tag[1] == []), po["index"] == w.i0), "post")
    ex.eng.reach.append((fn, list(ex.pc)))
def h_unit(ex):
    fn = "parse_translation_unit"; w = W(ex, 4, 6); ex.ghost["real"] = {fn}; memo = {}
    def may(t):
        k = w.key(t)
        if k not in memo: memo[k] = ex.choose(3)
        return memo[k]
    def c_may(ex2, a):
        m = may(ex.obj(a[0].b, "parser").fields["index"]); b = rec(ex, "ErrorableInt", value=-1 if m == 2 else m, err=opaque(ex, "error", "error") if m == 2 else NULL); return b
    ex.eng.overrides["external_may_function_definition"] = c_may
    def ref():
        g = G_(w); t = w.i0; out = []
        while True:
            m = may(t)
            if m == 2: raise Fail()
            x, t = g.nt("parse_function_definition" if m else "parse_decl", t); out.append(x)
            if w.isk(t, "EOF"): return A("TRAS_UNIT", out), t
    outcome(ex, w, fn, ex.call(FnVal(fn), [w.pp], None), ref)
def h_new(ex):
    w = W(ex); ex.ghost["real"] = set(); p = ex.call(FnVal("new_parser"), [w.vp], None); f = ex.obj(p.b, "parser").fields
    ex.oblige("parsing starts at the first token, with no type names", f["ctokens"] == w.vp and f["index"] == 0 and f["typedef_flag"] == 0, "post"); ex.eng.reach.append(("new_parser", list(ex.pc)))
for _f, _n, _o in G_.LV: setattr(G_, _f, (lambda n, o: lambda s, t: s.left(n, o, t))(_n, _o))
def outcome(ex, w, fn, ret, ref):
    """compare the run with the rule"""
    o = ex.obj(ret.b, "result"); ast, err = o.fields["ast"], o.fields["err"]
    idx = ex.heap.objs[w.pp.b].fields["index"]
    r = Rd(ex); tree = r.ast(ast)
    w.incode = False
    try: want, end = ref(); 
    except Fail: want = None
    if want is None:
        ex.oblige(f"{fn}: text outside the grammar is reported", not isn(err) and isn(ast), "post"); ok = False
    else:
        ex.oblige(f"{fn}: text of the grammar is accepted", isn(err) and tree is not None, "post")
        ex.oblige(f"{fn}: the tree is the one of the grammar rule", same(ex, tree, want), "post")
        ex.oblige(f"{fn}: exactly the tokens of the phrase are consumed", idx == end, "post")
        ex.oblige(f"{fn}: no part is used twice", len(set(r.foot)) == len(r.foot), "post"); ok = True
    ex.eng.reach.append((fn, list(ex.pc)))
    return ok
def own_loops(fn):
    out = []
    def walk(n):
        if n.kind in ("WhileStmt", "ForStmt", "DoStmt"): out.append(n.id)
        for c in n.inner: walk(c)
    walk(tu().funcs[fn]); return out
def h_loop(fn, nxt, it):
    """a left-associative level for any number of operators: one turn of its loop from any accumulated tree"""
    def h(ex):
        w = W(ex, 4, 6); ex.ghost["real"] = {fn}; g = G_(w); st = {"at": None, "cells": []}; ACC = ("opq", ("tree so far",))
        po = ex.heap.objs[w.pp.b]
        def rd(p):
            if not isinstance(p, P) or isn(p) or not ex.heap.objs[p.b].alive: return None
            return Rd(ex).ast(p)
        def ptr(c, cell):
            v = cell.v; ok, tree, e, _ = w.nt(nxt, w.i0)
            if "Ast" in cell.qt and rd(v) == tree:
                p = opaque(ex, "ast", ACC[1]); st["cells"].append(cell); return p
            if isinstance(v, P) and not isn(v) and "Parser" in cell.qt: return v
            return NULL
        def ptr_set(x): x.v = opaque(ex, "ast", ACC[1]); st["cells"].append(x)
        def havoc(c):
            ok, tree, e, _ = w.nt(nxt, w.i0)
            if not st["cells"]:
                for fr in ex.frames:
                    for x in fr["vars"].values():
                        if isinstance(x.v, P) and not isn(x.v) and x.qt.replace(" ", "") in ("Ast*", "structAst*") and rd(x.v) == tree: ptr_set(x)
            ex.oblige("on reaching the loop the first operand is parsed", ok and len(st["cells"]) == 1, "inv"); ex.oblige("on reaching the loop the first operand is consumed", po.fields["index"] == e, "inv")
            m = ex.fresh("at"); ex.assume(z3.And(m > w.i0, m <= w.n - 1)); po.fields["index"] = m; st["at"] = m
        def step(c):
            r = None
            try: r = it(g, ACC, st["at"])
            except Fail: ex.oblige(f"{fn}: text outside the grammar is reported", c.i("err") != 0 if False else any("Error" in x.qt and not isn(x.v) for fr in ex.frames for x in fr["vars"].values() if isinstance(x.v, P)), "inv"); return
            ex.oblige(f"{fn}: an operator continues the expression", r is not None, "inv")
            ex.oblige(f"{fn}: one more operator is applied to the tree so far and the next operand", same(ex, rd(st["cells"][0].v), r[0]), "inv"); ex.oblige(f"{fn}: exactly its tokens are consumed", po.fields["index"] == r[1], "inv")
        order = own_loops(fn)
        if len(order) != 1: raise Structural("not one loop")
        ex.loop_map = {order[0]: 0}; ex.eng.loopspecs = {0: dict(inv=lambda c: [], ptr=ptr, havoc=havoc, step=step)}
        ret = ex.call(FnVal(fn), [w.pp], None)
        if st["at"] is None:
            ok = w.nt(nxt, w.i0)[0]; ex.oblige(f"{fn}: only a missing operand ends it before the loop", not ok, "post"); outcome(ex, w, fn, ret, lambda: g.nt(nxt, w.i0)); return
        def ref():
            r = it(g, ACC, st["at"])
            if r is None: return ACC, st["at"]
            ex.oblige(f"{fn}: ends only where no operator follows", False, "post")
        outcome(ex, w, fn, ret, ref)
    return h
def h_istype(ex):
    w = W(ex); ex.ghost["real"] = {"ctoken_is_type_specifier"}; g = G_(w)
    r = ex.call(FnVal("ctoken_is_type_specifier"), [w.tok(w.i0)[0], w.set0], None); r = ex.branch(ex.tobool(r))
    ex.oblige("a type specifier is a type keyword or the name of a type", r == g.istype(w.i0), "post"); ex.eng.reach.append(("istype", list(ex.pc)))
def h_rule(fn, limit=6, tlimit=12, pre=None, pin=None):
    def h(ex):
        w = W(ex, limit, tlimit); ex.ghost["real"] = {fn}; w.pin = pin
        if pre and not pre(w, G_(w)): raise PathEnd()
        ret = ex.call(FnVal(fn), [w.pp], None)
        ok = outcome(ex, w, fn, ret, lambda: getattr(G_(w), fn)(w.i0))
        f = ex.heap.objs[w.pp.b].fields; s1 = ex.obj(f["typedef_names_set"].b, "set of typedef names")
        if fn in ("parse_decl_specifiers", "parse_specifier_qualifier_list"):
            if ok:
                g = G_(w); 
                try: getattr(g, fn)(w.i0)
                except Fail: pass
                ex.oblige(f"{fn}: whether names are being defined as types is recorded", f["typedef_flag"] == (g.td if fn == "parse_decl_specifiers" else 0), "post")
        else: ex.oblige(f"{fn}: the type-definition flag is restored", f["typedef_flag"] == w.flag0, "post")
        if fn not in ("parse_decl", "parse_for_stmt", "parse_stmt"): ex.oblige(f"{fn}: the type names known outside are the same as before", s1.tag[1] == [], "post")
    return h

def rules():
    """(name, harness, what bounds it)"""
    u = []
    for fn, nx, ops in G_.LV:
        u.append((f"{fn}: any number of operators", h_loop(fn, nx, lambda g, a, t, nx=nx, ops=ops: g.left1(nx, ops, a, t))))
        u.append((f"{fn}: up to 3 operators", h_rule(fn, 4, 6)))
    u.append(("parse_postfix_expr: any number of operators", h_loop("parse_postfix_expr", "parse_primary_expr", lambda g, a, t: g.post1(a, t))))
    u.append(("parse_postfix_expr: up to 2 operators", h_rule("parse_postfix_expr", 3, 4)))
    nk = len([k for k in tu().enums if k.startswith("CTOKEN_")]); E = tu().enums
    asg = [E["CTOKEN_" + k] for k in G_.ASG]; rest = [k for k in range(nk) if k not in asg]
    for i, pin in enumerate([[a] for a in asg] + [rest]): u.append((f"parse_assignment_expr: chains of up to 3 ({i + 1}/{len(asg) + 1})", h_rule("parse_assignment_expr", 4 if i < 1 else 3, 6, pin=pin)))
    u.append(("parse_cast_expr: chains of up to 4", h_rule("parse_cast_expr", 5, 12)))
    un = [E["CTOKEN_" + k] for k in list(G_.UN) + list(G_.INC) + ["KEYWORD_SIZEOF"]]
    for fn in ("parse_expr", "parse_constant_expr", "parse_conditional_expr", "parse_unary_expr", "parse_primary_expr"): u.append((fn, h_rule(fn, 6, 8)))
    u.append(("parse_argument_expr_list: up to 4 arguments", h_rule("parse_argument_expr_list", 4, 8)))
    return u
def rules2():
    u = [("ctoken_is_type_specifier", h_istype)]
    for fn in [f for f in dir(G_) if f.startswith("parse_") and f.endswith("_stmt")]: u.append((fn, h_rule(fn, 3 if fn == "parse_compound_stmt" else 8, 5 if fn == "parse_compound_stmt" else 10)))
    u += [("parse_declarator", h_declarator(0)), ("parse_abstract_declarator", h_declarator(1)), ("parse_direct_declarator", h_direct(0)), ("parse_direct_abstract_declarator", h_direct(1)), ("external_may_function_definition", h_maydef), ("parse_translation_unit", h_unit)]
    T = lambda w, g: g.istype(w.i0)
    for fn, pre, lim in [("parse_decl", None, 6), ("parse_type_name", None, 6), ("parse_decl_specifiers", None, 3), ("parse_specifier_qualifier_list", None, 4), ("parse_storage_class_specifier", lambda w, g: w.isk(w.i0, "KEYWORD_TYPEDEF"), 4), ("parse_type_specifier", T, 4),
                    ("parse_struct_specifier", lambda w, g: w.isk(w.i0, "KEYWORD_STRUCT"), 4), ("parse_enum_specifier", lambda w, g: w.isk(w.i0, "KEYWORD_ENUM"), 4), ("parse_struct_decl_list", None, 4), ("parse_struct_decl", None, 4), ("parse_struct_declarator_list", None, 4),
                    ("parse_enumerator_list", None, 4), ("parse_enumerator", None, 4), ("parse_init_declarator_list", None, 4), ("parse_init_declarator", None, 4), ("parse_parameter_list", None, 4), ("parse_parameter_decl", None, 4), ("parse_initializer", None, 4), ("parse_initializer_list", None, 4), ("parse_function_definition", None, 4)]:
        u.append((fn, h_rule(fn, lim, 8, pre=pre)))
    return u

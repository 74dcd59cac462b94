"""Random texts scanned by the real scanner and by a reference scanner written from the C standard's lexical grammar."""
import os, random, re
import runner, lex_spec as S
WORD = "_abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ"
def escape(t, i):
    """behind a backslash: (value, position) or None"""
    if i >= len(t): return None
    c = t[i]; m = re.compile(r"x([0-9a-fA-F]+)").match(t, i) or re.compile(r"([0-7]{1,3})").match(t, i)
    if m: return int(m[1], 16 if c == "x" else 8), m.end()
    if c in S.ESC: return S.ESC[c], i + 1
def tokens(t):
    """list of (kind, name, (type, value), bytes) or None"""
    out = []; i = 0
    while True:
        while i < len(t) and t[i] in " \t\n\v\f": i += 1
        if i == len(t): return out + [("EOF", None, None, None)]
        c = t[i]
        if c in WORD:
            m = re.compile(r"[A-Za-z0-9_]+").match(t, i); w = m[0]; i = m.end(); out.append(("KEYWORD_" + w.upper(), None, None, None) if w in S.KW else ("IDENT", w, None, None))
        elif c.isdigit() and c in "0123456789":
            if t[i:i + 2] in ("0x", "0X"): base = 16; m = re.compile(r"[0-9a-fA-F]+").match(t, i + 2)
            elif c == "0": base = 8; m = re.compile(r"[0-7]+").match(t, i)
            else: base = 10; m = re.compile(r"[0-9]+").match(t, i)
            if not m: return None
            v = int(m[0], base); i = m.end(); k = max([x for x in S.SUF if t.startswith(x, i)], key=len, default="")
            i += len(k); ls = S.clist(S.SUF[k] if k else "INT", base); lim = {"INT": 31, "UNSIGNED_INT": 32, "LONG": 63, "UNSIGNED_LONG": 64, "LONGLONG": 63, "UNSIGNED_LONGLONG": 64}
            fit = [x for x in ls if v < 1 << lim[x]]
            out.append(("INT", None, (fit[0] if fit else None, v), None))
        elif c in "'\"":
            i += 1; b = []
            while True:
                if i >= len(t) or t[i] == "\n": return None
                if t[i] == c:
                    if c == "'" and not b: return None
                    i += 1; break
                if t[i] == "\\":
                    e = escape(t, i + 1)
                    if e is None: return None
                    b.append(e[0]); i = e[1]
                else: b.append(ord(t[i])); i += 1
            out.append(("CHAR", None, ("INT", b[0] % 256), None) if c == "'" else ("STRING", None, None, [x % 256 for x in b] + [0]))
        else:
            k = max([x for x in S.PN if t.startswith(x, i)], key=len, default=None)
            if k is None: return None
            out.append((S.PN[k], None, None, None)); i += len(k)
def gen(r, focus):
    P = sorted(S.PN)
    def byte(no): 
        while True:
            c = chr(r.choice([r.randrange(32, 127), r.randrange(32, 127), r.randrange(1, 256)]))
            if c not in no: return c
    def esc():
        x = r.random()
        if x < .35: return "\\" + r.choice(sorted(S.ESC))
        if x < .65: return "\\" + "".join(r.choice("01234567") for _ in range(r.randrange(1, 5)))
        if x < .95: return "\\x" + "0" * r.choice([0, 0, 3, 12]) + "".join(r.choice("0123456789abcdefABCDEF") for _ in range(r.randrange(1, 3))) + r.choice(["", "g", "\\n"])
        return "\\" + byte("\n\\")
    def text(q, n): return q + "".join(esc() if r.random() < .3 else byte("\n\\" + q) for _ in range(n)) + q
    def num():
        b = r.choice([8, 10, 16, 10]); v = r.choice([r.randrange(0, 12), r.randrange(1 << r.randrange(1, 65)), (1 << r.choice([7, 8, 31, 32, 63, 64])) - r.randrange(3), 1 << r.choice([31, 32, 63])]) % (1 << 64)
        s = {8: "0%o", 10: "%d", 16: r.choice(["0x%x", "0X%X", "0x%X"])}[b] % v
        if b == 16 and r.random() < .2: s = s[:2] + "0" * 20 + s[2:]
        if b == 8 and r.random() < .2: s = "0" * 25 + s
        return s + r.choice(["", "", *sorted(S.SUF), "lL", "ulu", "lul", "e", "x", "Lll"])
    def one():
        x = r.random()
        if focus == "C04" and x < .8: return num()
        if focus == "C05" and x < .7: return text('"', r.choice([0, 1, 2, 3, 4, 5, 7, 8, 9, 31, 40])) if r.random() < .6 else text("'", r.choice([1, 1, 1, 2, 5]))
        if x < .25: return r.choice(S.KW + ["a", "_", "x1", "iff", "in", "Int", "whil", "whiles"]) if r.random() < .7 else "".join(r.choice(WORD + "0123456789") for _ in range(r.choice([1, 2, 3, 4, 7, 8, 9, 15, 16, 17, 40])))
        if x < .45: return num()
        if x < .55: return text('"', r.randrange(12))
        if x < .62: return text("'", r.randrange(1, 3))
        if x < .93: return "".join(r.choice(P) for _ in range(r.randrange(1, 3)))
        return r.choice(["'", '"', "''", '"\\', "'\\", "@", "$", "`", "#", "\\", "\r", "\x80", "0x", "0xg", "08", "09", '"a\n', "'a\n'", "'ab", '"ab', "..", "..."])
    return "".join(one() + r.choice(["", " ", " ", "\n", "\t ", "\v\f", "  "]) for _ in range(r.randrange(0, 9)))
def show(ts, E, keep):
    if ts is None: return None
    o = []
    for k, nm, il, sl in ts: o.append((E["CTOKEN_" + k], nm if "name" in keep else None, il if "num" in keep and k == "INT" or "bytes" in keep and k == "CHAR" else None, sl if "bytes" in keep else None))
    return o
KEEP = {"C03": ("name", "num", "bytes"), "C04": ("num",), "C05": ("bytes",)}
def native(ctx, n, seed, pid):
    exe = ctx.cc("lex_drv", [os.path.join(runner.ROOT, "native", "lex_drv.c"), ctx.repo_lib()])
    r = random.Random(seed * 131 + {"C03": 1, "C04": 2, "C05": 3}[pid]); E = S.tu().enums; ts = []
    while len(ts) < n: ts.append(gen(r, pid))
    if pid == "C03": ts += [a + b + x for a in sorted(S.PN) for b in sorted(S.PN) for x in ("", "=")] + sorted(S.PN) + S.KW + [k[:-1] for k in S.KW] + [k + x for k in S.KW for x in "s1_"] + [chr(c) for c in range(1, 256)] + ["a" * k for k in range(1, 70)]
    if pid == "C04": ts += [p + k for p in ("1", "07", "0xf", "4294967295", "2147483648", "0x80000000", "9223372036854775807", "0x8000000000000000", "0") for k in [""] + sorted(S.SUF)] + ["1" + a + b + c for a in "uUlLx" for b in "uUlLx" for c in "uUlLx"] + ["%d" % (10**k) for k in range(19)]
    if pid == "C05": ts += ['"' + "\\%03o" % c + '" \'\\x%x\'' % c for c in range(1, 256)] + ["'" + "\\" + chr(c) + "'" for c in range(1, 256)] + ['"' + chr(c) + '"' for c in range(1, 256)] + ['"' + "a" * k + '"' for k in range(70)] + ['"' + "\\0" * k + '"' for k in range(20)]
    f = os.path.join(ctx.scratch, "lex.in"); open(f, "wb").write(b"".join(b"%d\n" % len(t) + t.encode("latin-1") for t in ts))
    rc, out, err = ctx.run([exe, f], 400); lines = out.splitlines(); acc = 0; keep = KEEP[pid]
    for i, t in enumerate(ts):
        full = tokens(t); want = show(full, E, keep); acc += want is not None
        if full and any(il and il[0] is None or il and k == "INT" and il[1] >= 1 << 64 for k, _, il, _ in full): continue
        if i >= len(lines): return f"the scanner fails on the text {t!r}\nexit {rc}\n{err[-1500:]}", acc, len(ts)
        got = None if lines[i] == "ERR" else []
        if lines[i] == "BOTH": return f"text {t!r}: an error and tokens", acc, len(ts)
        if got is not None:
            for x in lines[i].split():
                m = re.fullmatch(r"(\d+)(?::(\w*))?(?:=(\d+),(\d+))?(?:\$([0-9a-f]*))?", x); k = int(m[1]); il = None
                if m[3] is not None and ("num" in keep and k == E["CTOKEN_INT"] or "bytes" in keep and k == E["CTOKEN_CHAR"]): il = (next(y for y in S.ORDER if E["INTEGER_" + y] == int(m[3])), int(m[4]) % (256 if k == E["CTOKEN_CHAR"] else 1 << 64))
                got.append((k, m[2] if "name" in keep else None, il, list(bytes.fromhex(m[5])) if m[5] is not None and "bytes" in keep else None))
        if got != want: return f"text {t!r}\nexpected tokens: {want}\nscanner's tokens: {got}", acc, len(ts)
    return None, acc, len(ts)

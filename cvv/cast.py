"""Front end: the C source in /repo, parsed by clang on every run (-ast-dump=json), as compact nodes."""
import json, subprocess, os, re

REPO = os.environ.get("VERIF_REPO", "/repo")

class FrontError(Exception):
    pass

class N:
    __slots__ = ("kind", "id", "name", "qt", "inner", "op", "cast", "value", "ref", "line", "raw", "postfix", "arrow", "hasInit", "hasElse", "memid", "file", "argt", "hasVar")
    def __init__(s):
        s.inner = []
    def __repr__(s):
        return f"<{s.kind} {s.name or ''} {s.qt or ''} L{s.line}>"

def _qt(t):
    if not t:
        return None
    return t.get("desugaredQualType") or t.get("qualType")

class TU:
    """All the translation units asked for, merged: functions, records, enums, typedefs, globals."""
    def __init__(self, files, cflags=()):
        self.funcs = {}      # name -> FunctionDecl node with body
        self.func_file = {}
        self.records = {}    # name -> [(field, type)]
        self.field_of = {}   # field decl id -> (record, field) per file
        self.enums = {}      # enum constant decl id -> value ; also by name
        self.enum_types = set()
        self.typedefs = {}
        self.globals = {}    # name -> VarDecl node
        self.files = []
        base = set(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "baseline_files.txt")).read().split())
        new = []  # source files that appeared since: a function may have moved there
        for d, _, fs in os.walk(os.path.join(REPO, "src")):
            for f in fs:
                r = os.path.relpath(os.path.join(d, f), REPO)
                if f.endswith(".c") and r not in base: new.append(r)
        for f in list(files) + sorted(new):
            if f in base and not os.path.exists(os.path.join(REPO, f)) and new: continue
            self._load(f, cflags)

    def _load(self, f, cflags):
        path = os.path.join(REPO, f)
        if not os.path.exists(path):
            raise FrontError(f"source file {f} is missing")
        r = subprocess.run(["clang", "-std=c99", "-Xclang", "-ast-dump=json", "-fsyntax-only", "-w", "-Wno-error=implicit-function-declaration", "-Wno-error=int-conversion", "-Wno-error=implicit-int", "-Wno-error=incompatible-function-pointer-types", *cflags, path],
                           capture_output=True, text=True)
        if r.returncode != 0:
            raise FrontError(f"clang rejects {f}: {r.stderr[:400]}")
        d = json.loads(r.stdout)
        self.files.append(f)
        self._lastline = 0
        self._fid = f
        self._enumval = 0
        infile = None
        for n in d.get("inner", []):
            k = n.get("kind")
            loc = n.get("loc", {})
            if k == "RecordDecl":
                self._record(n)
            elif k == "EnumDecl":
                self._enum(n)
            elif k == "TypedefDecl":
                self.typedefs[n["name"]] = _qt(n.get("type"))
            elif k == "FunctionDecl":
                if any(c.get("kind") == "CompoundStmt" for c in n.get("inner", [])):
                    self._line_track(n)
                    node = self._conv(n)
                    node.file = f
                    self.funcs[n["name"]] = node
                    self.func_file[n["name"]] = f
            elif k == "VarDecl":
                node = self._conv(n)
                if node.inner or n["name"] not in self.globals:
                    self.globals[n["name"]] = node

    def _record(self, n):
        if not n.get("completeDefinition"):
            return
        name = n.get("name")
        fields = []
        for c in n.get("inner", []):
            if c.get("kind") == "FieldDecl":
                fields.append((c["name"], _qt(c["type"])))
                self.field_of[(self._fid, c["id"])] = (name, c["name"])
        if name:
            self.records[name] = fields

    def _enum(self, n):
        v = -1
        if n.get("name"):
            self.enum_types.add(n["name"])
        for c in n.get("inner", []):
            if c.get("kind") == "EnumConstantDecl":
                v += 1
                for e in c.get("inner", []):
                    x = self._find_const(e)
                    if x is not None:
                        v = x
                self.enums[c["name"]] = v

    def _find_const(self, e):
        if e.get("kind") == "ConstantExpr" and "value" in e:
            return int(e["value"])
        for c in e.get("inner", []):
            x = self._find_const(c)
            if x is not None:
                return x
        return None

    def _line_track(self, n):
        pass

    def _conv(self, n):
        x = N()
        x.kind = n.get("kind")
        x.id = (self._fid, n.get("id"))
        x.name = n.get("name")
        x.qt = _qt(n.get("type"))
        x.op = n.get("opcode")
        x.cast = n.get("castKind")
        x.value = n.get("value")
        x.postfix = n.get("isPostfix")
        x.arrow = n.get("isArrow")
        x.hasElse = n.get("hasElse")
        x.hasInit = n.get("hasInit")
        x.hasVar = n.get("hasVar")
        x.argt = _qt(n.get("argType")) if n.get("argType") else None
        rd = n.get("referencedDecl")
        x.ref = None
        if rd:
            x.ref = (rd.get("kind"), rd.get("name"), (self._fid, rd.get("id")))
        m = n.get("referencedMemberDecl")
        x.memid = (self._fid, m) if m else None
        rng = n.get("range", {}).get("begin", {})
        ln = rng.get("line") or rng.get("expansionLoc", {}).get("line") or n.get("loc", {}).get("line")
        if ln:
            self._lastline = ln
        x.line = self._lastline
        x.file = None
        for c in n.get("inner", []):
            if not c:
                x.inner.append(None)
                continue
            if c.get("kind") in ("FullComment",):
                continue
            x.inner.append(self._conv(c))
        return x

    # ---- types
    def norm(self, qt):
        """-> ('int', bits, signed) | ('ptr', pointee_qt) | ('rec', name) | ('arr', elem_qt, n) | ('void',) | ('func',)"""
        t = qt.strip()
        t = re.sub(r"\b(const|volatile|restrict)\b", "", t).strip()
        t = re.sub(r"\s+", " ", t)
        m = re.match(r"^(.*)\[(\d*)\]$", t)
        if m:
            return ("arr", m.group(1).strip(), int(m.group(2) or 0))
        if t.endswith("*"):
            return ("ptr", t[:-1].strip())
        if "(*)" in t:
            return ("ptr", "void ()")
        if t.endswith(")"):
            return ("func",)
        if t == "void":
            return ("void",)
        ints = {"char": (8, True), "signed char": (8, True), "unsigned char": (8, False), "short": (16, True),
                "unsigned short": (16, False), "int": (32, True), "unsigned int": (32, False), "unsigned": (32, False),
                "long": (64, True), "unsigned long": (64, False), "long long": (64, True), "unsigned long long": (64, False),
                "size_t": (64, False), "_Bool": (8, False), "__int128": (128, True)}
        if t in ints:
            return ("int",) + ints[t]
        if t.startswith("enum "):
            return ("int", 32, False)
        if t.startswith("struct ") :
            return ("rec", t[7:])
        if t in self.enum_types:
            return ("int", 32, False)
        if t in self.records:
            return ("rec", t)
        if t in self.typedefs and self.typedefs[t] != t:
            return self.norm(self.typedefs[t])
        return ("rec", t)

    def size_align(self, qt):
        k = self.norm(qt)
        if k[0] == "int":
            return k[1] // 8, k[1] // 8
        if k[0] == "ptr":
            return 8, 8
        if k[0] == "arr":
            s, a = self.size_align(k[1])
            return s * k[2], a
        if k[0] == "rec":
            if k[1] == "__va_list_tag": return 24, 8
            if k[1] not in self.records:
                raise FrontError(f"size of unknown type {qt}")
            off, al = 0, 1
            for _, ft in self.records[k[1]]:
                s, a = self.size_align(ft)
                off = (off + a - 1) // a * a + s
                al = max(al, a)
            return (off + al - 1) // al * al, al
        if k[0] == "void":
            return 1, 1
        raise FrontError(f"sizeof {qt}")

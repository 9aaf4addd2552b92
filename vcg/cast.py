"""C front end of the verifier: the real sources of /repo -> typed syntax trees.

Every run preprocesses and parses the files of /repo/maa with clang (JSON AST dump) using
the same -I/-D flags as the library's own build; nothing is copied or re-typed by hand.
Dropped by the extraction: comments, attributes, and the ctype.h macro layer
(-D__NO_CTYPE, so isalpha() etc. are plain calls instead of table look-ups).
"""
import json, os, re, subprocess, sys, tempfile

REPO = os.environ.get("VCG_REPO", "/repo")
DEFS = ["-DHAVE_HEADER_SYS_RESOURCE_H=1", "-DHAVE_HEADER_ALLOCA_H=1", "-DSIZEOF_LONG=8",
        "-DMAA_MAJOR=4", "-DMAA_MINOR=1", "-DMAA_TEENY=0"]


class Unsupported(Exception):
    """The code uses something the verifier cannot translate (never a verdict)."""


# ---------------------------------------------------------------- types
class T:
    __slots__ = ("k", "bits", "signed", "to", "tag", "n")

    def __init__(s, k, bits=0, signed=False, to=None, tag=None, n=None):
        s.k, s.bits, s.signed, s.to, s.tag, s.n = k, bits, signed, to, tag, n

    def __repr__(s):
        if s.k == "int":
            return ("i" if s.signed else "u") + str(s.bits)
        if s.k == "ptr":
            return repr(s.to) + "*"
        if s.k == "struct":
            return "struct " + s.tag
        if s.k == "arr":
            return "%r[%s]" % (s.to, s.n)
        return s.k

    def key(s):
        return repr(s)


I = lambda b, s: T("int", b, s)
INT, UINT, LONG, ULONG, CHAR, UCHAR = I(32, True), I(32, False), I(64, True), I(64, False), I(8, True), I(8, False)
SHORT, USHORT, BOOL = I(16, True), I(16, False), I(8, False)
VOID = T("void")
FUNC = T("func")
DOUBLE = T("float", 64)


def PTR(t):
    return T("ptr", 64, to=t)


BASE = {
    "char": CHAR, "signed char": CHAR, "unsigned char": UCHAR, "short": SHORT, "unsigned short": USHORT,
    "int": INT, "unsigned int": UINT, "unsigned": UINT, "long": LONG, "unsigned long": ULONG,
    "long int": LONG, "unsigned long int": ULONG, "long unsigned int": ULONG,
    "long long": LONG, "unsigned long long": ULONG, "void": VOID, "_Bool": BOOL, "float": T("float", 32),
    "double": DOUBLE, "long double": T("float", 80), "__int128": I(128, True), "unsigned __int128": I(128, False),
}


class TU:
    """One translation unit."""

    def __init__(self, name, ast):
        self.name = name
        self.typedefs = {}
        self.structs = {}      # tag -> [(field, T)]
        self.funcs = {}        # name -> Func (definitions)
        self.decls = {}        # name -> T? (prototypes)
        self.globals = {}      # id -> dict(name, type, init, static)
        self.gname = {}
        self.enums = {}
        self._anon = {}
        self._tc = {}
        self._busy = []
        self._load(ast)

    def err(self, msg):
        raise Unsupported("%s: %s" % (self.name, msg))

    # -- types
    def ty(self, node):
        t = node["type"]
        return self.parse_type(t.get("desugaredQualType") or t["qualType"])

    def parse_type(self, s):
        r = self._tc.get(s)
        if r is None:
            r = self._tc[s] = self._parse_type(s)
        return r

    def _parse_type(self, s):
        s = s.strip()
        s = re.sub(r"\b(const|volatile|restrict|__restrict|register|inline|static|extern)\b", " ", s)
        s = re.sub(r"\s+", " ", s).strip()
        # function pointer  R (*)(args)   /  function type  R (args)
        m = re.match(r"^(.*)\((\*+)( *\[\d*\])?\)\s*\(.*\)$", s)
        if m:
            t = FUNC
            for _ in m.group(2):
                t = PTR(t)
            return t
        if s.endswith(")"):
            m = re.match(r"^(.*)\(\*\)\s*\[(\d+)\]$", s)
            return FUNC
        m = re.match(r"^(.*)\(\*\)\s*((\[\d+\])+)$", s)
        if m:
            return PTR(self._parse_type(m.group(1) + m.group(2)))
        m = re.match(r"^(.*?)\s*((?:\[\d*\])+)$", s)
        if m:
            base = self._parse_type(m.group(1))
            for d in reversed(re.findall(r"\[(\d*)\]", m.group(2))):
                base = T("arr", to=base, n=int(d) if d else None)
            return base
        if s.endswith("*"):
            return PTR(self._parse_type(s[:-1]))
        if s in BASE:
            return BASE[s]
        m = re.match(r"^struct (.+)$", s)
        if m:
            return T("struct", tag=m.group(1).strip())
        m = re.match(r"^enum (.+)$", s)
        if m:
            return UINT
        m = re.match(r"^union (.+)$", s)
        if m:
            return T("union", tag=m.group(1))
        if s in ("__builtin_va_list", "va_list", "__gnuc_va_list", "struct __va_list_tag"):
            return T("va_list")
        if s in self.typedefs:
            d = self.typedefs[s]
            if d == s or d in self._busy:
                return T("opaque", tag=s)
            self._busy.append(d)
            try:
                return self._parse_type(d)
            finally:
                self._busy.pop()
        if "unnamed" in s or "anonymous" in s:
            return T("struct", tag=s)
        return T("opaque", tag=s)

    def sizeof(self, t):
        if t.k == "int":
            return t.bits // 8
        if t.k == "float":
            return {32: 4, 64: 8, 80: 16}[t.bits]
        if t.k in ("ptr",):
            return 8
        if t.k in ("void", "func"):
            return 1
        if t.k == "arr":
            if t.n is None:
                self.err("sizeof incomplete array")
            return t.n * self.sizeof(t.to)
        if t.k == "struct":
            off = 0
            al = 1
            for f, ft in self.fields(t.tag):
                a = self.alignof(ft)
                al = max(al, a)
                off = (off + a - 1) // a * a + self.sizeof(ft)
            return (off + al - 1) // al * al
        self.err("sizeof %r" % t)

    def alignof(self, t):
        if t.k == "arr":
            return self.alignof(t.to)
        if t.k == "struct":
            return max([self.alignof(ft) for f, ft in self.fields(t.tag)] or [1])
        return self.sizeof(t)

    def offsetof(self, tag, field):
        off = 0
        for f, ft in self.fields(tag):
            a = self.alignof(ft)
            off = (off + a - 1) // a * a
            if f == field:
                return off
            off += self.sizeof(ft)
        self.err("no field %s.%s" % (tag, field))

    def fields(self, tag):
        if tag not in self.structs:
            self.err("unknown struct " + tag)
        return self.structs[tag]

    def field_type(self, tag, f):
        for n, t in self.fields(tag):
            if n == f:
                return t
        self.err("no field %s.%s" % (tag, f))

    # -- loading
    def _load(self, ast):
        self._line = [None, 0]
        for n in ast.get("inner", []):
            self._top(n)

    def _top(self, n):
        k = n.get("kind")
        if k == "TypedefDecl":
            self.typedefs[n["name"]] = n["type"].get("desugaredQualType") or n["type"]["qualType"]
        elif k == "RecordDecl":
            self._record(n)
        elif k == "FunctionDecl":
            body = None
            params = []
            for c in n.get("inner", []):
                if c.get("kind") == "CompoundStmt":
                    body = c
                elif c.get("kind") == "ParmVarDecl":
                    params.append(c)
            noret = "noreturn" in n["type"]["qualType"] or any(
                c.get("kind") in ("NoReturnAttr", "C11NoReturnAttr") for c in n.get("inner", []))
            if body is not None:
                self.funcs[n["name"]] = dict(name=n["name"], params=params, body=body, tu=self,
                                             ret=self._ret(n["type"]["qualType"]),
                                             static=n.get("storageClass") == "static",
                                             variadic=n.get("variadic", False))
            d = self.decls.setdefault(n["name"], dict(noreturn=False))
            d["noreturn"] = d["noreturn"] or noret
            d["ret"] = self._ret(n["type"]["qualType"])
        elif k == "VarDecl":
            init = [c for c in n.get("inner", []) if "Attr" not in c.get("kind", "")]
            g = dict(id=n["id"], name=n["name"], type=self.ty(n), init=init[0] if n.get("init") and init else None,
                     static=n.get("storageClass") == "static", const="const " in n["type"]["qualType"] + " ",
                     prev=n.get("previousDecl"))
            self.globals[n["id"]] = g
            old = self.gname.get(n["name"])
            if old is None or g["init"] is not None:
                self.gname[n["name"]] = g
        elif k == "EnumDecl":
            v = 0
            for c in n.get("inner", []):
                if c.get("kind") == "EnumConstantDecl":
                    for ch in c.get("inner", []):
                        if ch.get("kind") == "ConstantExpr" and "value" in ch:
                            v = int(ch["value"])
                    self.enums[c["name"]] = v
                    v += 1

    def _ret(self, qt):
        # "R (args)": strip the trailing parameter list
        depth = 0
        s = qt
        s = re.sub(r"__attribute__\(\(.*?\)\)", "", s).strip()
        for i in range(len(s) - 1, -1, -1):
            if s[i] == ")":
                depth += 1
            elif s[i] == "(":
                depth -= 1
                if depth == 0:
                    r = s[:i].strip()
                    if r.endswith(")"):
                        return PTR(FUNC)
                    return self.parse_type(r)
        return VOID

    def _record(self, n):
        fl = []
        for c in n.get("inner", []):
            if c.get("kind") == "FieldDecl":
                fl.append((c.get("name", "_anon"), self.ty(c)))
            elif c.get("kind") == "RecordDecl":
                self._record(c)
        if n.get("completeDefinition"):
            if n.get("name"):
                self.structs[n["name"]] = fl
            else:
                loc = n.get("loc", {})
                self._anon[n["id"]] = fl


def sources(repo=None):
    """The library's source list, read from its Makefile."""
    repo = repo or REPO
    s = open(os.path.join(repo, "maa", "Makefile")).read().replace("\\\n", " ")
    m = re.search(r"^SRCS\s*=\s*(.*)$", s, re.M)
    out = []
    for w in m.group(1).split():
        if w.endswith(".c"):
            out.append(w)
    return out


def gen_arggram(repo, outdir):
    with open(os.path.join(repo, "maa", "arggram.txt")) as i, open(os.path.join(outdir, "arggram.c"), "w") as o:
        subprocess.run(["awk", "-f", os.path.join(repo, "maa", "arggram2c")], stdin=i, stdout=o, check=True)


_cache = {}


def load(fname, repo=None):
    """Parse maa/<fname> of the repository into a TU."""
    repo = repo or REPO
    k = (repo, fname)
    if k in _cache:
        return _cache[k]
    d = tempfile.mkdtemp(prefix="vcg.")
    try:
        if fname == "arg.c":
            gen_arggram(repo, d)
        inc = os.path.join(os.path.dirname(os.path.abspath(__file__)), "include", fname.replace(".c", ".h"))
        pre = ["-include", inc] if os.path.exists(inc) else []
        p = subprocess.run(["clang", "-fsyntax-only", "-w"] + pre + ["-Xclang", "-ast-dump=json", "-I", os.path.join(repo, "maa"),
                            "-I", d, "-D__NO_CTYPE"] + DEFS + [os.path.join(repo, "maa", fname)],
                           stdout=subprocess.PIPE, stderr=subprocess.PIPE)
        if p.returncode != 0:
            raise Unsupported("clang: " + p.stderr.decode()[:2000])
        tu = TU(fname, json.loads(p.stdout))
    finally:
        subprocess.run(["/bin/rm", "-rf", d])
    _cache[k] = tu
    return tu

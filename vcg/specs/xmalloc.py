"""maa/xmalloc.c : the checking allocators"""
from spec import *
from absmod import *

TU = "xmalloc.c"
x = z3.Int("x!sk")


def chars(c, st, b):
    return Select(c.ex.rmap(st, CHAR), b)


def base(c):
    c.ex.rmap(c.st, CHAR)


def nofail(c):
    """the only error exits are fatal reports, and nothing was modified before them"""
    for kind, st, loc in c.exits:
        c.ensure(st, "allocation failure ends in the fatal report (%s)" % loc, BoolVal(kind == "fatal"))
        c.unchanged(st, "nothing modified before the report")


@contract(TU, "xmalloc", "C21")
def _m(c):
    base(c)
    c.run()
    for st, r in c.returns:
        c.ensure(st, "a fresh block of the requested size", And(r.base != NULL, BoolVal(off_is0(r.off)), c.ex.kind(c.st0, r.base) == 0, c.ex.kind(st, r.base) > 0, c.ex.size(st, r.base) == c.args[0]))
        c.frame(st, lambda o: FALSE)
    nofail(c)


@contract(TU, "xcalloc", "C21")
def _c(c):
    base(c)
    n = c.args[0] * c.args[1]
    c.run()
    for st, r in c.returns:
        c.ensure(st, "a fresh block of the requested size", And(r.base != NULL, BoolVal(off_is0(r.off)), c.ex.kind(c.st0, r.base) == 0, c.ex.kind(st, r.base) > 0, c.ex.size(st, r.base) == n))
        c.ensure(st, "zeroed", Implies(And(x >= 0, x < n), Select(chars(c, st, r.base), x) == 0))
        c.frame(st, lambda o: FALSE)
    nofail(c)


@contract(TU, "xrealloc", "C21")
def _r(c):
    base(c)
    ex, st, p, n = c.ex, c.st, c.args[0].base, c.args[1]
    c.requires(Or(p == NULL, And(ex.kind(st, p) > 0, ex.kind(st, p) != STACKBLK, ex.size(st, p) >= 0)))
    c.run()
    for st, r in c.returns:
        c.ensure(st, "a block of the requested size", And(r.base != NULL, BoolVal(off_is0(r.off)), ex.kind(st, r.base) > 0, ex.size(st, r.base) == n, Or(r.base == p, ex.kind(c.st0, r.base) == 0)))
        c.ensure(st, "content kept", Implies(And(p != NULL, x >= 0, x < n, x < ex.size(c.st0, p)), Select(chars(c, st, r.base), x) == Select(chars(c, c.st0, p), x)))
        c.frame(st, lambda o: o == p)
    nofail(c)


@contract(TU, "xfree", "C21")
def _f(c):
    base(c)
    ex, st, p = c.ex, c.st, c.args[0].base
    c.requires(Or(p == NULL, And(ex.kind(st, p) > 0, ex.kind(st, p) != STACKBLK)))
    c.allow("fatal", p == NULL, name="releasing NULL")
    c.run()
    for st, r in c.returns:
        c.ensure(st, "released", ex.kind(st, p) == 0)
        c.frame(st, lambda o: o == p)
    c.errors()


@contract(TU, "xstrdup", "C21")
def _d(c):
    base(c)
    ex, st, p = c.ex, c.st, c.args[0]
    n = z3.Int("slen")
    c.requires(p.base != NULL, ex.kind(st, p.base) > 0, n >= 0, ex.size(st, p.base) > n, ex.size(st, p.base) < (1 << 62),
               ch(ex, st, p, n) == 0, nz_below(ex, st, p, n))
    ex.strlen_fun = lambda ex, st, q: n if q.base.eq(p.base) and off_is0(q.off) else None
    c.run()
    for st, r in c.returns:
        c.ensure(st, "a fresh block large enough", And(r.base != NULL, BoolVal(off_is0(r.off)), ex.kind(c.st0, r.base) == 0, ex.kind(st, r.base) > 0, ex.size(st, r.base) > n))
        c.ensure(st, "holds a copy of the string", Implies(And(x >= 0, x <= n), Select(chars(c, st, r.base), x) == Select(chars(c, c.st0, p.base), x)))
        c.frame(st, lambda o: FALSE)
    nofail(c)


# ---- the rest of the library allocates through these functions only
RAW = {"malloc", "calloc", "realloc", "strdup", "strndup", "reallocarray", "aligned_alloc", "posix_memalign", "memalign", "valloc", "asprintf", "vasprintf", "getline", "getdelim",
       "free"}
TUS = ["hash.c", "set.c", "stack.c", "list.c", "error.c", "memory.c", "string.c", "debug.c", "flags.c", "maa.c", "prime.c", "bit.c", "timer.c", "arg.c", "pr.c", "sl.c",
       "base64.c", "base26.c", "source.c", "parse-concrete.c", "text.c", "log.c"]


def calls(n, out):
    if isinstance(n, dict):
        if n.get("kind") == "DeclRefExpr" and n.get("referencedDecl", {}).get("kind") == "FunctionDecl":
            out.append(n["referencedDecl"].get("name"))
        for x in n.get("inner", []):
            calls(x, out)
    return out


def _scan(tu):
    def spec(c):
        for f in sorted(c.tu.funcs):
            fn = c.tu.funcs[f]
            body = fn.get("body")
            used = set(calls(body, [])) & RAW
            if used - {"free"}:
                raise Unsupported("%s: %s allocates with %s itself: left to the bounded check" % (tu, f, ", ".join(sorted(used))))
            c.ensure(c.st, "%s allocates only through the checking allocators" % f, BoolVal(True))
        c.returns = []
    return spec


for _t in TUS:
    contract(_t, None, "C21", name="allocations of " + _t)(_scan(_t))

"""Statistics and listings: what is written is a ghost document (single characters and texts); a record of statistics has one field per number asked for.
Listings run the callback on one arbitrary entry of the table (a constant chosen beforehand): what is written for it is kept apart from what is written
outside of the walk."""
import re
from spec import *
from textmod import Str, txt, SV
from absmod import hash_models, sid
from specs.srcmsg import Doc, PUT, ATOM
from specs.flags import Flags, bv
from specs.timer import Tim
import lib

NUMI = z3.Function("put_number", Doc, IntS, IntS, Doc)
NUMR = z3.Function("put_real", Doc, z3.RealSort(), IntS, Doc)
PTRD = z3.Function("put_pointer", Doc, Ref, Doc)
CONV = {"d": 0, "i": 0, "u": 0, "f": 1}
RATIO = z3.Function("ratio_shown", IntS, IntS, z3.RealSort())
EMPTY = z3.Const("nothing_written", Doc)
conv = lambda s: sum(ord(c) << 8 * i for i, c in enumerate(s))


def num(v):
    return z3.BV2Int(v) if isinstance(v, z3.BitVecRef) else v


class Out:
    def __init__(self, c, stream=None):
        """stream: argument that says where to (NULL: standard output)"""
        self.c, self.ex = c, c.ex
        ex, st = c.ex, c.st
        for k in ("@doc", "@entry"):
            c.noframe.add(("g", k))
        c.noframe.add(("G", "txt"))
        txt(ex, st, P(NULL))
        self.doc = lambda s, k="@doc": ex.hmap(s, ("g", k), lambda: Doc)
        self.d0 = self.doc(st)
        c.requires(self.doc(st, "@entry") == EMPTY)
        self.cur = "@doc"
        out = toref(ex.gload(st, "stdout", PTR(VOID)))
        a = toref(stream) if stream is not None else out
        self.T = z3.Const("stream_written", Ref)
        c.requires(out != NULL, self.T == If(a == NULL, out, a))
        for k in dir(self):
            if k.startswith("m_"):
                ex.models[k[2:]] = getattr(self, k)

    def emit(self, s, stream, d, n):
        ex = self.ex
        ex.trusted.add("stdio: output appends exactly the text to the stream")
        ex.oblige(s, "written to the stream asked for (standard output for NULL)", toref(stream) == self.T, n)
        s.heap[("g", self.cur)] = d
        if ex.mode == "bv":
            return [(s, fresh(z3.BitVecSort(32), "printed"))]
        r = fresh(IntS, "printed")
        s.assume(ex.inrange(r, INT))
        return [(s, r)]

    def lit(self, p):
        al = self.ex.ctab.get(p.base.get_id())
        if al is not None and off_is0(p.off) and al[0].eq(p.base):
            return "".join(chr(x % 256) for x in al[1][:al[1].index(0)])

    def text(self, s, d, p):
        t = self.lit(p)
        return put(d, t) if t is not None else ATOM(d, txt(self.ex, s, p))

    def str_arg(self, s, d, a, n):
        """%s; a choice between two literals is two documents"""
        if a.path is None and z3.is_app_of(a.base, z3.Z3_OP_ITE):
            q = a.base
            pick = lambda i: P(q.arg(i), a.off.arg(i) if isinstance(a.off, z3.ExprRef) and z3.is_app_of(a.off, z3.Z3_OP_ITE) else a.off)
            return If(q.arg(0), self.str_arg(s, d, pick(1), n), self.str_arg(s, d, pick(2), n))
        return self.text(s, d, a)

    def fmt(self, s, f, args, n):
        ex = self.ex
        t = self.lit(f)
        if t is None:
            ex.unsup("format that is not a literal", n)
        d, i, args = self.doc(s, self.cur), 0, list(args)
        while i < len(t):
            if t[i] != "%":
                d = PUT(d, RV(ord(t[i])))
                i += 1
                continue
            m = re.match(r"%([-0]?\d*(?:\.\d+)?)(l|ll|h|z)?([sdiucpf%])", t[i:])
            if not m:
                ex.unsup("format " + t, n)
            i += m.end()
            k = m.group(3)
            if k == "%":
                d = PUT(d, RV(37))
                continue
            if not args:
                ex.oblige(s, "as many arguments as the format asks for", FALSE, n)
                return d
            a = args.pop(0)
            if (k in "sp") != isinstance(a, P):
                ex.oblige(s, "%%%s is given what it asks for" % k, FALSE, n)
                return d
            if k == "s":
                if m.group(1):
                    d = ATOM(d, WID(txt(ex, s, a), RV(conv(m.group(1)))))
                else:
                    d = self.str_arg(s, d, a, n)
            elif k == "p":
                d = PTRD(d, toref(a))
            elif k == "f":
                d = NUMR(d, a if a.sort() == z3.RealSort() else z3.ToReal(a), RV(conv(m.group(1))))
            elif k == "c":
                d = PUT(d, num(a) % 256)
            else:
                if m.group(1):
                    ex.unsup("format " + t, n)
                d = NUMI(d, num(a), RV(0))
        return d

    def m_fprintf(self, ex, s, vs, n):
        return self.emit(s, vs[0], self.fmt(s, vs[1], vs[2:], n), n)

    def m_printf(self, ex, s, vs, n):
        return self.emit(s, ex.gload(s, "stdout", PTR(VOID)), self.fmt(s, vs[0], vs[1:], n), n)

    def m_fputs(self, ex, s, vs, n):
        return self.emit(s, vs[1], self.str_arg(s, self.doc(s, self.cur), vs[0], n), n)

    def m_fputc(self, ex, s, vs, n):
        return self.emit(s, vs[1], PUT(self.doc(s, self.cur), z3.simplify(num(vs[0]) % 256)), n)
    m_putc = m_fputc

    def m_fflush(self, ex, s, vs, n):
        return [(s, z3.BitVecVal(0, 32) if ex.mode == "bv" else RV(0))]


WID = z3.Function("text_with_width", Str, IntS, Str)


def put(d, s):
    for x in s:
        d = PUT(d, RV(ord(x)))
    return d


def build(d, *parts):
    for x in parts:
        d = put(d, x) if isinstance(x, str) else x(d)
    return d


N = lambda v: lambda d: NUMI(d, num(v), RV(0))
PT = lambda r: lambda d: PTRD(d, r)
TX = lambda t: lambda d: ATOM(d, t)


def part(name, f):
    """a number kept by a part of the library: a function of the part"""
    return z3.Function("%s_%s" % (name, f), Ref, IntS)


def get_stats(c, fn, tag, name, alive, types=None):
    """model of a function under contract: a fresh record with the numbers of its argument"""
    ex = c.ex
    for f, t in ex.flat(tag):
        ex.fmap(c.st, tag, f, t)

    def m(ex, s, vs, n):
        ex.trusted.add(fn + " (its own contract)")
        p = toref(vs[0]) if vs else NULL
        if alive is not None:
            ex.oblige(s, "%s of a live one" % fn, alive(s, p), n, group="pre")
        sz = RV(c.tu.sizeof(T("struct", tag=tag)))
        r = ex.alloc(s, sz, name)
        ex.set_kind(s, r, K(tag))
        ex.set_size(s, r, sz)
        for f, t in ex.flat(tag):
            v = part(fn, f)(p)
            s.assume(ex.inrange(v, t))
            h = ex.fmap(s, tag, f, t)
            s.heap[("f", tag, f)] = Store(h, r, v)
        return [(s, P(r))]
    ex.models[fn] = m
    return lambda p, f: part(fn, f)(p)


def printed(c, o, want, globs=()):
    for st, r in c.returns:
        c.ensure(st, "exactly the documented text, with the numbers counted", o.doc(st) == want)
        x = z3.Const("o!new", Ref)
        c.ensure(st, "nothing is left behind", Implies(c.ex.kind(c.st0, x) == 0, c.ex.kind(st, x) == 0))
        c.frame(st, lambda b: FALSE, globs=globs)


def live(k):
    return lambda ex: lambda s, p: And(p != NULL, ex.kind(s, p) == K(k))


def handle(c, tag, magic):
    """the argument is a live handle of its kind"""
    from absmod import MAGIC
    ex, st = c.ex, c.st
    p = toref(c.args[0])
    t = dict(ex.flat(tag))
    c.requires(p != NULL, ex.kind(st, p) == K(tag), Select(ex.fmap(st, tag, "magic", t["magic"]), p) == MAGIC[magic])
    if "buckets" in t:
        c.requires(toref(P(Select(ex.fmap(st, tag, "buckets", t["buckets"]), p))) != NULL)
    return p


def table_stats(tu, fn, get, tag, stag, magic, what):
    @contract(tu, fn, "C30")
    def _print(c):
        o = Out(c, c.args[1])
        p = handle(c, tag, magic)
        g = get_stats(c, get, stag, "stats", lambda s, q: And(q != NULL, c.ex.kind(s, q) == K(tag)))
        v = lambda f: num(g(p, f))
        c.run()
        d = build(o.d0, "Statistics for %s at " % what, PT(p), ":\n   ", N(v("resizings")), " resizings to ", N(v("size")), " total\n   ", N(v("entries")), " entries (", N(v("buckets_used")),
                  " buckets used, ", N(v("singletons")), " without overflow)\n   maximum list length is ", N(v("maximum_length")))
        e, b = v("entries"), v("buckets_used")
        opt = build(d, " (optimal is ", lambda d: NUMR(d, z3.ToReal(e) / z3.ToReal(b), RV(conv(".1"))), ")\n")
        d = build(If(b != 0, opt, put(d, "\n")), "   ", N(v("retrievals")), " retrievals (", N(v("hits")), " from top, ", N(v("misses")), " failed)\n")
        printed(c, o, d)
        c.errors()


table_stats("hash.c", "hsh_print_stats", "hsh_get_stats", "table", "hsh_Stats", "HSH_MAGIC", "hash table")
table_stats("set.c", "set_print_stats", "set_get_stats", "set", "set_Stats", "SET_MAGIC", "set")


@contract("memory.c", "mem_print_string_stats", "C30")
def _mstr(c):
    o = Out(c, c.args[1])
    p = handle(c, "stringInfo", "MEM_STRINGS_MAGIC")
    g = get_stats(c, "mem_get_string_stats", "mem_StringStats", "stats", lambda s, q: And(q != NULL, c.ex.kind(s, q) == K("stringInfo")))
    c.run()
    printed(c, o, build(o.d0, "Statistics for string memory manager at ", PT(p), ":\n   ", N(g(p, "count")), " strings, using ", N(g(p, "bytes")), " bytes\n"))
    c.errors()


@contract("memory.c", "mem_print_object_stats", "C30")
def _mobj(c):
    o = Out(c, c.args[1])
    p = handle(c, "objectInfo", "MEM_OBJECTS_MAGIC")
    g = get_stats(c, "mem_get_object_stats", "mem_ObjectStats", "stats", lambda s, q: And(q != NULL, c.ex.kind(s, q) == K("objectInfo")))
    c.run()
    printed(c, o, build(o.d0, "Statistics for object memory manager at ", PT(p), ":\n   ", N(g(p, "total")), " objects allocated, of which ", N(g(p, "used")), " are in use\n   ",
                        N(g(p, "reused")), " objects have been reused\n"))
    c.errors()


# ---------------------------------------------------------------- global string pool, pools
STRF = ("count", "bytes", "retrievals", "hits", "misses")


def pool_record(c, p):
    ex, st = c.ex, c.st
    c.requires(Or(p == NULL, ex.kind(st, p) == K("poolInfo")))
    fs = dict(ex.flat("poolInfo"))
    sub = lambda f: toref(P(Select(ex.fmap(st, "poolInfo", f, fs[f]), p)))
    S, H = sub("string"), sub("hash")
    a = get_stats(c, "mem_get_string_stats", "mem_StringStats", "ms", lambda s, q: And(q == S, p != NULL))
    b = get_stats(c, "hsh_get_stats", "hsh_Stats", "hs", lambda s, q: And(q == H, p != NULL))
    # resources: counts fit an int
    for f in ("retrievals", "hits", "misses"):
        c.requires(b(H, f) < 1 << 31)
    ex.flat("str_Stats")
    for f, t in ex.flat("str_Stats"):
        ex.fmap(st, "str_Stats", f, t)
    want = lambda f: If(p == NULL, RV(0), a(S, f) if f in ("count", "bytes") else b(H, f))
    return want


def record(c, want, tag, fields):
    ex = c.ex
    for st, r in c.returns:
        ft = dict(ex.flat(tag))
        c.ensure(st, "a record of the caller's own", And(r.base != NULL, ex.kind(c.st0, r.base) == 0, ex.kind(st, r.base) == K(tag)))
        for f in fields:
            c.ensure(st, "number: " + f, Select(ex.fmap(st, tag, f, ft[f]), r.base) == want(f))
        o = z3.Const("o!new", Ref)
        c.ensure(st, "nothing else is left behind", Implies(And(ex.kind(c.st0, o) == 0, o != r.base), ex.kind(st, o) == 0))
        c.unchanged(st, "nothing else changes")
    c.errors()


@contract("string.c", "str_pool_get_stats", "C30")
def _pool(c):
    want = pool_record(c, toref(c.args[0]))
    c.run()
    record(c, want, "str_Stats", STRF)


@contract("string.c", "str_get_stats", "C30")
def _global(c):
    want = pool_record(c, toref(c.ex.gload(c.st, "global", PTR(VOID))))
    c.run()
    record(c, want, "str_Stats", STRF)


def pool_text(c, o, p, glob, g):
    where = If(p == glob, put(put(o.d0, "Statistics for "), "global string pool at "), put(put(o.d0, "Statistics for "), "string pool at "))
    return build(where, PT(p), ":\n   ", N(g(p, "count")), " strings using ", N(g(p, "bytes")), " bytes\n   ", N(g(p, "retrievals")), " retrievals (", N(g(p, "hits")), " from top, ",
                 N(g(p, "misses")), " failed)\n")


def pool_print(fn, arg):
    @contract("string.c", fn, "C30")
    def _print(c):
        ex, st = c.ex, c.st
        o = Out(c, c.args[-1])
        glob = toref(ex.gload(st, "global", PTR(VOID)))
        p = toref(c.args[0]) if arg else glob
        c.requires(Or(p == NULL, ex.kind(st, p) == K("poolInfo")))
        g = get_stats(c, "str_pool_get_stats", "str_Stats", "stats", lambda s, q: Or(q == NULL, ex.kind(s, q) == K("poolInfo")))
        # the same through str_get_stats
        m = ex.models["str_pool_get_stats"]
        ex.models["str_get_stats"] = lambda ex, s, vs, n: m(ex, s, [P(toref(ex.gload(s, "global", PTR(VOID))))], n)
        c.run()
        printed(c, o, pool_text(c, o, p, glob, g))
        c.errors()


pool_print("str_pool_print_stats", True)
pool_print("str_print_stats", False)


# ---------------------------------------------------------------- source manager
@contract("source.c", "src_get_stats", "C30")
def _src(c):
    ex, st = c.ex, c.st
    L, S, I = (toref(ex.gload(st, g, PTR(VOID))) for g in ("Lines", "StringHeap", "InfoHeap"))
    a = get_stats(c, "mem_get_string_stats", "mem_StringStats", "ms", lambda s, q: And(q == S, L != NULL))
    b = get_stats(c, "mem_get_object_stats", "mem_ObjectStats", "mo", lambda s, q: And(q == I, L != NULL))
    for f, t in ex.flat("src_Stats"):
        ex.fmap(st, "src_Stats", f, t)
    vals = dict(lines_used=ex.gload(st, "Used", INT), lines_allocated=ex.gload(st, "Count", INT), lines_bytes=a(S, "bytes"), tokens_total=b(I, "total"), tokens_reused=b(I, "reused"),
                tokens_size=b(I, "size"))
    c.run()
    record(c, lambda f: If(L == NULL, RV(0), vals[f]), "src_Stats", list(vals))


@contract("source.c", "src_print_stats", "C30")
def _srcp(c):
    o = Out(c, c.args[0])
    g = get_stats(c, "src_get_stats", "src_Stats", "stats", None)
    v = lambda f: g(NULL, f)
    # resources: the bytes of all tokens fit an int
    t = v("tokens_total") * v("tokens_size")
    c.requires(v("tokens_total") >= 0, v("tokens_size") >= 0, t < 1 << 31, t >= 0)
    c.run()
    printed(c, o, build(o.d0, "Statistics for source manager:\n   ", N(v("lines_used")), " lines using ", N(v("lines_bytes")), " bytes (", N(v("lines_allocated")), " allocated)\n   ",
                        N(v("tokens_total")), " tokens using ", N(t), " bytes (", N(v("tokens_reused")), " reused)\n"))
    c.errors()


# ---------------------------------------------------------------- listings
class Listing:
    """one arbitrary name s; what is written while the walk is at s is kept in @entry"""

    def __init__(self, c, o):
        self.c, self.ex, self.o = c, c.ex, o
        ex = c.ex
        self.s = z3.Int("some_name")
        for f in ("hsh_iterate", "hsh_iterate_arg"):
            ex.models[f] = self.iterate
        for f in ("hsh_init_position", "hsh_next_position"):
            ex.models[f] = lambda ex, s, vs, n: ex.unsup("a listing by positions", n)

    def g(self, st, k):
        return st.heap.get(("G", k), self.ex.heap0[("G", k)])

    def here(self, st, h):
        """the name is in the table, its key, its datum"""
        sel = lambda k: Select(Select(self.g(st, k), h), self.s)
        return sel("t_in"), sel("t_key"), sel("t_map")

    def iterate(self, ex, st, vs, n):
        ex.trusted.add("hsh_iterate: every entry exactly once, until a callback returns non-zero (C02)")
        h = vs[0].base
        ex.oblige(st, "a live hash table is passed", And(h != NULL, ex.kind(st, h) == K("table")), n, group="pre")
        f = vs[1]
        if not isinstance(f, F) or f.name not in ex.tu.funcs:
            ex.unsup("iteration with an unknown callback", n)
        if self.o.cur != "@doc":
            ex.unsup("iteration in an iteration", n)
        inn, key, dat = self.here(st, h)
        zero = z3.BitVecVal(0, 32) if ex.mode == "bv" else RV(0)
        y, x = ex.branch(st, inn)
        out = []
        if x is not None:
            out.append((x, zero))
        if y is not None:
            d0 = self.o.doc(y)
            self.o.cur = "@entry"
            try:
                res = ex.call(f.name, [P(key), P(dat)] + vs[2:], y, n)
            finally:
                self.o.cur = "@doc"
            for t, v in res:
                ex.oblige(t, "the walk goes on", v == 0, n)
                out.append((t, zero))
        return out

    def check(self, h, want, globs=()):
        """want(st0, key, datum) -> the document for an entry"""
        c, ex, o = self.c, self.ex, self.o
        inn, key, dat = self.here(c.st0, h)
        for st, r in c.returns:
            c.ensure(st, "every name that is registered is listed, exactly once", Implies(And(h != NULL, inn), o.doc(st, "@entry") == want(key, dat)))
            c.ensure(st, "nothing is listed that is not registered", Implies(Or(h == NULL, Not(inn)), o.doc(st, "@entry") == EMPTY))
            c.ensure(st, "nothing but the names is written", o.doc(st) == o.d0)


def flag_list(tu, fn, pre, line):
    @contract(tu, fn, "C30", mode="bv")
    def _list(c):
        F_ = Flags(c, pre)
        o = Out(c, c.args[0])
        c.requires(toref(c.args[0]) != NULL)
        L = Listing(c, o)
        c.run()
        T_ = lambda key: txt(c.ex, c.st0, P(key))
        L.check(F_.h0, lambda key, dat: line(T_(key), dat))
        for st, r in c.returns:
            F_.same_table(st)
            c.frame(st, lambda b: FALSE)
        c.errors()


flag_list("flags.c", "flg_list", "flg", lambda t, d: build(EMPTY, "  ", TX(t), "\n"))
flag_list("debug.c", "dbg_list", "dbg", lambda t, d: If((p2i_bv(d) & bv(0xc0000000)) == bv(0xc0000000), build(EMPTY, "  ", TX(t), " (builtin)\n"), build(EMPTY, "  ", TX(t), "\n")))


@contract("timer.c", "tim_print_timers", "C30")
def _timers(c):
    ex, st = c.ex, c.st
    hash_models(ex, st)
    h = toref(ex.gload(st, "_tim_Hash", PTR(VOID)))
    c.requires(Or(h == NULL, ex.kind(st, h) == K("table")), toref(c.args[0]) != NULL)
    o = Out(c, c.args[0])
    L = Listing(c, o)
    val = {f: z3.Function("timer_" + f, Ref, z3.RealSort()) for f in ("real", "user", "system")}
    for f in val:
        def m(ex, s, vs, n, f=f):
            ex.trusted.add("tim_get_%s (C25)" % f)
            return [(s, val[f](toref(vs[0])))]
        ex.models["tim_get_" + f] = m
    inn, key, dat = L.here(st, h)
    c.requires(Implies(And(h != NULL, inn), key != NULL))
    c.run()
    T_ = lambda key: txt(ex, c.st0, P(key))
    R = lambda f, x: lambda d: NUMR(d, val[f](x), RV(conv("0.3")))
    L.check(h, lambda key, dat: build(EMPTY, TX(WID(T_(key), RV(conv("-20")))), " ", R("real", key), "r ", R("user", key), "u ", R("system", key), "s\n"))
    for st_, r in c.returns:
        c.frame(st_, lambda b: FALSE)
    c.errors()


# ---------------------------------------------------------------- the name of a flag
@contract("flags.c", "flg_name", "C30", mode="bv")
def _name(c):
    F_ = Flags(c, "flg")
    ex, st = c.ex, c.st
    h = F_.h0
    ex.walk["table"] = h
    w = ex.walk
    c.requires(*w["axioms"](Select(st.heap.get(("G", "t_in"), ex.heap0[("G", "t_in")]), h)))
    flag = c.args[0]
    s, k = z3.Int("s"), z3.Int("s!sk")
    g = lambda st, k: st.heap.get(("G", k), ex.heap0[("G", k)])
    dat = lambda st, s: p2i_bv(F_.datum(st, h, s))
    old = ex.loop_hints

    def hints(ex, entry, mod, nd, cond):
        out = old(ex, entry, mod, nd, cond)
        for v in [v for v in mod.vars if isinstance(entry.env.get(v), P)]:
            b = lambda st, v=v: toref(st.env[v])
            out.append(Cand("a position of the table, or the end", lambda st, b=b: Or(b(st) == NULL, And(w["ipos"](b(st)) >= 0, w["ipos"](b(st)) < w["n"], b(st) == w["pos"](w["ipos"](b(st)))))))
            out.append(Cand("none so far is of this flag", lambda st, b=b: forall([s], Implies(And(F_.present(c.st0, h, s), Or(b(st) == NULL, w["idx"](s) < w["ipos"](b(st)))), dat(c.st0, s) != flag), [w["idx"](s)])))
            out.append(Cand("write protected while walking", lambda st, b=b: Select(g(st, "t_ro"), h) == If(b(st) == NULL, RV(0), RV(1))))
        return out
    ex.loop_hints = hints
    c.run()
    key = lambda s: Select(Select(g(c.st0, "t_key"), h), s)
    for st_, r in c.returns:
        unk = ex.ctab.get(r.base.get_id()) is not None
        if unk:
            c.ensure(st_, "unknown only when no name is registered for the flag", Implies(And(h != NULL, F_.present(c.st0, h, k)), dat(c.st0, k) != flag))
            c.ensure(st_, 'the text "unknown flag"', BoolVal(bytes(x & 255 for x in ex.ctab[r.base.get_id()][1][:-1]) == b"unknown flag"))
        else:
            x = z3.Int("x")
            c.ensure(st_, "a name that is registered for the flag", z3.Exists([x], And(h != NULL, F_.present(c.st0, h, x), dat(c.st0, x) == flag, toref(r) == key(x))))
        c.ensure(st_, "write protection is lifted again", Implies(h != NULL, Select(g(st_, "t_ro"), h) == 0))
        c.frame(st_, lambda b: b == h)
    c.errors()

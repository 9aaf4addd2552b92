"""maa/maa.c, maa/parse-concrete.c : starting and shutting down the library, registered symbol expansions.  The parts are known by their contracts:
each has a ghost that says whether it was released; the shut-down functions of the parts are under contract in their own files."""
from spec import *
from textmod import *
from absmod import hash_models, sid

FLAGS = {0xe0000000: ".memory", 0xd0000000: ".time", 0xc8000000: ".pr", 0xc4000000: ".sl", 0xc1000000: ".src", 0xc2000000: ".parse"}
PARTS = {"_pr_shutdown": "children", "_prs_shutdown": "symbol expansions", "str_destroy": "global strings", "_lst_shutdown": "list nodes", "_sl_shutdown": "skip list nodes",
         "_tim_shutdown": "timers", "flg_destroy": "flags", "dbg_destroy": "debugging flags"}
dbg_on = z3.Function("debugging_flag", IntS, IntS)
dbg_flag = lambda name: [k for k, v in FLAGS.items() if v == name][0]


class Lib:
    def __init__(self, c):
        self.c, self.ex = c, c.ex
        ex, st = c.ex, c.st
        M = ex.models
        self.err = lambda s: gget(ex, s, "err", Str)
        for k in ("err", "txt", "reg"):
            c.noframe.add(("G", k))
        self.b = lambda s, k: ex.hmap(s, ("g", "@" + k), lambda: BoolS)
        self.keys = ["down:" + x for x in PARTS] + ["total running", "total stopped"]
        for k in self.keys:
            c.noframe.add(("g", "@" + k))
            self.b(st, k)
        c.noframe.add(("g", "@program"))
        self.prog = lambda s: ex.hmap(s, ("g", "@program"), lambda: Ref)
        self.prog(st)
        self.reg = lambda s: gget(ex, s, "reg", z3.ArraySort(IntS, Str))
        self.err(st), self.reg(st), txt(ex, st, P(NULL))
        self.stderr, self.stdout = (lambda s, g=g: toref(ex.gload(s, g, PTR(VOID))) for g in ("stderr", "stdout"))
        c.requires(self.stderr(st) != self.stdout(st), self.stderr(st) != NULL, self.stdout(st) != NULL)
        c.requires(*[Not(self.b(st, k)) for k in self.keys if k != "total running"])
        for f in PARTS:
            M[f] = lambda ex, s, vs, n, f=f: self.m_down(s, f)
        for k in dir(self):
            if k.startswith("m_") and k != "m_down":
                M[k[2:]] = getattr(self, k)

    def set(self, s, k, v=TRUE):
        s.heap[("g", "@" + k)] = v

    def trust(self, x):
        self.ex.trusted.add(x)

    def m_down(self, s, f):
        self.trust("%s (its contract is checked in its own file)" % f)
        self.set(s, "down:" + f)
        return [(s, None)]

    def m_dbg_test(self, ex, s, vs, n):
        self.trust("dbg_test (C19)")
        ex.oblige(s, "debugging flags are asked before they are forgotten", Not(self.b(s, "down:dbg_destroy")), n)
        return [(s, dbg_on(vs[0]))]

    def out(self, s, stream, t, n):
        self.trust("stdio: output appends exactly the text")
        self.ex.oblige(s, "statistics go to standard error", toref(stream) == self.stderr(s), n)
        gset(s, "err", z3.Concat(self.err(s), t))
        r = fresh(IntS, "printed")
        s.assume(self.ex.inrange(r, INT))
        return [(s, r)]

    def m_fprintf(self, ex, s, vs, n):
        return self.out(s, vs[0], fmt(ex, s, vs[1], vs[2:], n), n)

    def m_fputs(self, ex, s, vs, n):
        return self.out(s, vs[1], txt(ex, s, vs[0]), n)

    def m_fputc(self, ex, s, vs, n):
        v = z3.simplify(vs[0])
        if not z3.is_int_value(v):
            ex.unsup("fputc of a computed character", n)
        return self.out(s, vs[1], SV(chr(v.as_long() % 256)), n)
    m_putc = m_fputc

    def m_fflush(self, ex, s, vs, n):
        return [(s, RV(0))]

    def m_str_print_stats(self, ex, s, vs, n):
        self.trust("str_print_stats")
        ex.oblige(s, "statistics of the strings are printed while there are strings", Not(self.b(s, "down:str_destroy")), n)
        ex.oblige(s, "statistics go to standard error", toref(vs[0]) == self.stderr(s), n)
        gset(s, "err", z3.Concat(self.err(s), SV("<strings>")))
        return [(s, None)]

    def m_tim_print_timers(self, ex, s, vs, n):
        self.trust("tim_print_timers")
        ex.oblige(s, "timers are printed while there are timers, the total being stopped", And(self.b(s, "total stopped"), Not(self.b(s, "down:_tim_shutdown"))), n)
        ex.oblige(s, "statistics go to standard error", toref(vs[0]) == self.stderr(s), n)
        gset(s, "err", z3.Concat(self.err(s), SV("<timers>")))
        return [(s, None)]

    def m_tim_start(self, ex, s, vs, n):
        self.trust("tim_start, tim_stop (C25)")
        ex.oblige(s, 'the timer "total"', txt(ex, s, vs[0]) == SV("total"), n)
        self.set(s, "total running")
        return [(s, None)]

    def m_tim_stop(self, ex, s, vs, n):
        self.trust("tim_start, tim_stop (C25)")
        ex.oblige(s, 'the timer "total", which is running', And(txt(ex, s, vs[0]) == SV("total"), self.b(s, "total running"), Not(self.b(s, "down:_tim_shutdown"))), n)
        self.set(s, "total stopped")
        return [(s, None)]

    def m_err_set_program_name(self, ex, s, vs, n):
        self.trust("err_set_program_name (C23)")
        s.heap[("g", "@program")] = toref(vs[0])
        return [(s, None)]

    def m__dbg_register(self, ex, s, vs, n):
        self.trust("_dbg_register (C19)")
        gset(s, "reg", Store(self.reg(s), vs[0], txt(ex, s, vs[1])))
        return [(s, None)]

    def m_sprintf(self, ex, s, vs, n):
        self.trust("sprintf writes exactly the text and its terminator")
        t = fmt(ex, s, vs[1], vs[2:], n)
        # numbers take at most 11 characters
        size, todo = 1, [t]
        while todo:
            x = todo.pop()
            if z3.is_string_value(x):
                size += len(x.as_string())
            elif x.decl().eq(NUM):
                size += 11
            elif x.decl().kind() == z3.Z3_OP_SEQ_CONCAT:
                todo += x.children()
            else:
                ex.unsup("sprintf of a text of unknown length", n)
        p = vs[0]
        ex.oblige(s, "sprintf: room for the text", And(p.base != NULL, ex.kind(s, p.base) > 0, oint(p.off) >= 0, oint(p.off) + size <= ex.size(s, p.base)), n, group="mem")
        set_txt(ex, s, p, t)
        r = fresh(IntS, "len")
        s.assume(r >= 0, r <= size)
        return [(s, r)]


def m_snprintf_as(lib):
    def m(ex, s, vs, n):
        k = ex._isnum(z3.simplify(vs[1]))
        if k is None:
            ex.unsup("snprintf with a computed size", n)
        if k < 47:
            ex.unsup("snprintf that may cut the text", n)
        return lib.m_sprintf(ex, s, [vs[0]] + vs[2:], n)
    return m


VERSION = z3.Concat(SV("Libmaa "), NUM(RV(4), RV(100)), SV("."), NUM(RV(1), RV(100)), SV("."), NUM(RV(0), RV(100)))


@contract("maa.c", "maa_version", "C28")
def _version(c):
    L = Lib(c)
    c.ex.models["snprintf"] = m_snprintf_as(L)
    b = c.ex.gref("maa_version.buffer")
    c.requires(b != NULL, c.ex.kind(c.st, b) == STACKBLK, c.ex.size(c.st, b) == 80)
    c.run()
    for st, r in c.returns:
        c.ensure(st, "the name of the library and its version", And(r.base != NULL, c.ex.kind(st, r.base) > 0, txt(c.ex, st, r) == VERSION))
        c.frame(st, lambda o: o == b)
    c.errors()


for _f, _v in (("major", 4), ("minor", 1), ("teeny", 0)):
    @contract("maa.c", "maa_version_" + _f, "C28")
    def _num(c, v=_v):
        c.run()
        for st, r in c.returns:
            c.ensure(st, "the number the library was built with", r == v)
            c.frame(st, lambda o: FALSE)
        c.errors()


@contract("maa.c", "maa_init", "C28")
def _init(c):
    L = Lib(c)
    c.run()
    for st, r in c.returns:
        c.ensure(st, 'the timer "total" runs', L.b(st, "total running"))
        c.ensure(st, "reports name the program", L.prog(st) == toref(c.args[0]))
        g = L.reg(c.st0)
        for k, v in FLAGS.items():
            g = Store(g, RV(k), SV(v))
        k = z3.Int("f!sk")
        c.ensure(st, "exactly the library's own debugging flags are registered", Select(L.reg(st), k) == Select(g, k))
        c.ensure(st, "nothing is released, nothing printed", And(*[Not(L.b(st, "down:" + x)) for x in PARTS], L.err(st) == L.err(c.st0)))
        c.frame(st, lambda o: FALSE)
    c.errors()


@contract("maa.c", "maa_shutdown", "C28")
def _down(c):
    L = Lib(c)
    c.requires(L.b(c.st, "total running"))          # maa_init was called
    ver = z3.Const("version_text", Ref)

    def m_maa_version(ex, s, vs, n):
        ex.trusted.add("maa_version (its contract)")
        return [(s, P(ver))]
    c.ex.models["maa_version"] = m_maa_version
    c.requires(txt(c.ex, c.st, P(ver)) == VERSION)
    c.run()
    mem, tim = (dbg_on(RV(dbg_flag(x))) != 0 for x in (".memory", ".time"))
    for st, r in c.returns:
        for f, what in PARTS.items():
            c.ensure(st, "the %s are released" % what, L.b(st, "down:" + f))
        c.ensure(st, "the timer \"total\" was stopped", L.b(st, "total stopped"))
        e = SV("")
        c.ensure(st, "printed: version and statistics of strings with .memory, version and timers with .time, nothing without",
                 L.err(st) == z3.Concat(L.err(c.st0), If(Or(mem, tim), z3.Concat(VERSION, SV("\n")), e), If(mem, SV("<strings>"), e), If(tim, SV("<timers>"), e)))
        c.frame(st, lambda o: FALSE)
    c.errors()


# ---------------------------------------------------------------- symbol expansions
intern = z3.Function("stored_string", IntS, Ref)       # the one copy of a text in the global string pool (C11)


class Prs:
    def __init__(self, c):
        self.c, self.ex = c, c.ex
        ex, st = c.ex, c.st
        hash_models(ex, st)

        def m_str_find(ex, s, vs, n):
            ex.trusted.add("str_find (proved under C11)")
            ex.oblige(s, "str_find of a string", vs[0].base != NULL, n, group="pre")
            t = sid(s, vs[0])
            r = intern(t)
            s.assume(r != NULL, sid(s, P(r)) == t)
            return [(s, P(r))]
        ex.models["str_find"] = m_str_find
        self.h0 = self.tab(st)
        c.requires(Or(self.h0 == NULL, ex.kind(st, self.h0) == K("table")), Select(self.g(st, "t_ro"), self.h0) == 0)
        for a in c.args:
            c.requires(a.base != NULL)

    def g(self, st, k):
        return st.heap.get(("G", k), self.ex.heap0[("G", k)])

    def tab(self, st):
        return self.ex.gload(st, "_prs_hash", PTR(VOID)).base

    def present(self, st, s):
        return And(self.tab(st) != NULL, Select(Select(self.g(st, "t_in"), self.tab(st)), s))

    def datum(self, st, s, k="t_map"):
        return Select(Select(self.g(st, k), self.tab(st)), s)


@contract("parse-concrete.c", "prs_register_concrete", "C28")
def _reg(c):
    F = Prs(c)
    c.run()
    k = z3.Int("s!sk")
    a, b = sid(c.st0, c.args[0]), sid(c.st0, c.args[1])
    for st, r in c.returns:
        was = F.present(c.st0, k)
        c.ensure(st, "a table exists", And(F.tab(st) != NULL, F.ex.kind(st, F.tab(st)) == K("table"), Implies(F.h0 != NULL, F.tab(st) == F.h0)))
        c.ensure(st, "the symbol is known, all others as before", F.present(st, k) == Or(was, k == a))
        c.ensure(st, "a known symbol keeps its expansion", Implies(was, And(F.datum(st, k) == F.datum(c.st0, k), F.datum(st, k, "t_key") == F.datum(c.st0, k, "t_key"))))
        c.ensure(st, "a new one has the stored copy of the text given, under the stored copy of its name", Implies(And(k == a, Not(was)), And(F.datum(st, k) == intern(b), F.datum(st, k, "t_key") == intern(a))))
        c.frame(st, lambda o: And(o == F.h0, F.h0 != NULL), ("_prs_hash",))
    c.errors()


@contract("parse-concrete.c", "prs_concrete", "C28")
def _conc(c):
    F = Prs(c)
    c.run()
    a = sid(c.st0, c.args[0])
    for st, r in c.returns:
        c.ensure(st, "its expansion; NULL when none was registered", r.base == If(F.present(c.st0, a), F.datum(c.st0, a), NULL))
        c.frame(st, lambda o: FALSE)
    c.errors()


@contract("parse-concrete.c", "_prs_shutdown", "C28")
def _prsdown(c):
    F = Prs(c)
    c.run()
    for st, r in c.returns:
        c.ensure(st, "no table is left", And(F.tab(st) == NULL, Implies(F.h0 != NULL, F.ex.kind(st, F.h0) == 0)))
        c.frame(st, lambda o: And(o == F.h0, F.h0 != NULL), ("_prs_hash",))
    c.errors()

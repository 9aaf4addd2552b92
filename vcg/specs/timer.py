"""maa/timer.c : a table from names to timers; clocks are read through gettimeofday and getrusage (any readings)."""
from spec import *
from absmod import hash_models, sid

TU, T = "timer.c", "tim_Entry"
SEC = 1 << 40
VALS = ("real", "self_user", "self_system", "children_user", "children_system")
CLK = {"real_mark": "wall", "self_mark.ru_utime": "user0", "self_mark.ru_stime": "sys0", "children_mark.ru_utime": "user1", "children_mark.ru_stime": "sys1"}


class Tim:
    def __init__(self, c):
        self.c, self.ex = c, c.ex
        ex, st = c.ex, c.st
        hash_models(ex, st)
        ex.models.update(gettimeofday=self.m_gtod, getrusage=self.m_rusage)
        self.ft = dict(ex.flat(T))
        for f in self.ft:
            if self.ft[f].k != "arr":
                ex.fmap(st, T, f, self.ft[f])
        self.h0 = self.tab(st)
        c.requires(Or(self.h0 == NULL, ex.kind(st, self.h0) == K("table")))
        c.requires(Select(self.g(st, "t_ro"), self.h0) == 0)
        s, t = z3.Ints("s t")
        d = self.datum(st, s)
        c.requires(forall([s], Implies(self.present(st, s), And(d != NULL, ex.kind(st, d) == K(T), *[And(self.mark(st, d, m)[0] >= 0, self.mark(st, d, m)[0] < SEC, self.mark(st, d, m)[1] >= 0,
                                                                self.mark(st, d, m)[1] < 1000000) for m in CLK])), [d]))
        own = z3.Function("owner_name", Ref, IntS)
        c.requires(forall([s], Implies(self.present(st, s), own(d) == s), [d]))
        self.now = {}
        for k in CLK.values():
            for x in ("s", "us", "n"):
                ex.gload(st, "clock_%s_%s" % (k, x), LONG)
            c.requires(ex.gload(st, "clock_%s_n" % k, LONG) == 0)
        if c.args:
            self.name = c.args[-1]
            c.requires(self.name.base != NULL)
            self.s = sid(st, self.name)
            c.requires(self.name.base != self.h0)
        self.clocks = tuple("clock_%s_%s" % (k, x) for k in CLK.values() for x in ("s", "us", "n"))

    def g(self, st, k):
        return st.heap.get(("G", k), self.ex.heap0[("G", k)])

    def tab(self, st):
        return self.ex.gload(st, "_tim_Hash", PTR(VOID)).base

    def present(self, st, s):
        h = self.tab(st)
        return And(h != NULL, Select(Select(self.g(st, "t_in"), h), s))

    def datum(self, st, s):
        return Select(Select(self.g(st, "t_map"), self.tab(st)), s)

    def f(self, st, d, f):
        return Select(self.ex.fmap(st, T, f, self.ft[f]), d)

    def mark(self, st, d, m):
        return self.f(st, d, m + ".tv_sec"), self.f(st, d, m + ".tv_usec")

    def clock(self, st, k, x="s"):
        return self.ex.gload(st, "clock_%s_%s" % (k, x), LONG)

    def put(self, st, p, fld, k, n):
        """a reading of clock k into the struct timeval at p(.fld)"""
        ex = self.ex
        if isinstance(p, P) and p.path is None and not off_is0(p.off):
            ex.unsup("clock reading into an array", n)
        s, us = fresh(IntS, "sec"), fresh(IntS, "usec")
        st.assume(s >= 0, s < SEC, us >= 0, us < 1000000)
        for f, v in (("tv_sec", s), ("tv_usec", us)):
            if p.path is not None:
                tag, path = p.path[0], p.path[1] + "." + (fld + "." if fld else "") + f
            else:
                tag, path = ("timeval" if not fld else "rusage"), (fld + "." if fld else "") + f
            ft = dict(ex.flat(tag))[path]
            ex.store(st, ("fld", p.base, tag, path), v, ft, n)
        st.heap[("g", "clock_%s_s" % k)] = s
        st.heap[("g", "clock_%s_us" % k)] = us
        st.heap[("g", "clock_%s_n" % k)] = self.clock(st, k, "n") + 1

    def m_gtod(self, ex, st, vs, n):
        ex.trusted.add("gettimeofday (any reading)")
        self.put(st, vs[0], "", "wall", n)
        return [(st, RV(0))]

    def m_rusage(self, ex, st, vs, n):
        ex.trusted.add("getrusage (any reading)")
        who = ex._isnum(z3.simplify(vs[0]))
        if who not in (0, -1):
            ex.unsup("getrusage of somebody else", n)
        i = 0 if who == 0 else 1
        self.put(st, vs[1], "ru_utime", "user%d" % i, n)
        self.put(st, vs[1], "ru_stime", "sys%d" % i, n)
        return [(st, RV(0))]

    # ---- postconditions
    def others(self, st, but=None, grows=False):
        """all timers but the named one are as they were, and no name appears or disappears"""
        c = self.c
        s0 = c.st0
        k = z3.Int("s!sk")
        oth = k != (self.s if but is None else but)
        c.ensure(st, "the table of timers lives on", And(Implies(self.h0 != NULL, self.tab(st) == self.h0), Implies(self.tab(st) != NULL, self.ex.kind(st, self.tab(st)) == K("table"))))
        c.ensure(st, "other names are known exactly as before", Implies(oth, self.present(st, k) == self.present(s0, k)))
        d = self.datum(s0, k)
        c.ensure(st, "other timers are as they were", Implies(And(oth, self.present(s0, k)), And(self.datum(st, k) == d, self.ex.kind(st, d) == K(T), *[
            self.f(st, d, f) == self.f(s0, d, f) for f in list(VALS) + [m + x for m in CLK for x in (".tv_sec", ".tv_usec")]])))

    def whole(self, st, d):
        self.c.frame(st, lambda o: Or(o == d, o == self.tab(st)), ("_tim_Hash",) + self.clocks)

    def unknown(self):
        self.c.allow("internal", Not(self.present(self.c.st0, self.s)), frame=False, name="an unknown timer")


def secs(a, b):
    return z3.ToReal(a[0] - b[0]) + z3.ToReal(a[1] - b[1]) / 1000000


@contract(TU, "tim_start", "C25")
def _start(c):
    F = Tim(c)
    c.run()
    s0 = c.st0
    for st, r in c.returns:
        d = F.datum(st, F.s)
        was = F.present(s0, F.s)
        c.ensure(st, "the timer is known", And(F.present(st, F.s), d != NULL, F.ex.kind(st, d) == K(T)))
        c.ensure(st, "the same timer, or a new one of its own", And(Implies(was, d == F.datum(s0, F.s)), Implies(Not(was), F.ex.kind(s0, d) == 0)))
        for f in VALS:
            c.ensure(st, "a new timer shows zero, a known one what it showed (%s)" % f, F.f(st, d, f) == If(was, F.f(s0, d, f), z3.RealVal(0)))
        for m, k in CLK.items():
            a = F.mark(st, d, m)
            c.ensure(st, "start reading of the %s clock" % k, And(a[0] == F.clock(st, k), a[1] == F.clock(st, k, "us"), F.clock(st, k, "n") > 0))
        F.others(st)
        F.whole(st, d)
    c.errors()


@contract(TU, "tim_stop", "C25")
def _stop(c):
    F = Tim(c)
    c.run()
    s0 = c.st0
    F.unknown()
    for st, r in c.returns:
        d = F.datum(s0, F.s)
        for f, (m, k) in zip(VALS, (("real_mark", "wall"), ("self_mark.ru_utime", "user0"), ("self_mark.ru_stime", "sys0"), ("children_mark.ru_utime", "user1"), ("children_mark.ru_stime", "sys1"))):
            now = (F.clock(st, k), F.clock(st, k, "us"))
            c.ensure(st, "difference of the readings (%s)" % f, And(F.clock(st, k, "n") > 0, F.f(st, d, f) == secs(now, F.mark(s0, d, m))))
            c.ensure(st, "start reading kept (%s)" % f, And(*[a == b for a, b in zip(F.mark(st, d, m), F.mark(s0, d, m))]))
        c.ensure(st, "the timer stays known", And(F.present(st, F.s), F.datum(st, F.s) == d, F.ex.kind(st, d) == K(T)))
        F.others(st)
        F.whole(st, d)
    c.errors()


@contract(TU, "tim_reset", "C25")
def _reset(c):
    F = Tim(c)
    c.run()
    s0 = c.st0
    F.unknown()
    for st, r in c.returns:
        d = F.datum(s0, F.s)
        c.ensure(st, "resetting gives zero", And(*[F.f(st, d, f) == 0 for f in VALS]))
        c.ensure(st, "start readings kept", And(*[a == b for m in CLK for a, b in zip(F.mark(st, d, m), F.mark(s0, d, m))]))
        c.ensure(st, "the timer stays known", And(F.present(st, F.s), F.datum(st, F.s) == d, F.ex.kind(st, d) == K(T)))
        F.others(st)
        F.whole(st, d)
    c.errors()


def getter(fn, fields):
    @contract(TU, fn, "C25")
    def _get(c):
        F = Tim(c)
        c.run()
        F.unknown()
        for st, r in c.returns:
            d = F.datum(c.st0, F.s)
            want = F.f(c.st0, d, fields[0])
            for f in fields[1:]:
                want = want + F.f(c.st0, d, f)
            c.ensure(st, "the time of this timer", r == want)
            F.others(st, -1)
            F.whole(st, NULL)
        c.errors()


getter("tim_get_real", VALS[:1])
getter("tim_get_user", (VALS[1], VALS[3]))
getter("tim_get_system", (VALS[2], VALS[4]))


@contract(TU, "tim_print_timer", "C25")
def _print(c):
    F = Tim(c)
    c.requires(c.args[0].base != NULL)
    c.run()
    F.unknown()
    for st, r in c.returns:
        F.others(st, -1)
        F.whole(st, NULL)
    c.errors()


@contract(TU, "_tim_shutdown", ["C25", "C28"])
def _shutdown(c):
    F = Tim(c)
    c.run()
    s0 = c.st0
    k = z3.Int("s!sk")
    o = z3.Const("o!frame", Ref)
    for st, r in c.returns:
        c.ensure(st, "no table is left", And(F.tab(st) == NULL, Implies(F.h0 != NULL, F.ex.kind(st, F.h0) == 0)))
        d = F.datum(s0, k)
        c.ensure(st, "every timer is released", Implies(F.present(s0, k), F.ex.kind(st, d) == 0))
        c.ensure(st, "nothing else is released", Implies(And(F.ex.kind(s0, o) > 0, F.ex.kind(st, o) == 0), Or(o == F.h0, And(F.present(s0, z3.Function("owner_name", Ref, IntS)(o)), F.datum(s0, z3.Function("owner_name", Ref, IntS)(o)) == o))))
    c.errors()

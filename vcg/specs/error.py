"""maa/error.c : every report is exactly the documented text on standard error, goes to the log once, and ends as documented."""
from spec import *
from textmod import *

TU = "error.c"
STRERR = z3.Function("strerror_text", IntS, Str)


class E:
    def __init__(self, c):
        self.c, self.ex = c, c.ex
        ex, st = c.ex, c.st
        ex.models.update(VA)
        self.err = lambda s: gget(ex, s, "err", Str)
        self.log = lambda s: gget(ex, s, "log", Str)
        self.flushed = lambda s: gget(ex, s, "flushed", BoolS)
        self.ended = []
        self.shown = lambda s: gget(ex, s, "shown", BoolS)     # no output to standard error is still in a buffer
        self.shown(st)
        for k in ("err", "log", "flushed", "shown", "va", "txt"):
            c.noframe.add(("G", k))
        self.log(st), self.flushed(st), va(ex, st), txt(ex, st, P(NULL))
        c.requires(Not(self.flushed(st)))
        self.stderr, self.stdout = (lambda s, g=g: toref(ex.gload(s, g, PTR(VOID))) for g in ("stderr", "stdout"))
        c.requires(self.stderr(st) != self.stdout(st), self.stderr(st) != NULL, self.stdout(st) != NULL)
        self.prog = toref(ex.gload(st, "_err_programName", PTR(CHAR)))
        c.requires(Select(gget(ex, st, "txt", z3.ArraySort(Ref, Str)), NULL) == SV("(null)"))     # as the C library prints it
        # errno
        self.en = ex.gref("errno")
        c.requires(self.en != NULL, ex.kind(st, self.en) == STACKBLK, ex.size(st, self.en) == 4)
        ex.rmap(st, INT)
        self.errno = lambda s: Select(Select(ex.rmap(s, INT), self.en), RV(0))
        self.errno0 = self.errno(st)
        c.requires(ex.inrange(self.errno0, INT))
        M = ex.models
        M["__errno_location"] = lambda ex, s, vs, n: [(s, P(self.en))]
        M["fflush"], M["fprintf"], M["vfprintf"], M["fputs"], M["fputc"], M["putc"] = self.m_fflush, self.m_fprintf, self.m_vfprintf, self.m_fputs, self.m_fputc, self.m_fputc
        M["log_error_va"], M["log_error"], M["strerror"], M["exit"], M["abort"] = self.m_log_va, self.m_log, self.m_strerror, self.m_exit, self.m_abort
        self.err0, self.log0 = self.err(st), self.log(st)

    def clobber(self, s):
        """any output may change errno"""
        h = self.ex.rmap(s, INT)
        v = fresh(IntS, "errno")
        s.assume(self.ex.inrange(v, INT))
        s.heap[self.ex.rawkey(INT)] = Store(h, self.en, Store(Select(h, self.en), RV(0), v))

    def out(self, s, stream, t, n):
        self.ex.trusted.add("stdio: output to stderr appends exactly the text")
        self.ex.oblige(s, "reports go to standard error", toref(stream) == self.stderr(s), n, group="out")
        self.ex.oblige(s, "standard output is flushed before the report", self.flushed(s), n, group="out")
        gset(s, "err", z3.Concat(self.err(s), t))
        gset(s, "shown", FALSE)
        self.clobber(s)
        r = fresh(IntS, "printed")
        s.assume(self.ex.inrange(r, INT))
        return [(s, r)]

    def m_fflush(self, ex, s, vs, n):
        a = toref(vs[0])
        gset(s, "flushed", Or(self.flushed(s), a == self.stdout(s), a == NULL))
        gset(s, "shown", Or(self.shown(s), a == self.stderr(s), a == NULL))
        self.clobber(s)
        r = fresh(IntS, "flush")
        s.assume(ex.inrange(r, INT))
        return [(s, r)]

    def m_fprintf(self, ex, s, vs, n):
        return self.out(s, vs[0], fmt(ex, s, vs[1], vs[2:], n), n)

    def m_vfprintf(self, ex, s, vs, n):
        return self.out(s, vs[0], FMT(toref(vs[1]), use_va(ex, s, vs[2], n)), n)

    def m_fputs(self, ex, s, vs, n):
        return self.out(s, vs[1], txt(ex, s, vs[0]), n)

    def m_fputc(self, ex, s, vs, n):
        c = z3.simplify(vs[0])
        if not z3.is_int_value(c):
            ex.unsup("fputc of a computed character", n)
        return self.out(s, vs[1], SV(chr(c.as_long() % 256)), n)

    def entry(self, s, routine, t):
        """one log entry"""
        return z3.Concat(SV("<"), txt(self.ex, s, routine), SV("|"), t, SV(">"))

    def m_log_va(self, ex, s, vs, n):
        ex.trusted.add("log_error, log_error_va (C26)")
        gset(s, "log", z3.Concat(self.log(s), self.entry(s, vs[0], FMT(toref(vs[1]), use_va(ex, s, vs[2], n)))))
        self.clobber(s)
        return [(s, None)]

    def m_log(self, ex, s, vs, n):
        ex.trusted.add("log_error, log_error_va (C26)")
        gset(s, "log", z3.Concat(self.log(s), self.entry(s, vs[0], fmt(ex, s, vs[1], vs[2:], n))))
        self.clobber(s)
        return [(s, None)]

    def m_strerror(self, ex, s, vs, n):
        ex.trusted.add("strerror")
        p = P(fresh(Ref, "strerror"))
        s.assume(p.base != NULL, p.base != self.prog, *[p.base != toref(a) for a in self.c.args])      # storage of its own
        set_txt(ex, s, p, STRERR(vs[0]))
        return [(s, p)]

    def m_exit(self, ex, s, vs, n):
        if not ex.mute:
            self.ended.append(("exit", s, vs[0]))
        return []

    def m_abort(self, ex, s, vs, n):
        if not ex.mute:
            self.ended.append(("abort", s, None))
        return []

    # ---- expected texts
    def prefix(self, routine):
        """(condition, text) by what is known"""
        ex, st = self.ex, self.c.st0
        pn, rn = self.prog != NULL, toref(routine) != NULL
        p, r = txt(ex, st, P(self.prog)), txt(ex, st, routine)
        return [(And(pn, rn), [p, SV(" ("), r, SV("): ")]), (And(pn, Not(rn)), [p, SV(": ")]), (And(Not(pn), rn), [r, SV(": ")]), (And(Not(pn), Not(rn)), [])]


def report(kind):
    def spec(c):
        e = E(c)
        ex = c.ex
        routine, format_ = c.args[0], c.args[1]
        c.requires(toref(format_) != NULL)
        c.noreturn = kind != "warning"
        c.run()
        ends = e.ended if kind != "warning" else [("return", st, None) for st, r in c.returns]
        msg = FMT(toref(format_), ARGS)
        if kind != "warning":
            for st, r in c.returns:
                c.ensure(st, "the report does not return", FALSE)
        else:
            for k, st, v in e.ended:
                c.ensure(st, "a warning returns", FALSE)
        c.ensure(c.st0, "some path is examined", z3.BoolVal(len(ends) > 0))
        for k, st, v in ends:
            c.ensure(st, "ends as documented", z3.BoolVal(k == dict(fatal="exit", errno="exit", internal="abort", warning="return")[kind]))
            if k == "exit":
                c.ensure(st, "exit status 1", v == 1)
            if k == "abort":
                c.ensure(st, "the report has left the buffer of standard error when the program aborts", e.shown(st))
            for cond, pre in e.prefix(routine):
                r = txt(ex, c.st0, routine)
                if kind in ("fatal", "warning"):
                    want = pre + [msg, SV("\n")]
                elif kind == "errno":
                    want = pre + [msg, SV(" "), r, SV(": "), STRERR(e.errno0), SV("\n")]
                else:
                    if not pre:
                        head = [SV("Internal error\n     ")]
                    else:
                        head = pre[:-1] + [SV(pre[-1].as_string() + "Internal error\n     ")]
                    pn = [SV(" "), txt(ex, c.st0, P(e.prog))]
                    want = None
                    for c2, tail in ((e.prog != NULL, [SV("\nAborting ")] + pn[1:] + [SV("...\n")]), (e.prog == NULL, [SV("\nAborting...\n")])):
                        c.ensure(st, "exactly the documented text on standard error", Implies(And(cond, c2), e.err(st) == cat([e.err0] + head + [msg] + tail)))
                if want is not None:
                    c.ensure(st, "exactly the documented text on standard error", Implies(cond, e.err(st) == cat([e.err0] + want)))
            r = txt(ex, c.st0, routine)
            L = [e.log0, SV("<"), r, SV("|"), msg, SV(">")]
            if kind == "errno":
                L += [SV("<"), r, SV("|"), r, SV(": "), STRERR(e.errno0), SV(">")]
            c.ensure(st, "the message goes to the log once", e.log(st) == cat(L))
            c.ensure(st, "standard output is flushed", e.flushed(st))
            c.unchanged(st, "nothing else is modified", but=[ex.rawkey(INT)])
        c.errors()
    return spec


contract(TU, "err_fatal", "C23")(report("fatal"))
contract(TU, "err_fatal_errno", "C23")(report("errno"))
contract(TU, "err_internal", "C23")(report("internal"))
contract(TU, "err_warning", "C23")(report("warning"))


@contract(TU, "err_set_program_name", "C23")
def _set(c):
    ex = c.ex
    p = c.args[0]
    n = z3.Int("slen")
    c.requires(Or(p.base == NULL, And(ex.kind(c.st, p.base) > 0, n >= 0, ex.size(c.st, p.base) > n, ch(ex, c.st, p, n) == 0, nz_below(ex, c.st, p, n))))
    L = z3.Int("last_slash")
    j = z3.Int("j")
    c.requires(L >= -1, L < n, Or(L == -1, ch(ex, c.st, p, L) == 47), forall([j], Implies(And(j > L, j < n), ch(ex, c.st, p, j) != 47), [ch(ex, c.st, p, j)]))
    ex.gload(c.st, "_err_programName", PTR(CHAR))

    def m_strrchr(ex, st, vs, nd):
        ex.trusted.add("strrchr")
        ex.oblige(st, "strrchr is given a string", vs[0].base != NULL, nd, group="mem")
        k = fresh(IntS, "pos")
        o = oint(vs[0].off)
        x = ex.castint(st, vs[1], INT, CHAR)
        s2 = st.copy()
        st.assume(k >= o, k < n, ch(ex, st, P(vs[0].base), k) == x, forall([j], Implies(And(j > k, j < n), ch(ex, st, P(vs[0].base), j) != x), [ch(ex, st, P(vs[0].base), j)]))
        s2.assume(forall([j], Implies(And(j >= o, j < n), ch(ex, s2, P(vs[0].base), j) != x), [ch(ex, s2, P(vs[0].base), j)]))
        return [(st, P(vs[0].base, k)), (s2, P(NULL))]

    def m_strchr(ex, st, vs, nd):
        ex.trusted.add("strchr")
        ex.oblige(st, "strchr is given a string", vs[0].base != NULL, nd, group="mem")
        k = fresh(IntS, "pos")
        o = oint(vs[0].off)
        x = ex.castint(st, vs[1], INT, CHAR)
        s2 = st.copy()
        st.assume(k >= o, k < n, ch(ex, st, P(vs[0].base), k) == x, forall([j], Implies(And(j >= o, j < k), ch(ex, st, P(vs[0].base), j) != x), [ch(ex, st, P(vs[0].base), j)]))
        s2.assume(forall([j], Implies(And(j >= o, j < n), ch(ex, s2, P(vs[0].base), j) != x), [ch(ex, s2, P(vs[0].base), j)]))
        return [(st, P(vs[0].base, k)), (s2, P(NULL))]
    ex.models.update(strrchr=m_strrchr, strchr=m_strchr)

    def hints(ex, entry, mod, nd, cond):
        out = []
        ps = [k for k, v in entry.env.items() if isinstance(v, P) and v.path is None and ex.vtype(k) is not None and ex.vtype(k).k == "ptr"]
        for k in ps:
            o = lambda st, k=k: oint(st.env[k].off)
            out.append(Cand("inside the name", lambda st, k=k: And(st.env[k].base == p.base, o(st, k) >= 0, o(st, k) <= n)))
            out.append(Cand("behind the last slash: recorded", lambda st, k=k, o=o: Or(o(st) <= L, (lambda g: Or(g == toref(P(p.base, L + 1)), And(L == -1, g == p.base)))(
                toref(ex.gload(st, "_err_programName", PTR(CHAR)))))))
            for k2 in ps:
                if k2 != k:
                    o2 = lambda st, k2=k2: oint(st.env[k2].off)
                    for d in (0, 1):
                        out.append(Cand("behind the last slash so far", lambda st, o=o, o2=o2, k=k, k2=k2, d=d: And(st.env[k2].base == p.base, o2(st) >= 0, o2(st) <= o(st), Or(
                            o2(st) == 0, And(o2(st) - (1 - d) >= 0, ch(ex, st, P(p.base), o2(st) - (1 - d)) == 47)), forall([j], Implies(And(j >= o2(st) + d, j < o(st)), ch(ex, st, P(p.base), j) != 47), [ch(ex, st, P(p.base), j)]))))
        return out
    ex.loop_hints = hints
    c.run()
    for st, r in c.returns:
        want = If(p.base == NULL, NULL, toref(P(p.base, L + 1)))
        g = toref(ex.gload(st, "_err_programName", PTR(CHAR)))
        c.ensure(st, "the last path component of the name is recorded", Or(And(p.base == NULL, g == NULL), And(p.base != NULL, g == want), And(p.base != NULL, L == -1, g == p.base)))
        c.frame(st, lambda o: FALSE, globs=("_err_programName",))
    c.errors()


@contract(TU, "err_program_name", "C23")
def _get(c):
    g = toref(c.ex.gload(c.st, "_err_programName", PTR(CHAR)))
    c.run()
    for st, r in c.returns:
        c.ensure(st, "the name recorded", toref(r) == g)
        c.unchanged(st, "nothing is modified")
    c.errors()

"""maa/source.c, messages : what is written to a stream is a ghost document, built from single characters and from whole texts (names, numbers, stored lines,
formatted messages); a run of one character is a function of its length.  yyerror texts are given by a reference function on positions."""
import re
from spec import *
from textmod import VA, va, use_va, gget, gset, txt, NUM, FMT, ARGS, Str
from absmod import *
from specs.source import S, TU, m_dbg_test, m_log
import lib

Doc = z3.DeclareSort("Doc")
PUT = z3.Function("put", Doc, IntS, Doc)
ATOM = z3.Function("put_text", Doc, Str, Doc)
REP = z3.Function("put_run", Doc, IntS, IntS, Doc)
SUB = z3.Function("part_of_message", IntS, IntS, IntS)         # contents of the characters [a, a + l)
CID = z3.Function("contents", z3.ArraySort(IntS, IntS), IntS, IntS)
STEXT = z3.Function("text_of_contents", IntS, Str)
EXPF = z3.Function("expansion", IntS, Ref)
byte = lambda v: If(v < 0, v + 256, v)
lits = lambda d, s: lits(PUT(d, RV(ord(s[0]))), s[1:]) if s else d


class M:
    def __init__(self, c, stream=0, message=None):
        self.c, self.ex = c, c.ex
        ex, st = c.ex, c.st
        self.s = S(c)
        self.t = self.s.token(1)
        c.requires(Implies(self.t != NULL, self.s.alive(st)))
        # lengths and offsets are counts of characters; the least int is none
        c.requires(*[Implies(self.t != NULL, self.s.tf(st, self.t, x) > -2147483648) for x in ("offset", "length")])
        ex.models.update(VA)
        for k in ("va", "txt"):
            c.noframe.add(("G", k))
        c.noframe.add(("g", "@doc"))
        va(ex, st), txt(ex, st, P(NULL))
        self.doc = lambda s: ex.hmap(s, ("g", "@doc"), lambda: Doc)
        self.d0 = self.doc(st)
        out = toref(ex.gload(st, "stdout", PTR(VOID)))
        a = toref(c.args[0])
        self.T = z3.Const("stream_written", Ref)
        c.requires(out != NULL, self.T == If(a == NULL, out, a))
        d, k, n = z3.Const("d", Doc), z3.Int("k"), z3.Int("n")
        ex.axioms += [forall([d, k, n], Implies(n <= 0, REP(d, k, n) == d), [REP(d, k, n)]),
                      forall([d, k, n], Implies(n >= 0, PUT(REP(d, k, n), k) == REP(d, k, n + 1)), [PUT(REP(d, k, n), k)])]
        mm = ex.models
        mm.update(dbg_test=m_dbg_test, log_info=m_log, fflush=lambda ex, s, vs, n: [(s, RV(0))], __assert_fail=self.m_assert)
        for k in dir(self):
            if k.startswith("m_") and k != "m_assert":
                mm[k[2:]] = getattr(self, k)
        self.conc = []
        self.inner = []
        if message is not None:
            self.reference(message)
        ex.loop_hints = self.hints

    def m_assert(self, ex, s, vs, n):
        ex.oblige(s, "an assertion of the library holds", FALSE, n)
        return []

    # ---- output
    def emit(self, s, stream, d, n):
        self.ex.trusted.add("stdio: output appends exactly the text to the stream")
        self.ex.oblige(s, "written to the stream asked for (standard output for NULL)", toref(stream) == self.T, n)
        self.s_put(s, d)
        r = fresh(IntS, "printed")
        s.assume(self.ex.inrange(r, INT))
        return [(s, r)]

    def s_put(self, s, d):
        x = fresh(Doc, "doc")
        s.assume(x == d)
        s.heap[("g", "@doc")] = x

    def text(self, s, p, n):
        """text of a string argument"""
        for b in self.conc:
            if b.eq(p.base):
                return STEXT(self.contents(s, p, n))
        if z3.is_app_of(p.base, z3.Z3_OP_ITE) and p.path is None:
            q, o = p.base.arg(0), p.off
            pick = lambda i: o.arg(i) if isinstance(o, z3.ExprRef) and z3.is_app_of(o, z3.Z3_OP_ITE) and o.arg(0).eq(q) else o
            x, y = s.copy(), s.copy()
            x.assume(q)
            y.assume(Not(q))
            k = len(s.pc)
            a, b = self.text(x, P(p.base.arg(1), pick(1)), n), self.text(y, P(p.base.arg(2), pick(2)), n)
            for t, g in ((x, q), (y, Not(q))):
                s.assume(*[Implies(g, f) for f in t.pc[k + 1:]])
            return If(q, a, b)
        return txt(self.ex, s, p)

    def fmt(self, s, f, args, n):
        ex = self.ex
        lit = ex.ctab.get(f.base.get_id())
        if lit is None or not off_is0(f.off):
            ex.unsup("format that is not a literal", n)
        t = "".join(chr(x % 256) for x in lit[1][:-1])
        d, i, args = self.doc(s), 0, list(args)
        while i < len(t):
            if t[i] != "%":
                d = PUT(d, RV(ord(t[i])))
                i += 1
                continue
            m = re.match(r"%(\*|\.\*)?(l|ll|h|z)?([sdiuc%])", t[i:])
            if not m:
                ex.unsup("format " + t, n)
            i += m.end()
            if m.group(3) == "%":
                d = PUT(d, RV(37))
                continue
            if len(args) < (2 if m.group(1) else 1):
                ex.oblige(s, "as many arguments as the format asks for", FALSE, n)
                return d
            w = args.pop(0) if m.group(1) else None
            a = args.pop(0)
            if m.group(3) == "s":
                if not isinstance(a, P):
                    ex.oblige(s, "%s is given a string", FALSE, n)
                    return d
                al = ex.ctab.get(a.base.get_id())
                if w is not None:
                    if not (al is not None and off_is0(a.off) and al[1][0] == 0 and m.group(1) == "*"):
                        ex.unsup("format with a width", n)
                    d = REP(d, RV(32), If(w < 0, -w, w))
                elif al is not None and off_is0(a.off):
                    d = lits(d, "".join(chr(x % 256) for x in al[1][:-1]))
                else:
                    d = ATOM(d, self.text(s, a, n))
            elif w is not None:
                ex.unsup("format with a width", n)
            elif m.group(3) == "c":
                d = PUT(d, byte(a) if not z3.is_int_value(z3.simplify(a)) else z3.simplify(a % 256))
            else:
                if isinstance(a, P):
                    ex.oblige(s, "a numeric conversion is given a number", FALSE, n)
                    return d
                d = ATOM(d, NUM(a, RV(100)))
        return d

    def m_fprintf(self, ex, s, vs, n):
        return self.emit(s, vs[0], self.fmt(s, vs[1], vs[2:], n), n)

    def m_printf(self, ex, s, vs, n):
        return self.emit(s, ex.gload(s, "stdout", PTR(VOID)), self.fmt(s, vs[0], vs[1:], n), n)

    def m_vfprintf(self, ex, s, vs, n):
        return self.emit(s, vs[0], ATOM(self.doc(s), FMT(toref(vs[1]), use_va(ex, s, vs[2], n))), n)

    def m_putc(self, ex, s, vs, n):
        v = z3.simplify(vs[0])
        return self.emit(s, vs[1], PUT(self.doc(s), RV(v.as_long() % 256) if z3.is_int_value(v) else byte(vs[0])), n)
    m_fputc = m__IO_putc = m_putc_unlocked = m_putc

    def m_putchar(self, ex, s, vs, n):
        return self.m_putc(ex, s, [vs[0], ex.gload(s, "stdout", PTR(VOID))], n)

    def m_fputs(self, ex, s, vs, n):
        p = vs[0]
        al = ex.ctab.get(p.base.get_id())
        if al is not None and off_is0(p.off):
            return self.emit(s, vs[1], lits(self.doc(s), "".join(chr(x % 256) for x in al[1][:-1])), n)
        ex.oblige(s, "fputs of a string", toref(p) != NULL, n, group="pre")
        return self.emit(s, vs[1], ATOM(self.doc(s), self.text(s, p, n)), n)

    # ---- symbols in yyerror messages
    def contents(self, s, p, n):
        """identity of the contents of a buffer; equal to every part of the message with the same characters"""
        ex = self.ex
        (s2, ln), = lib.MODELS["strlen"](ex, s, [p], n) if hasattr(lib, "MODELS") else lib.m_strlen(ex, s, [p], n)
        row = Select(ex.rmap(s, CHAR), p.base)
        o = oint(p.off)
        x = CID(row, o)
        a, l = z3.Ints("a l")
        df = fresh_fun("differ", IntS, IntS)
        s.assume(forall([a, l], Implies(l == ln, Or(x == SUB(a, l), And(df(a) >= 0, df(a) < l, Select(row, o + df(a)) != self.m(a + df(a))))), [SUB(a, l)]))
        return x

    def m_prs_concrete(self, ex, s, vs, n):
        ex.trusted.add("prs_concrete (proved under C28)")
        p = vs[0]
        if not any(b.eq(p.base) for b in self.conc):
            self.conc.append(p.base)
        return [(s, P(EXPF(self.contents(s, p, n))))]

    # ---- reference for yyerror messages
    def reference(self, p):
        c, ex, st = self.c, self.ex, self.c.st
        self.z = z = z3.Int("message_length")
        c.requires(z >= 0, Implies(p.base != NULL, And(ex.kind(st, p.base) > 0, oint(p.off) >= 0, oint(p.off) + z < ex.size(st, p.base), nz_below(ex, st, p, z), ch(ex, st, p, z) == 0)))
        row = Select(ex.rmap(st, CHAR), p.base)
        self.mp = p
        self.m = m = lambda i: Select(row, i)
        o = oint(p.off)
        self.e = e = o + z
        self.B = B = z3.Function("boundary", IntS, BoolS)
        self.D = D = z3.Function("document_up_to", IntS, Doc)
        self.J = J = z3.Function("end_of_symbol", IntS, IntS)
        i, k = z3.Ints("i k")
        Q, A = 96, 39
        case1 = And(m(i) == Q, m(i + 1) == Q, m(i + 2) != 0, m(i + 3) == A, m(i + 4) == A)
        case2 = And(m(i) == Q, m(i + 1) == 84, m(i + 2) == 95)
        j = J(i + 1)
        L = If(j - (i + 1) < 1023, j - (i + 1), RV(1023))
        sub = SUB(i + 1, L)
        name = If(EXPF(sub) == NULL, STEXT(sub), Select(gget(ex, st, "txt", z3.ArraySort(Ref, Str)), EXPF(sub)))
        nx = If(m(j) == 0, j, j + 1)
        body = If(case1, And(B(i + 5), D(i + 5) == PUT(PUT(PUT(D(i), RV(Q)), byte(m(i + 2))), RV(A))),
                  If(case2, And(j >= i + 1, j <= e, Or(m(j) == 0, m(j) == A), B(nx), D(nx) == PUT(ATOM(PUT(D(i), RV(Q)), name), RV(A))),
                     And(B(i + 1), D(i + 1) == PUT(D(i), byte(m(i))))))
        ex.axioms += [forall([i], Implies(And(B(i), i >= o, i < e), body), [B(i)]),
                      forall([i, k], Implies(And(k >= i, k < J(i)), And(m(k) != 0, m(k) != A)), [[J(i), m(k)]])]

    def start(self, d):
        """the document the message is appended to"""
        o = oint(self.mp.off)
        return And(self.B(o), self.D(o) == d)

    # ---- loops
    def hints(self, ex, entry, mod, nd, cond):
        out = []
        d = self.doc(entry)
        t = self.t
        s = self.s
        lim = [s.tf(entry, t, "offset"), s.tf(entry, t, "length")]
        for k in mod.vars:
            v = entry.env.get(k)
            if isinstance(v, z3.ExprRef) and z3.is_int(v):
                for chr_ in (32, 94):
                    out.append(Cand("a run of %d" % chr_, lambda st, k=k, v=v, chr_=chr_: And(st.env[k] >= v, self.doc(st) == REP(d, RV(chr_), st.env[k] - v))))
                    out.append(Cand("a run of %d, downwards" % chr_, lambda st, k=k, v=v, chr_=chr_: And(st.env[k] <= v, self.doc(st) == REP(d, RV(chr_), v - st.env[k]))))
                for li, l in enumerate(lim):
                    out.append(Cand("not beyond limit %d" % li, lambda st, k=k, l=l, v=v: Or(st.env[k] == v, st.env[k] <= l)))
                out.append(Cand("not below zero", lambda st, k=k, v=v: Or(st.env[k] == v, st.env[k] >= 0)))
        if getattr(self, "mp", None) is None:
            return out
        o, e = oint(self.mp.off), self.e
        pos = []
        for k, v in entry.env.items():
            if isinstance(v, P) and v.path is None and v.base.eq(self.mp.base):
                pos.append((k, lambda st, k=k: oint(st.env[k].off), oint(v.off)))
            elif isinstance(v, z3.ExprRef) and z3.is_int(v):
                pos.append((k, lambda st, k=k: o + st.env[k], o + v))
        for k, f, f0 in pos:
            if k not in mod.vars:
                continue
            out.append(Cand("inside the message", lambda st, f=f: And(f(st) >= o, f(st) <= e)))
            out.append(Cand("printed up to here", lambda st, f=f: And(self.B(f(st)), self.doc(st) == self.D(f(st)))))
            x = z3.Int("x")
            out.append(Cand("no end of the symbol so far", lambda st, f=f, f0=f0: And(f(st) >= f0, forall([x], Implies(And(x >= f0, x < f(st)), And(self.m(x) != 0, self.m(x) != 39)), [self.m(x)]))))
            for k2, v2 in entry.env.items():
                if k2 not in mod.vars:
                    continue
                if isinstance(v2, P) and v2.path is None and not v2.base.eq(self.mp.base):
                    t2 = ex.vtype(k2)
                    if t2 is None or t2.k != "ptr" or t2.to.k != "int" or t2.to.bits != 8:
                        continue
                    g = lambda st, k2=k2: oint(st.env[k2].off)
                    g0, b = oint(v2.off), v2.base
                    out.append(Cand("copied as much as there is room for", lambda st, f=f, f0=f0, g=g, g0=g0: g(st) - g0 == If(f(st) - f0 < 1023, f(st) - f0, RV(1023))))
                    out.append(Cand("the copy", lambda st, f0=f0, g=g, g0=g0, b=b: forall([x], Implies(And(x >= g0, x < g(st)), Select(Select(ex.rmap(st, CHAR), b), x) == self.m(f0 + (x - g0))), [Select(Select(ex.rmap(st, CHAR), b), x)])))
                elif isinstance(v2, z3.ExprRef) and z3.is_int(v2):
                    g = lambda st, k2=k2: st.env[k2]
                    out.append(Cand("counted as much as there is room for", lambda st, f=f, f0=f0, g=g, v2=v2: g(st) - v2 == If(f(st) - f0 < 1023, f(st) - f0, RV(1023))))
                    bases = [q.base for q in entry.env.values() if isinstance(q, P) and q.path is None and not q.base.eq(self.mp.base) and not q.base.eq(NULL)]
                    bases += [q[1] for q in entry.env.values() if isinstance(q, tuple) and q[0] == "mem" and q[2].k == "arr"]
                    for b in {q.get_id(): q for q in bases}.values():
                        out.append(Cand("the copy by index", lambda st, f0=f0, g=g, v2=v2, b=b: forall([x], Implies(And(x >= v2, x < g(st)), Select(Select(ex.rmap(st, CHAR), b), x) == self.m(f0 + (x - v2))), [Select(Select(ex.rmap(st, CHAR), b), x)])))
        return out

    # ---- documents expected
    def place(self, st, d):
        """file:line: """
        s, t = self.s, self.t
        f = lambda x: s.tf(st, t, x)
        T = gget(self.ex, st, "txt", z3.ArraySort(Ref, Str))
        return If(t == NULL, lits(d, "?:?: "), lits(ATOM(PUT(ATOM(d, Select(T, f("file"))), RV(58)), NUM(f("line"), RV(100))), ": "))

    def line(self, st, d):
        s, t = self.s, self.t
        T = gget(self.ex, st, "txt", z3.ArraySort(Ref, Str))
        return If(t == NULL, lits(d, "?:?: <source line not available>\n"), ATOM(self.place(st, d), Select(T, s.at(st, s.tf(st, t, "index")))))

    def marked(self, st, d):
        """the line, and the token marked below it"""
        s, t = self.s, self.t
        n = lambda x: If(s.tf(st, t, x) > 0, s.tf(st, t, x), RV(0))
        p = self.place(st, self.line(st, d))
        return PUT(If(t == NULL, p, REP(REP(p, RV(32), n("offset")), RV(94), n("length"))), RV(10))

    def check(self, want):
        c = self.c
        for st, r in c.returns:
            c.ensure(st, "exactly the documented text", self.doc(st) == want)
            c.frame(st, lambda o: FALSE)
        c.errors()


@contract(TU, "src_print_line", "C29")
def _line(c):
    m = M(c)
    c.run()
    m.check(m.line(c.st0, m.d0))


@contract(TU, "src_parse_error", "C29", weight=3)
def _parse(c):
    m = M(c, message=c.args[2])
    p = c.args[2]
    start = m.place(c.st, m.d0)
    c.requires(m.start(start))
    c.run()
    d = If(p.base == NULL, lits(start, "(null)"), m.D(m.e))
    m.check(m.marked(c.st0, PUT(d, RV(10))))


def message(m, c):
    d = m.place(c.st0, m.d0)
    return If(toref(c.args[2]) == NULL, m.d0, PUT(ATOM(d, FMT(toref(c.args[2]), ARGS)), RV(10)))


@contract(TU, "src_print_error", "C29")
def _error(c):
    m = M(c)
    c.run()
    m.check(m.marked(c.st0, message(m, c)))


@contract(TU, "src_print_message", "C29")
def _message(c):
    m = M(c)
    c.run()
    m.check(message(m, c))

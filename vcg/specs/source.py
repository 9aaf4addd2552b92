"""maa/source.c : the one source manager.  Lines[0..Used) are the lines stored, Info what the next token gets; tokens are blocks of their own that
nothing but their creation writes."""
from spec import *
from absmod import *
from specs.list import STORE, osize

TU = "source.c"
SRC = "source"
intern = z3.Function("stored_name", IntS, Ref)     # the one copy of a name in the global string pool (C11)


def m_dbg_test(ex, st, vs, n):
    ex.trusted.add("dbg_test (proved under C19: modifies nothing)")
    r = fresh(IntS, "dbg")
    st.assume(ex.inrange(r, INT))
    return [(st, r)]


def m_log(ex, st, vs, n):
    ex.trusted.add("log_info (writes to the logs only)")
    return [(st, None)]


def m_str_find(ex, st, vs, n):
    ex.trusted.add("str_find (proved under C11)")
    r = intern(sid(st, vs[0]))
    st.assume(r != NULL)
    return [(st, P(r))]


class S:
    """the manager exists (live), does not (dead) or either (None)"""

    def __init__(self, c, live=None):
        self.c, self.ex = c, c.ex
        ex, st = c.ex, c.st
        ex.models.update(STRMEM)
        ex.models.update(STORE)
        ex.models.update(dbg_test=m_dbg_test, log_info=m_log, str_find=m_str_find)
        for x in ("src_create", "src_advance", "src_new_line", "src_new_file"):
            ex.models.pop(x, None)
        strmem_maps(ex, st)
        for k in ("g_len", "g_ch", "owner"):
            st.heap.setdefault(("G", k), ex.heap0[("G", k)])
        osize(ex, st)
        ex.rmap(st, PTR(VOID))
        self.ft = dict(ex.flat(SRC))
        for f, t in self.ft.items():
            ex.fmap(st, SRC, f, t)
        self.I = ex.gref("Info")
        c.requires(self.I != NULL, ex.kind(st, self.I) == K(SRC), ex.size(st, self.I) == c.tu.sizeof(T("struct", tag=SRC)))
        self.lines, self.sh, self.ih = (lambda st, g=g: toref(ex.gload(st, g, PTR(VOID))) for g in ("Lines", "StringHeap", "InfoHeap"))
        self.count, self.used = (lambda st, g=g: ex.gload(st, g, INT) for g in ("Count", "Used"))
        for g in (self.lines, self.sh, self.ih, self.count, self.used):
            g(st)
        self.inf = lambda st, f: Select(ex.fmap(st, SRC, f, self.ft[f]), self.I)
        self.it = z3.Function("line_at", IntS, Ref)
        off, on = self.dead(st), self.alive(st)
        c.requires(on if live else off if live is not None else Or(on, off))
        m = z3.Const("m", Ref)
        c.requires(forall([m], Implies(ex.kind(st, m) == 0, self.own(st, m) == NULL), [self.own(st, m)]))      # ghost: dead blocks have no owner
        c.requires(forall([m], Or(self.own(st, m) == NULL, ex.kind(st, self.own(st, m)) > 0), [self.own(st, m)]))     # ghost: owners are live
        k = z3.Int("k")
        c.requires(forall([k], Implies(And(k >= 0, k < self.used(st)), And(self.at(st, k) == self.it(k), self.strok(st, self.at(st, k)))), [self.at(st, k)]))
        # resources: counters stay in range
        c.requires(self.count(st) < (1 << 27), self.used(st) <= self.count(st))

    def own(self, st, m):
        return Select(st.heap.get(("G", "owner"), self.ex.heap0[("G", "owner")]), m)

    def at(self, st, k):
        return Select(Select(self.ex.rmap(st, PTR(VOID)), self.lines(st)), k)

    def strok(self, st, p):
        return And(p != NULL, self.ex.kind(st, p) > 0, self.own(st, p) == self.sh(st))

    def dead(self, st):
        return And(self.lines(st) == NULL, self.sh(st) == NULL, self.ih(st) == NULL, self.used(st) == 0, self.count(st) == 0)

    def alive(self, st):
        ex = self.ex
        v = self.lines(st)
        return And(v != NULL, Or(ex.kind(st, v) == UNTYPED, ex.kind(st, v) == RAW), ex.size(st, v) >= 8 * self.count(st), self.used(st) >= 0, self.used(st) < self.count(st),
                   self.sh(st) != NULL, ex.kind(st, self.sh(st)) == K("stringInfo"), self.own(st, self.sh(st)) != self.sh(st), self.own(st, v) != self.sh(st), self.own(st, self.ih(st)) != self.sh(st),
                   self.own(st, self.I) != self.sh(st),
                   self.ih(st) != NULL, ex.kind(st, self.ih(st)) == K("objectInfo"), Select(osize(ex, st), self.ih(st)) == self.c.tu.sizeof(T("struct", tag=SRC)))

    def post(self, st):
        c = self.c
        k = z3.Int("k!sk")
        c.ensure(st, "the manager exists and is well formed", self.alive(st))
        c.ensure(st, "every line is a live string of the manager", Implies(And(k >= 0, k < self.used(st)), self.strok(st, self.at(st, k))))

    def infos(self, st, **ch):
        """what the next token gets: the given fields change, the others stay"""
        for f in self.ft:
            v = ch.get(f, self.inf(self.c.st0, f))
            self.c.ensure(st, "%s in force for the next token" % f, self.inf(st, f) == v)

    def token(self, i=0):
        c, ex = self.c, self.ex
        t = c.args[i].base
        st = c.st
        c.requires(Or(t == NULL, And(ex.kind(st, t) == K(SRC), t != self.I)))
        c.requires(Implies(And(t != NULL, self.lines(st) != NULL), And(self.tf(st, t, "index") >= 0, self.tf(st, t, "index") < self.used(st))))
        return t

    def tf(self, st, t, f):
        return Select(self.ex.fmap(st, SRC, f, self.ft[f]), t)


@contract(TU, "src_create", "C22")
def _create(c):
    s = S(c)
    c.allow("fatal", s.lines(c.st) != NULL, name="the manager exists already")
    c.run()
    for st, r in c.returns:
        s.post(st)
        c.ensure(st, "no lines yet", s.used(st) == 0)
        s.infos(st)
        c.frame(st, lambda o: FALSE, globs=("Lines", "StringHeap", "InfoHeap", "Count", "Used"))
    c.errors()


@contract(TU, "src_line", "C22", weight=3)
def _line(c):
    s = S(c)
    ex = c.ex
    p, n = c.args
    z = z3.Int("first_nul")
    c.requires(n >= 0, p.base != NULL, ex.kind(c.st, p.base) > 0, ex.size(c.st, p.base) >= n, p.base != s.lines(c.st))
    c.requires(z >= 0, z <= n, nz_below(ex, c.st, p, z), Implies(z < n, ch(ex, c.st, p, z) == 0))
    c.requires(s.inf(c.st, "line") < (1 << 31) - 1)
    tr = lambda v: If(v == 9, RV(32), v)
    j = z3.Int("j")

    def hints(ex, entry, mod, nd, cond):
        out = []
        seen = []
        for k, v in entry.env.items():
            if not (isinstance(v, P) and v.path is None):
                continue
            t = ex.vtype(k)
            if t is None or t.k != "ptr" or t.to.k != "int" or t.to.bits != 8:
                continue
            if not any(v.base.eq(x) for x in seen + [p.base]):
                seen.append(v.base)
                c1 = lambda st, x, b=v.base: Select(Select(ex.rmap(st, CHAR), b), x)
                out.append(Cand("every character is as it was or a tab replaced", lambda st, c1=c1: forall([j], Or(c1(st, j) == c1(entry, j), And(
                    c1(entry, j) == 9, c1(st, j) == 32)), [c1(st, j)])))
                out.append(Cand("the terminator stays", lambda st, c1=c1: c1(st, z) == 0))
            if k not in mod.vars:
                continue
            b = v.base
            c0 = lambda st, x, b=b: Select(Select(ex.rmap(st, CHAR), b), x)
            out.append(Cand("the walk is inside the string", lambda st, k=k: And(oint(st.env[k].off) >= 0, oint(st.env[k].off) <= z, st.env[k].base == b)))
            out.append(Cand("tabs replaced up to here, the rest as it was", lambda st, k=k: forall([j], c0(st, j) == If(
                And(j >= 0, j < oint(st.env[k].off)), tr(c0(entry, j)), c0(entry, j)), [c0(st, j)])))
        for k, v in entry.env.items():
            if isinstance(v, z3.ExprRef) and z3.is_int(v) and k in mod.vars:
                B = s.at(entry, s.used(entry))
                cb = lambda st, x: Select(Select(ex.rmap(st, CHAR), B), x)
                out.append(Cand("the index is inside the string", lambda st, k=k: And(st.env[k] >= 0, st.env[k] <= z)))
                out.append(Cand("tabs replaced up to the index, the rest as it was", lambda st, k=k: forall([j], cb(st, j) == If(
                    And(j >= 0, j < st.env[k]), tr(cb(entry, j)), cb(entry, j)), [cb(st, j)])))
        return out
    ex.loop_hints = hints
    c.run()
    U = s.used(c.st0)
    x, k = z3.Int("x!sk"), z3.Int("k!sk2")
    for st, r in c.returns:
        s.post(st)
        c.ensure(st, "one more line", s.used(st) == U + 1)
        c.ensure(st, "returns the stored line", And(r.base == s.at(st, U), oint(r.off) == 0))
        c.ensure(st, "the lines stored before are in place", Implies(And(k >= 0, k < U), s.at(st, k) == s.it(k)))
        b = lambda i: Select(Select(ex.rmap(st, CHAR), r.base), i)
        c.ensure(st, "a block of its own", And(ex.kind(c.st0, r.base) == 0, r.base != s.lines(st), ex.size(st, r.base) > n))
        c.ensure(st, "the text of the line with tabs shown as blanks", Implies(And(x >= 0, x < z), b(x) == tr(ch(ex, c.st0, p, x))))
        c.ensure(st, "terminated", b(z) == 0)
        s.infos(st, line=s.inf(c.st0, "line") + 1, offset=RV(0), index=U)
        c.frame(st, lambda o: Or(o == s.I, o == s.lines(c.st0), o == s.sh(c.st0)), globs=("Lines", "StringHeap", "InfoHeap", "Count", "Used"))
    c.errors()


@contract(TU, "src_get", "C22")
def _get(c):
    s = S(c)
    n = c.args[0]
    o0 = s.inf(c.st, "offset")
    c.requires(n >= 0, o0 >= 0, o0 + n < (1 << 31))
    c.allow("fatal", s.lines(c.st) == NULL, name="there is no manager")
    c.run()
    for st, r in c.returns:
        s.post(st)
        t = r.base
        for f in ("file", "line", "offset", "index"):
            c.ensure(st, "the token gets the %s in force" % f, s.tf(st, t, f) == s.inf(c.st0, f))
        c.ensure(st, "the token gets its length", s.tf(st, t, "length") == n)
        c.ensure(st, "the token is a block of its own", And(c.ex.kind(c.st0, t) == 0, c.ex.kind(st, t) == K(SRC)))
        s.infos(st, offset=o0 + n, length=n)
        c.frame(st, lambda o: o == s.I)
    c.errors()


def field(fn, f, dflt):
    def spec(c):
        s = S(c)
        t = s.token()
        c.allow("fatal", s.lines(c.st) == NULL, name="there is no manager")
        c.run()
        for st, r in c.returns:
            if dflt is None:
                c.ensure(st, "the %s recorded; empty for NULL" % f, If(t == NULL, r == 0, r == s.tf(c.st0, t, f)))
            else:
                lit = c.ex.strlits.get(b"")
                empty = And(r.base == lit, oint(r.off) == 0) if lit is not None else ch(c.ex, st, r, 0) == 0
                want = s.it(s.tf(c.st0, t, "index")) if f == "index" else s.tf(c.st0, t, f)
                c.ensure(st, "the %s recorded; the empty string for NULL" % dflt, If(t == NULL, empty, And(r.base == want, oint(r.off) == 0)))
            c.unchanged(st, "nothing is modified")
        c.errors()
    contract(TU, fn, "C22")(spec)


field("src_filename", "file", "file name")
field("src_linenumber", "line", None)
field("src_offset", "offset", None)
field("src_length", "length", None)
field("src_source_line", "index", "text of the line")


@contract(TU, "src_new_file", "C22")
def _new_file(c):
    s = S(c)
    c.run()
    for st, r in c.returns:
        s.infos(st, file=intern(sid(c.st0, c.args[0])))
        c.frame(st, lambda o: o == s.I)
    c.errors()


@contract(TU, "src_new_line", "C22")
def _new_line(c):
    s = S(c)
    c.run()
    for st, r in c.returns:
        s.infos(st, line=c.args[0])
        c.frame(st, lambda o: o == s.I)
    c.errors()


@contract(TU, "src_advance", "C22")
def _advance(c):
    s = S(c)
    o0, n = s.inf(c.st, "offset"), c.args[0]
    c.requires(o0 + n < (1 << 31), o0 + n >= -(1 << 31))
    c.run()
    for st, r in c.returns:
        s.infos(st, offset=o0 + n)
        c.frame(st, lambda o: o == s.I)
    c.errors()


@contract(TU, "src_destroy", "C22")
def _destroy(c):
    s = S(c)
    ex = c.ex
    gone = s.lines(c.st) != NULL
    c.run()
    k = z3.Int("k!sk")
    for st, r in c.returns:
        c.ensure(st, "there is no manager", s.dead(st))
        c.ensure(st, "the next token starts from nothing", Implies(gone, And(*[s.inf(st, f) == (NULL if t.k == "ptr" else RV(0)) for f, t in s.ft.items()])))
        c.ensure(st, "without a manager nothing changes", Implies(Not(gone), And(*[s.inf(st, f) == s.inf(c.st0, f) for f in s.ft])))
        c.ensure(st, "the table, the memories and the lines are released", Implies(gone, And(*[ex.kind(st, x) == 0 for x in (s.lines(c.st0), s.sh(c.st0), s.ih(c.st0))])))
        c.ensure(st, "the lines are released", Implies(And(k >= 0, k < s.used(c.st0)), ex.kind(st, s.at(c.st0, k)) == 0))
        c.frame(st, lambda o: Or(o == s.I, o == s.lines(c.st0), o == s.sh(c.st0), o == s.ih(c.st0), s.own(c.st0, o) == s.sh(c.st0)), globs=("Lines", "StringHeap", "InfoHeap", "Count", "Used"))
    c.errors()


@contract(TU, "src_cpp_line", "C22")
def _cpp_line(c):
    """a # directive: line and file of the following lines"""
    s = S(c)
    ex = c.ex
    p, n = c.args
    z = z3.Int("first_nul")
    c.requires(n >= 0, n < (1 << 30), p.base != NULL, ex.kind(c.st, p.base) > 0, ex.size(c.st, p.base) >= n)
    c.requires(z >= 0, z <= n, nz_below(ex, c.st, p, z), Implies(z < n, ch(ex, c.st, p, z) == 0))
    N, A = z3.Int("pieces"), z3.Int("number")
    IT = z3.Function("piece", IntS, Ref)
    c.requires(N >= 0, ex.inrange(A, INT))
    x = z3.Int("x!sk")

    def m_alloca(ex, st, vs, nd):
        r = ex.alloc(st, vs[0], "alloca")
        ex.set_kind(st, r, STACKBLK)
        return [(st, P(r))]

    def m_strncpy(ex, st, vs, nd):
        ex.trusted.add("strncpy")
        d, q, k = vs
        ex.oblige(st, "strncpy stays inside the destination", And(ex.kind(st, d.base) > 0, oint(d.off) >= 0, oint(d.off) + k <= ex.size(st, d.base)), nd, group="mem")
        ex.oblige(st, "strncpy reads the line", And(q.base == p.base, oint(q.off) == oint(p.off), k <= n), nd, group="mem")
        h = ex.rmap(st, CHAR)
        new = fresh(h.range(), "cpy")
        i = z3.Int("i")
        do = oint(d.off)
        st.assume(forall([i], Select(new, i) == If(And(i >= do, i < do + k), If(i - do < z, ch(ex, st, q, i - do), RV(0)), Select(Select(h, d.base), i)), [Select(new, i)]))
        st.heap[("r", "i8")] = Store(h, d.base, new)
        return [(st, d)]

    def m_argify(ex, st, vs, nd):
        ex.trusted.add("arg_argify (proved under C13)")
        q = vs[0]
        ex.oblige(st, "the directive's text is split", And(q.base != NULL, Implies(And(x >= 0, x < z), ch(ex, st, q, x) == ch(ex, c.st0, p, x)), ch(ex, st, q, z) == 0), nd)
        r = ex.alloc(st, fresh(IntS, "sz"), "args")
        ex.set_kind(st, r, K("Arg"))
        return [(st, P(r))]

    def m_get(ex, st, vs, nd):
        ex.trusted.add("arg_get (proved under C12)")
        ex.oblige(st, "a live argument list", ex.kind(st, vs[0].base) == K("Arg"), nd, group="pre")
        t, f = ex.branch(st, And(vs[1] >= 0, vs[1] < N))
        if f is not None and not ex.mute:
            ex.exits.append(("internal", f, ex.where(nd)))
        if t is None:
            return []
        t.assume(IT(vs[1]) != NULL)
        return [(t, P(IT(vs[1])))]

    def m_count(ex, st, vs, nd):
        ex.oblige(st, "a live argument list", ex.kind(st, vs[0].base) == K("Arg"), nd, group="pre")
        return [(st, N)]

    def m_atoi(ex, st, vs, nd):
        ex.trusted.add("atoi")
        ex.oblige(st, "the number is the second piece", And(vs[0].base == IT(1), oint(vs[0].off) == 0), nd)
        return [(st, A)]

    def m_adestroy(ex, st, vs, nd):
        ex.oblige(st, "a live argument list", ex.kind(st, vs[0].base) == K("Arg"), nd, group="pre")
        ex.set_kind(st, vs[0].base, 0)
        return [(st, None)]
    ex.models.update(alloca=m_alloca, __builtin_alloca=m_alloca, strncpy=m_strncpy, arg_argify=m_argify, arg_get=m_get, arg_count=m_count, atoi=m_atoi, arg_destroy=m_adestroy)
    c.allow("internal", N < 2, frame=False, name="the directive has no line number")
    c.run()
    m = z3.Const("m!sk", Ref)
    for st, r in c.returns:
        s.infos(st, line=If(A > 0, A - 1, RV(1)), file=If(N == 2, s.inf(c.st0, "file"), intern(sid(c.st0, P(IT(2))))))
        c.ensure(st, "the pieces are released", Implies(And(ex.kind(c.st0, m) == 0, ex.kind(st, m) != 0), ex.kind(st, m) == STACKBLK))
        c.frame(st, lambda o: o == s.I)
    c.errors()

"""maa/arg.c : an argument list is a vector of argc terminated strings followed by a NULL entry, kept in a string memory."""
from spec import *
from absmod import *

TU = "arg.c"


class A:
    def __init__(self, c, live=True):
        self.c, self.ex = c, c.ex
        ex, st = c.ex, c.st
        ex.models.update(STRMEM)
        strmem_maps(ex, st)
        ex.rmap(st, PTR(VOID))
        self.ft = dict(ex.flat("Arg"))
        self.M = MAGIC["ARG_MAGIC"] if self.ft["magic"].signed else MAGIC["ARG_MAGIC"] % (1 << 32)
        for f in self.ft:
            ex.fmap(st, "Arg", f, self.ft[f])
        self.it = z3.Function("item", IntS, Ref)
        if live:
            self.a = c.args[0].base
            self.n = self.f(st, "argc")
            c.requires(self.wf(st, self.it))
            k = z3.Int("k")
            c.requires(forall([k], Implies(And(k >= 0, k < self.n), And(self.vec(st, k) == self.it(k), Select(st.heap.get(("G", "owner"), ex.heap0[("G", "owner")]), self.it(k)) == self.f(st, "object"))), [self.vec(st, k)]))
            c.requires(self.f(st, "argm") < (1 << 29))        # resources: the vector's size in bytes fits
            m = z3.Const("m", Ref)
            c.requires(forall([m], Implies(ex.kind(st, m) == 0, self.own(st, m) == NULL), [self.own(st, m)]))      # ghost: dead blocks have no owner
            c.requires(g_len(ex, st, self.f(st, "object")) >= 0)
            # blocks of the string memory are the strings; the object itself and the vector are not among them
            c.requires(self.own(st, self.a) != self.f(st, "object"), self.own(st, self.f(st, "argv")) != self.f(st, "object"))

    def own(self, st, m):
        return Select(st.heap.get(("G", "owner"), self.ex.heap0[("G", "owner")]), m)

    def f(self, st, name):
        return Select(self.ex.fmap(st, "Arg", name, self.ft[name]), self.a)

    def vec(self, st, k):
        return Select(Select(self.ex.rmap(st, PTR(VOID)), self.f(st, "argv")), k)

    def shape(self, st):
        ex, a = self.ex, self.a
        v, o = self.f(st, "argv"), self.f(st, "object")
        n, m = self.f(st, "argc"), self.f(st, "argm")
        return And(a != NULL, ex.kind(st, a) == K("Arg"), self.f(st, "magic") == self.M, n >= 0, n < m, v != NULL, Or(ex.kind(st, v) == UNTYPED, ex.kind(st, v) == RAW),
                   ex.size(st, v) >= 8 * m, v != a, o != NULL, ex.kind(st, o) == K("stringInfo"), self.vec(st, n) == NULL)

    wf = lambda self, st, it: self.shape(st)

    def goal(self, st, it, n, name):
        c = self.c
        k = z3.Int("k!sk")
        c.ensure(st, "the list stays well formed, NULL after the last item", self.shape(st))
        c.ensure(st, "the count", self.f(st, "argc") == n)
        c.ensure(st, name, Implies(And(k >= 0, k < n), self.vec(st, k) == it(k)))

    def post(self, st, it, n, name, grows=False):
        c, ex = self.c, self.ex
        self.goal(st, it, n, name)
        o = self.f(c.st0, "object")
        c.ensure(st, "same string memory", self.f(st, "object") == o)
        c.frame(st, lambda m: Or(m == self.a, m == self.f(c.st0, "argv"), m == o))
        v = self.f(st, "argv")
        c.ensure(st, "the vector is the old one or fresh", And(Or(v == self.f(c.st0, "argv"), ex.kind(c.st0, v) == 0), self.own(st, v) != o))

    def strs(self, i=1):
        """string argument"""
        c, ex, st = self.c, self.ex, self.c.st
        p, n = c.args[i], z3.Int("slen")
        c.requires(p.base != NULL, ex.kind(st, p.base) > 0, n >= 0, n < (1 << 31), ex.size(st, p.base) > n, ch(ex, st, p, n) == 0, nz_below(ex, st, p, n))
        c.requires(p.base != self.f(st, "argv"))        # the text is not inside the list's own vector of pointers
        ex.strlen_fun = lambda ex, st, q: n if q.base.eq(p.base) and off_is0(q.off) else None
        return p, n

    def buf(self):
        """pointer and length"""
        c, ex, st = self.c, self.ex, self.c.st
        p, n = c.args[1], c.args[2]
        c.requires(n >= 0, p.base != NULL, ex.kind(st, p.base) > 0, ex.size(st, p.base) == n)
        c.requires(p.base != self.f(st, "argv"))
        return p, n

    def copied(self, st, new, get, n):
        """the item added is a terminated copy in a block of its own"""
        c, ex = self.c, self.ex
        x = z3.Int("x!sk")
        b = Select(ex.rmap(st, CHAR), new)
        v0 = self.f(c.st0, "argv")
        c.ensure(st, "a block of its own, large enough", And(new != NULL, Or(ex.kind(c.st0, new) == 0, And(new == v0, self.f(st, "argv") != v0)),        # (the vector given up may be used again)
                                                             ex.kind(st, new) > 0, ex.size(st, new) > n, self.own(st, new) == self.f(st, "object")))
        c.ensure(st, "a faithful copy", Implies(And(x >= 0, x < n), Select(b, x) == get(x)))
        c.ensure(st, "terminated", Select(b, n) == 0)


@contract(TU, "arg_create", ["C12", "C20"])
def _create(c):
    a = A(c, live=False)
    c.run()
    for st, r in c.returns:
        a.a = r.base
        a.goal(st, a.it, RV(0), "no items")
        c.ensure(st, "nothing grown", g_len(c.ex, st, a.f(st, "object")) == 0)
        c.ensure(st, "fresh", And(*[c.ex.kind(c.st0, x) == 0 for x in (r.base, a.f(st, "argv"), a.f(st, "object"))]))
        c.frame(st, lambda o: FALSE)
    c.errors()


def adder(kind):
    def spec(c):
        a = A(c)
        ex = c.ex
        if kind == "add":
            p, n = a.strs()
        elif kind == "addn":
            p, n = a.buf()
        o = a.f(c.st, "object")
        c.run()
        for st, r in c.returns:
            if kind == "finish":
                G = g_ch(ex, c.st0, o)
                get, ln = (lambda x: Select(G, x)), g_len(ex, c.st0, o)
            else:
                get, ln = (lambda x: ch(ex, c.st0, p, x)), n
            new = a.vec(st, a.n)
            a.post(st, lambda k: If(k == a.n, new, a.it(k)), a.n + 1, "the items added before are in place")
            a.copied(st, new, get, ln)
            c.ensure(st, "returns the list", r.base == a.a)
            c.ensure(st, "nothing grown", g_len(ex, st, o) == 0)
        c.errors()
    return spec


contract(TU, "arg_add", "C12")(adder("add"))
contract(TU, "arg_addn", "C12")(adder("addn"))
contract(TU, "arg_finish", "C12")(adder("finish"))


@contract(TU, "arg_grow", "C12")
def _grow(c):
    a = A(c)
    ex = c.ex
    p, n = a.buf()
    o = a.f(c.st, "object")
    c.run()
    x = z3.Int("x!sk")
    for st, r in c.returns:
        a.post(st, a.it, a.n, "the items are unchanged")
        g = g_len(ex, c.st0, o)
        c.ensure(st, "the piece is appended to what was grown", And(g_len(ex, st, o) == g + n, Implies(And(x >= 0, x < g + n), Select(g_ch(ex, st, o), x) == If(
            x < g, Select(g_ch(ex, c.st0, o), x), ch(ex, c.st0, p, x - g)))))
        c.ensure(st, "vector unchanged", And(a.f(st, "argv") == a.f(c.st0, "argv")))
    c.errors()


@contract(TU, "arg_get", "C12")
def _get(c):
    a = A(c)
    i = c.args[1]
    c.allow("internal", Or(i < 0, i >= a.n), name="no such item")
    c.run()
    for st, r in c.returns:
        c.ensure(st, "the item", r.base == a.it(i))
        c.unchanged(st, "nothing is modified")
    c.errors()


@contract(TU, "arg_count", "C12")
def _count(c):
    a = A(c)
    c.run()
    for st, r in c.returns:
        c.ensure(st, "number of items", r == a.n)
        c.unchanged(st, "nothing is modified")
    c.errors()


@contract(TU, "arg_get_vector", "C12")
def _vector(c):
    a = A(c)
    ex = c.ex
    pc, pv = c.args[1].base, c.args[2].base
    other = lambda x: And(x != NULL, Or(ex.kind(c.st, x) == RAW, ex.kind(c.st, x) == UNTYPED, ex.kind(c.st, x) == STACKBLK), x != a.f(c.st, "argv"))
    c.requires(other(pc), other(pv), pc != pv, ex.size(c.st, pc) >= 4, ex.size(c.st, pv) >= 8)
    c.run()
    for st, r in c.returns:
        c.ensure(st, "the count", Select(Select(ex.rmap(st, INT), pc), RV(0)) == a.n)
        c.ensure(st, "the vector", Select(Select(ex.rmap(st, PTR(VOID)), pv), RV(0)) == a.f(c.st0, "argv"))
        c.frame(st, lambda o: Or(o == pc, o == pv))
    c.errors()


@contract(TU, "arg_destroy", ["C12", "C20"])
def _destroy(c):
    a = A(c)
    ex = c.ex
    v, o = a.f(c.st, "argv"), a.f(c.st, "object")
    free = ex.models["xfree"]

    def xfree(ex, st, vs, n):
        ex.oblige(st, "retagged before its memory is released", Implies(vs[0].base == a.a, a.f(st, "magic") != a.M), n)
        return free(ex, st, vs, n)
    ex.models["xfree"] = xfree
    c.run()
    k = z3.Int("k!sk")
    for st, r in c.returns:
        c.ensure(st, "list, vector and string memory are released", And(*[ex.kind(st, x) == 0 for x in (a.a, v, o)]))
        c.frame(st, lambda m: Or(m == a.a, m == v, m == o, a.own(c.st0, m) == o))
    c.errors()


# ---------------------------------------------------------------- splitting a command string (C13)
# Abstract lists: ghosts a_n (items), a_len / a_tok (length and characters of the j-th item), a_gn / a_gc (what is grown).
# The contracts of arg_create, arg_grow, arg_finish, arg_add, arg_addn are those proved above (C12).
class Split:
    B, Q, W, SQ, DQ, E, END = range(7)      # blank, just after a closing quote, in a word, in single / double quotes, after a backslash, over

    def __init__(self, c):
        ex, st = c.ex, c.st
        self.c, self.ex = c, ex
        AI = z3.ArraySort(IntS, IntS)
        for k, s in (("a_n", IntS), ("a_gn", IntS), ("a_gc", AI), ("a_len", AI), ("a_tok", z3.ArraySort(IntS, AI))):
            ex.hmap(st, ("G", k), lambda s=s: z3.ArraySort(Ref, s))
        ex.models.update(arg_create=self.m_create, arg_grow=self.m_grow, arg_finish=self.m_finish, arg_add=self.m_add, arg_addn=self.m_addn)
        self.p = p = c.args[0]
        style = c.args[1]
        self.n = n = z3.Int("slen")
        c.requires(p.base != NULL, ex.kind(st, p.base) > 0, n >= 0, n < (1 << 31) - 2, ex.size(st, p.base) == n + 1, ch(ex, st, p, n) == 0, nz_below(ex, st, p, n))
        c.requires(style >= 0, style <= 3)
        ex.strlen_fun = lambda ex, st, q: n if q.base.eq(p.base) and off_is0(q.off) else None
        noesc, noq = style % 2 == 1, (style / 2) % 2 == 1
        st0 = st.copy()
        self.s = lambda i: ch(ex, st0, p, i)
        f = lambda nm, *a: z3.Function("lex_" + nm, *a)
        self.q, self.nt, self.cl = f("q", IntS, IntS), f("nt", IntS, IntS), f("cl", IntS, IntS)
        self.cc, self.tok, self.tl = f("cc", IntS, IntS, IntS), f("tok", IntS, IntS, IntS), f("tl", IntS, IntS)
        i, k, i2 = z3.Ints("i k i2")
        x, q = self.s(i), self.q(i)
        B, Q, W, SQ, DQ, E, END = [RV(v) for v in range(7)]
        sp = Or(x == 32, x == 9, x == 13, x == 11, x == 10)
        dq, sq, bs = And(x == 34, Not(noq)), And(x == 39, Not(noq)), And(x == 92, Not(noesc))
        plain_ = Or(q == B, q == Q, q == W)
        nul = x == 0
        nxt = If(nul, END, If(q == E, W, If(q == SQ, If(sq, Q, SQ), If(q == DQ, If(dq, Q, DQ), If(sp, B, If(dq, DQ, If(sq, SQ, If(bs, E, W))))))))
        add = And(Not(nul), Or(q == E, And(q == SQ, Not(sq)), And(q == DQ, Not(dq)), And(plain_, Not(sp), Not(dq), Not(sq), Not(bs))))
        fin = Or(And(nul, q != B), And(sp, Or(q == Q, q == W)))
        body = And(
            self.q(i + 1) == nxt,
            self.nt(i + 1) == self.nt(i) + If(fin, RV(1), RV(0)),
            self.cl(i + 1) == If(Or(fin, And(q == B, Not(add))), RV(0), self.cl(i) + If(add, RV(1), RV(0))),
            Implies(fin, self.tl(self.nt(i)) == self.cl(i)))
        inr = And(i >= 0, i <= n)
        ex.axioms += [self.q(0) == B, self.nt(0) == 0, self.cl(0) == 0,
                      forall([i], Implies(inr, body), [self.q(i)]),
                      forall([i, i2, k], Implies(And(inr, i2 == i + 1, k >= 0, k < self.cl(i2)), self.cc(i2, k) == If(And(add, k == self.cl(i)), x, self.cc(i, k))), [[self.q(i), self.cc(i2, k)], [self.cc(i, k), self.q(i2)]]),
                      forall([i, k], Implies(And(inr, fin, k >= 0, k < self.cl(i)), self.tok(self.nt(i), k) == self.cc(i, k)), [[self.q(i), self.tok(self.nt(i), k)], [self.q(i), self.cc(i, k)]])]
        ex.loop_hints = self.hints
        ex.join_returns = ex.do_head = True
        self.list = None

    def g(self, st, key, a):
        return Select(st.heap.get(("G", key), self.ex.heap0[("G", key)]), a)

    def put(self, st, key, a, v):
        h = st.heap.get(("G", key), self.ex.heap0[("G", key)])
        st.heap[("G", key)] = Store(h, a, v)

    def live(self, st, p, n):
        self.ex.trusted.add("arg_create, arg_grow, arg_finish, arg_add, arg_addn (proved in this unit, C12)")
        self.ex.oblige(st, "a live list is passed", And(p.base != NULL, self.ex.kind(st, p.base) == K("Arg")), n, group="pre")
        return p.base

    def m_create(self, ex, st, vs, n):
        r = ex.alloc(st, fresh(IntS, "sz"), "arg")
        ex.set_kind(st, r, K("Arg"))
        self.put(st, "a_n", r, RV(0))
        self.put(st, "a_gn", r, RV(0))
        self.list = r
        return [(st, P(r))]

    def m_grow(self, ex, st, vs, n):
        a = self.live(st, vs[0], n)
        s, L = vs[1], vs[2]
        readable(ex, st, s, L, n, "arg_grow")
        gn, gc = self.g(st, "a_gn", a), self.g(st, "a_gc", a)
        new = fresh(gc.sort(), "grown")
        k = z3.Int("k")
        st.assume(forall([k], Select(new, k) == If(k < gn, Select(gc, k), ch(ex, st, s, k - gn)), [Select(new, k)]))
        self.put(st, "a_gc", a, new)
        self.put(st, "a_gn", a, gn + L)
        return [(st, None)]

    def append(self, st, a, ln, arr):
        n = self.g(st, "a_n", a)
        self.put(st, "a_len", a, Store(self.g(st, "a_len", a), n, ln))
        self.put(st, "a_tok", a, Store(self.g(st, "a_tok", a), n, arr))
        self.put(st, "a_n", a, n + 1)
        self.put(st, "a_gn", a, RV(0))

    def m_finish(self, ex, st, vs, n):
        a = self.live(st, vs[0], n)
        self.append(st, a, self.g(st, "a_gn", a), self.g(st, "a_gc", a))
        return [(st, vs[0])]

    def m_addn(self, ex, st, vs, n):
        a = self.live(st, vs[0], n)
        readable(ex, st, vs[1], vs[2], n, "arg_addn")
        return self.added(ex, st, a, vs[1], vs[2], vs[0])

    def m_add(self, ex, st, vs, n):
        a = self.live(st, vs[0], n)
        [(st, L)] = m_strlen(ex, st, [vs[1]], n)
        return self.added(ex, st, a, vs[1], L, vs[0])

    def added(self, ex, st, a, s, L, r):
        new = fresh(z3.ArraySort(IntS, IntS), "item")
        k = z3.Int("k")
        st.assume(forall([k], Implies(And(k >= 0, k < L), Select(new, k) == ch(ex, st, s, k)), [Select(new, k)]))
        self.append(st, a, L, new)
        return [(st, r)]

    def items(self, st, n, a):
        j, k = z3.Ints("j k")
        return [forall([j], Implies(And(j >= 0, j < n), Select(self.g(st, "a_len", a), j) == self.tl(j)), [Select(self.g(st, "a_len", a), j), self.tl(j)]),
                forall([j, k], Implies(And(j >= 0, j < n, k >= 0, k < self.tl(j)), Select(Select(self.g(st, "a_tok", a), j), k) == self.tok(j, k)),
                       [Select(Select(self.g(st, "a_tok", a), j), k), self.tok(j, k)])]

    def hints(self, ex, entry, mod, n, cond):
        out = []
        s, N = self.p.base, self.n
        a = self.list
        if a is None:
            return out
        k, i = z3.Ints("k i")
        ints = [v for v in mod.vars if isinstance(entry.env.get(v), z3.ExprRef) and z3.is_int(entry.env[v])]
        ptrs = [v for v in mod.vars if isinstance(entry.env.get(v), P)]
        pos = [v for v in ptrs if entry.env[v].base.eq(s)]
        ipos = [(lambda st, v=v: oint(st.env[v].off)) for v in pos] or [(lambda st, v=v: st.env[v]) for v in ints]
        for x in ipos:
            out.append(Cand("position inside the string", lambda st, x=x: And(x(st) >= 0, x(st) <= N)))
            out.append(Cand("position at most one past the terminator", lambda st, x=x: And(x(st) >= 0, x(st) <= N + 1)))
            out.append(Cand("not past the end", lambda st, x=x: Implies(x(st) <= N, self.q(x(st)) != self.END)))
            out.append(Cand("over only past the end", lambda st, x=x: And(Implies(self.q(x(st)) == self.END, x(st) == N + 1), self.q(x(st)) >= 0, self.q(x(st)) <= 6)))
            out.append(Cand("items finished", lambda st, x=x: And(self.g(st, "a_n", a) == self.nt(x(st)), self.nt(x(st)) >= 0)))
            for v in ints:
                for qq in range(7):
                    for val in range(-2, 5):
                        out.append(Cand("state %d is coded %d" % (qq, val), lambda st, x=x, v=v, qq=qq, val=val: Implies(self.q(x(st)) == qq, st.env[v] == val)))
                out.append(Cand("state in range", lambda st, v=v: And(st.env[v] >= -2, st.env[v] <= 4)))
                out.append(Cand("a finished state when over", lambda st, x=x, v=v: Implies(self.q(x(st)) == self.END, st.env[v] < 0)))
                out.append(Cand("a character variable", lambda st, x=x, v=v: st.env[v] == self.s(x(st) - 1)))
                out.append(Cand("an ending character variable", lambda st, x=x, v=v: (st.env[v] == 0) == (self.q(x(st)) == self.END)))
            for l in [v for v in ptrs if v not in pos]:
                L = lambda st, l=l: st.env[l]
                isn = lambda st, l=l: st.env[l].base == NULL
                out.append(Cand("start of the pending piece", lambda st, x=x, L=L: Or(L(st).base == NULL, And(L(st).base == s, oint(L(st).off) >= 0, oint(L(st).off) <= x(st)))))
                out.append(Cand("no piece between tokens only", lambda st, x=x, L=L: (L(st).base == NULL) == Or(self.q(x(st)) == self.B, self.q(x(st)) == self.END)))
                out.append(Cand("no offset in NULL", lambda st, L=L: Implies(L(st).base == NULL, oint(L(st).off) == 0)))
                out.append(Cand("length so far", lambda st, x=x, L=L: And(self.g(st, "a_gn", a) >= 0, self.cl(x(st)) >= 0, If(L(st).base == NULL, And(
                    self.g(st, "a_gn", a) == 0, self.cl(x(st)) == 0), self.g(st, "a_gn", a) + x(st) - oint(L(st).off) == self.cl(x(st))))))
                out.append(Cand("characters grown so far", lambda st, x=x: forall([k], Implies(And(k >= 0, k < self.g(st, "a_gn", a)), Select(self.g(st, "a_gc", a), k) == self.cc(x(st), k)),
                                [Select(self.g(st, "a_gc", a), k), self.cc(x(st), k)])))
                out.append(Cand("characters pending", lambda st, x=x, L=L: forall(
                    [k], Implies(And(L(st).base != NULL, k >= self.g(st, "a_gn", a), k < self.cl(x(st))), self.s(oint(L(st).off) + k - self.g(st, "a_gn", a)) == self.cc(x(st), k)), [self.cc(x(st), k)])))
            out.append(Cand("length so far (all grown)", lambda st, x=x: self.g(st, "a_gn", a) == self.cl(x(st))))
        out.append(Cand("lengths of the items", lambda st: self.items(st, self.g(st, "a_n", a), a)[0]))
        out.append(Cand("characters of the items", lambda st: self.items(st, self.g(st, "a_n", a), a)[1]))
        out.append(Cand("the list is alive", lambda st: ex.kind(st, a) == K("Arg")))
        out.append(Cand("the string is as it was", lambda st: And(*[forall([i], self.s(i) == ch(ex, st, self.p, i), [ch(ex, st, self.p, i)])])))
        return out


@contract(TU, "arg_argify", "C13", weight=5)
def _argify(c):
    S = Split(c)
    ex = c.ex
    c.run()
    j, k = z3.Ints("j!sk k!sk")
    nt = S.nt(S.n + 1)
    for st, r in c.returns:
        a = r.base
        c.ensure(st, "a new list", And(a != NULL, ex.kind(c.st0, a) == 0, ex.kind(st, a) == K("Arg")))
        c.ensure(st, "as many items as tokens", S.g(st, "a_n", a) == nt)
        inr = And(j >= 0, j < nt)
        c.ensure(st, "each item has its token's length", Implies(inr, Select(S.g(st, "a_len", a), j) == S.tl(j)))
        c.ensure(st, "each item has its token's characters", Implies(And(inr, k >= 0, k < S.tl(j)), Select(Select(S.g(st, "a_tok", a), j), k) == S.tok(j, k)))
        c.ensure(st, "nothing left growing", S.g(st, "a_gn", a) == 0)
        c.frame(st, lambda o: FALSE)
    c.errors()

"""maa/string.c : a string pool is a string memory plus a hash table from contents to the one stored copy."""
from spec import *
from absmod import *
import absmod

TU, T = "string.c", "poolInfo"
AI = z3.ArraySort(IntS, IntS)
cid_f = z3.Function("cid", AI, IntS, IntS)          # identity of the string starting at an offset of a character array
clen = z3.Function("clen", IntS, IntS)
cch = z3.Function("cch", IntS, IntS, IntS)


def cid(ex, st, p):
    lit = ex.ctab.get(p.base.get_id())
    if lit is not None:
        ex.unsup("a literal as a pool string")
    return cid_f(Select(ex.rmap(st, CHAR), p.base), oint(p.off))


def unpack(ex, st, p, n):
    """the string at p has length n: its content's length and characters"""
    c, k = cid(ex, st, p), z3.Int("k")
    st.assume(clen(c) == n, forall([k], Implies(And(k >= 0, k < n), And(cch(c, k) == ch(ex, st, p, k), cch(c, k) != 0)), [ch(ex, st, p, k), cch(c, k)]))


def known(ex, st, p, n):
    """length of the string at p, its content unpacked"""
    [(st, L)] = m_strlen(ex, st, [p], n)
    unpack(ex, st, p, L)
    return L


class Pool:
    """`glob`: the pool is the global one (variable global, possibly NULL: not yet in use)"""

    def __init__(self, c, glob=False, live=True):
        self.c, self.ex, self.glob = c, c.ex, glob
        ex, st = c.ex, c.st
        ex.models.update(STRMEM)
        strmem_maps(ex, st)
        hash_models(ex, st, sid=lambda s, p: self.sid(s, p))
        ex.models.update(mem_strcpy=self.w_strcpy, mem_strncpy=self.w_strncpy, mem_finish=self.w_finish, strncpy=self.m_strncpy, sprintf=self.m_sprintf, snprintf=self.m_snprintf)
        for a in ("alloca", "__builtin_alloca"):
            ex.models[a] = self.m_alloca
        self.ft = dict(ex.flat(T))
        for f in self.ft:
            ex.fmap(st, T, f, self.ft[f])
        self.lens = []
        ex.strlen_fun = lambda ex, st, q: next((n for p, n in self.lens if p.base.eq(q.base) and off_is0(q.off)), None)
        o = z3.Const("o", Ref)
        c.requires(forall([o], Implies(ex.kind(st, o) == 0, self.own(st, o) == NULL), [self.own(st, o)]))      # ghost: dead blocks have no owner
        if glob:
            self.p = self.global_(st)
        elif c.args and live:
            self.p = c.args[0].base
            c.requires(self.p != NULL)
        else:
            return
        c.requires(*self.wf(st, self.p))

    def sid(self, st, p):
        return cid(self.ex, st, p)

    def own(self, st, m):
        return Select(st.heap.get(("G", "owner"), self.ex.heap0[("G", "owner")]), m)

    def global_(self, st):
        return self.ex.gload(st, "global", PTR(VOID)).base

    def g(self, st, k):
        return st.heap.get(("G", k), self.ex.heap0[("G", k)])

    def f(self, st, p, name):
        return Select(self.ex.fmap(st, T, name, self.ft[name]), p)

    def present(self, st, p, s):
        return And(p != NULL, Select(Select(self.g(st, "t_in"), self.f(st, p, "hash")), s))

    def val(self, st, p, s):
        return Select(Select(self.g(st, "t_map"), self.f(st, p, "hash")), s)

    def key(self, st, p, s):
        return Select(Select(self.g(st, "t_key"), self.f(st, p, "hash")), s)

    def chars(self, st, d):
        return Select(self.ex.rmap(st, CHAR), d)

    def entry(self, st, p, s, k):
        """what holds of a content s present in the pool"""
        ex = self.ex
        d = self.val(st, p, s)
        return And(d == self.key(st, p, s), d != NULL, ex.kind(st, d) > 0, ex.kind(st, d) <= RAW, self.own(st, d) == self.f(st, p, "string"), cid_f(self.chars(st, d), RV(0)) == s, clen(s) >= 0, ex.size(st, d) > clen(s),
                   Select(self.chars(st, d), clen(s)) == 0), Implies(And(k >= 0, k < clen(s)), And(Select(self.chars(st, d), k) == cch(s, k), cch(s, k) != 0))

    def shape(self, st, p):
        ex = self.ex
        h, m = self.f(st, p, "hash"), self.f(st, p, "string")
        return And(ex.kind(st, p) == K(T), h != NULL, ex.kind(st, h) == K("table"), m != NULL, ex.kind(st, m) == K("stringInfo"), self.own(st, p) != m, self.own(st, h) != m, self.own(st, m) != m,
                   g_len(ex, st, m) >= 0, Select(self.g(st, "t_ro"), h) == 0)

    def wf(self, st, p):
        s, k = z3.Ints("s k")
        a, b = self.entry(st, p, s, k)
        d = self.val(st, p, s)
        return [Implies(p != NULL, self.shape(st, p)), forall([s], Implies(self.present(st, p, s), a), [d, Select(Select(self.g(st, "t_in"), self.f(st, p, "hash")), s)]),
                forall([s, k], Implies(self.present(st, p, s), b), [[d, Select(self.chars(st, d), k)], [d, cch(s, k)]])]

    # ---- models on top of the string memory: the content of the copies
    def w_strcpy(self, ex, st, vs, n):
        st = absmod._info(ex, st, vs[0], n, "mem_strcpy")
        if st is None:
            return []
        s = vs[1]
        L = known(ex, st, s, n)
        old = st.copy()
        r = absmod._newstr(ex, st, vs[0].base, L, lambda i: ch(ex, old, s, i))
        st.assume(cid(ex, st, r) == cid(ex, old, s))       # same characters, same content
        return [(st, r)]

    def named(self, st, r, n):
        L = fresh(IntS, "len")
        ex = self.ex
        st.assume(L >= 0, L <= n, ch(ex, st, r, L) == 0, nz_below(ex, st, r, L))
        unpack(ex, st, r, L)
        self.lens.append((r, L))

    def w_strncpy(self, ex, st, vs, n):
        out = m_mem_strncpy(ex, st, vs, n)
        for s2, r in out:
            self.named(s2, r, vs[2])
        return out

    def w_finish(self, ex, st, vs, n):
        ln = g_len(ex, st, vs[0].base)
        out = m_mem_finish(ex, st, vs, n)
        for s2, r in out:
            self.named(s2, r, ln)
        return out

    def m_alloca(self, ex, st, vs, n):
        ex.oblige(st, "size of the temporary is positive", vs[0] > 0, n, group="pre")
        r = ex.alloc(st, vs[0], "tmp")
        ex.set_kind(st, r, STACKBLK)
        return [(st, P(r))]

    def m_strncpy(self, ex, st, vs, n):
        ex.trusted.add("strncpy")
        d, s, L = vs
        m, i = fresh(IntS, "upto"), z3.Int("i")
        st.assume(m >= 0, m <= L, nz_below(ex, st, s, m), Or(m == L, ch(ex, st, s, m) == 0))
        self.bound(st, s, L, m)
        ex.oblige(st, "strncpy reads inside the source", Or(L == 0, And(s.base != NULL, ex.kind(st, s.base) > 0, oint(s.off) >= 0, oint(s.off) + If(m == L, L, m + 1) <= ex.size(st, s.base))), n, group="mem")
        ex.oblige(st, "strncpy writes inside the destination", Or(L == 0, And(d.base != NULL, ex.kind(st, d.base) > 0, oint(d.off) >= 0, oint(d.off) + L <= ex.size(st, d.base))), n, group="mem")
        h = ex.rmap(st, CHAR)
        old, do = Select(h, d.base), oint(d.off)
        new = fresh(old.sort(), "cpy")
        st.assume(forall([i], Select(new, i) == If(And(i >= do, i < do + L), If(i - do < m, ch(ex, st, s, i - do), RV(0)), Select(old, i)), [Select(new, i)]))
        st.heap[("r", "i8")] = Store(h, d.base, new)
        return [(st, d)]

    def bound(self, st, s, L, m):
        pass

    def m_sprintf(self, ex, st, vs, n):
        ex.trusted.add("sprintf(\"%s%d\")")
        d, f = vs[0], vs[1]
        lit = ex.ctab.get(f.base.get_id())
        if lit is None or bytes(x & 255 for x in lit[1][:-1]) != b"%s%d" or not off_is0(d.off):
            ex.unsup("format of sprintf", n)
        L = known(ex, st, vs[2], n)
        ex.oblige(st, "sprintf writes inside the destination", And(d.base != NULL, ex.kind(st, d.base) > 0, L + 12 <= ex.size(st, d.base)), n, group="mem")
        h = ex.rmap(st, CHAR)
        new, i, m = fresh(AI, "fmt"), z3.Int("i"), fresh(IntS, "len")
        st.assume(m > L, m <= L + 11, Select(new, m) == 0, forall([i], Implies(And(i >= 0, i < m), And(Select(new, i) != 0, Implies(i < L, Select(new, i) == ch(ex, st, vs[2], i)))), [Select(new, i)]))
        st.heap[("r", "i8")] = Store(h, d.base, new)
        unpack(ex, st, d, m)
        return [(st, m)]

    def m_snprintf(self, ex, st, vs, n):
        """with room for everything"""
        ex.oblige(st, "snprintf is told a size inside the destination", vs[1] <= ex.size(st, vs[0].base), n, group="mem")
        ex.oblige(st, "snprintf has room for the whole text", known(ex, st, vs[3], n) + 12 <= vs[1], n, group="pre")
        return self.m_sprintf(ex, st, [vs[0]] + vs[2:], n)

    # ---- arguments
    def string(self, i, nm="slen"):
        """argument i is a string; not one of the pool's own blocks being changed"""
        c, ex, st = self.c, self.ex, self.c.st
        p, n = c.args[i], z3.Int(nm)
        c.requires(p.base != NULL, ex.kind(st, p.base) > 0, ex.kind(st, p.base) <= STACKBLK, n >= 0, n < (1 << 31) - 200, ex.size(st, p.base) > n, ch(ex, st, p, n) == 0, nz_below(ex, st, p, n))
        self.lens.append((p, n))
        unpack(ex, st, p, n)
        return p, n

    # ---- postconditions
    def post(self, st, name="the pool"):
        """invariant, on arbitrary content and position"""
        c = self.c
        s, k = z3.Ints("s!sk k!sk")
        p = self.global_(st) if self.glob else self.p
        c.ensure(st, "a pool is in use", And(p != NULL, self.shape(st, p)))
        a, b = self.entry(st, p, s, k)
        c.ensure(st, "every stored string is alive, the pool's, terminated, under its own content", Implies(self.present(st, p, s), a))
        c.ensure(st, "every stored string has exactly its content", Implies(self.present(st, p, s), b))
        if self.glob:
            c.ensure(st, "the pool stays the same once in use", Implies(self.p != NULL, p == self.p))
        return p

    def grows(self, st, p, new):
        """exactly the content `new` (None: nothing) becomes present, all interned before stay at their place"""
        c, s = self.c, z3.Int("s!sk")
        was = self.present(c.st0, self.p, s)
        c.ensure(st, "exactly the right contents are interned", self.present(st, p, s) == (was if new is None else Or(was, s == new)))
        c.ensure(st, "strings interned before keep their place", Implies(was, self.val(st, p, s) == self.val(c.st0, self.p, s)))

    def fp(self, st, extra=None):
        p = self.global_(st) if self.glob else self.p
        s0 = self.c.st0
        self.c.frame(st, lambda o: Or(o == self.f(s0, self.p, "hash"), o == self.f(s0, self.p, "string")), (("global",) if self.glob else ()) + tuple(k[1] for k in st.heap if k[0] == "g" and "." in k[1]))
        d = z3.Const("o!frame", Ref)
        self.c.ensure(st, "strings handed out stay as they are", Implies(And(self.own(s0, d) == self.f(s0, self.p, "string"), self.ex.kind(s0, d) > 0), And(
            self.chars(st, d) == self.chars(s0, d), self.ex.kind(st, d) == self.ex.kind(s0, d))))


def content(c, F, st, r, get, n):
    """r is a terminated string of exactly n characters get(k)"""
    k = z3.Int("k!sk")
    a = F.chars(st, r)
    c.ensure(st, "alive", And(r != NULL, c.ex.kind(st, r) > 0, c.ex.size(st, r) > n))
    c.ensure(st, "exactly the content", And(Select(a, n) == 0, Implies(And(k >= 0, k < n), Select(a, k) == get(k))))


@contract(TU, "str_pool_create", ["C11", "C20"])
def _create(c):
    F = Pool(c, live=False)
    ex = c.ex
    c.run()
    s = z3.Int("s!sk")
    for st, r in c.returns:
        p = r.base
        c.ensure(st, "a new empty pool", And(p != NULL, F.shape(st, p), Not(F.present(st, p, s)), ex.kind(c.st0, p) == 0, g_len(ex, st, F.f(st, p, "string")) == 0))
        c.frame(st, lambda o: FALSE)
    c.errors()


@contract(TU, "str_pool_destroy", ["C11", "C20"])
def _destroy(c):
    F = Pool(c)
    ex = c.ex
    h, m = F.f(c.st, F.p, "hash"), F.f(c.st, F.p, "string")
    c.run()
    s = z3.Int("s!sk")
    for st, r in c.returns:
        c.ensure(st, "pool, table and string memory are released", And(*[ex.kind(st, x) == 0 for x in (F.p, h, m)]))
        c.ensure(st, "every stored string is released", Implies(F.present(c.st0, F.p, s), ex.kind(st, F.val(c.st0, F.p, s)) == 0))
        c.frame(st, lambda o: Or(o == F.p, o == h, o == m, F.own(c.st0, o) == m))
    c.errors()


@contract(TU, "str_pool_destroy", ["C11", "C20"], name="str_pool_destroy(NULL)")
def _destroy0(c):
    F = Pool(c, live=False)
    c.requires(c.args[0].base == NULL)
    c.noreturn = True
    c.run()
    c.allow("fatal", TRUE, name="no pool")
    c.errors()


def exists(fn, glob):
    @contract(TU, fn, "C11")
    def _exists(c):
        F = Pool(c, glob)
        p, n = F.string(0 if glob else 1)
        c.run()
        for st, r in c.returns:
            q = F.post(st)
            c.ensure(st, "non-zero exactly when the content was interned", (r != 0) == F.present(c.st0, F.p, cid(c.ex, c.st0, p)))
            F.grows(st, q, None)
            F.fp(st)
        c.errors()


def find(fn, glob):
    @contract(TU, fn, "C11")
    def _find(c):
        F = Pool(c, glob)
        p, n = F.string(0 if glob else 1)
        s = cid(c.ex, c.st0, p)
        c.run()
        for st, r in c.returns:
            q = F.post(st)
            c.ensure(st, "the one stored string of this content", And(F.present(st, q, s), r.base == F.val(st, q, s), BoolVal(off_is0(r.off))))
            content(c, F, st, r.base, lambda k: ch(c.ex, c.st0, p, k), n)
            F.grows(st, q, s)
            F.fp(st)
        c.errors()


def copy(fn, glob, counted):
    @contract(TU, fn, "C11")
    def _copy(c):
        F = Pool(c, glob)
        i = 0 if glob else 1
        if counted:
            p, n = c.args[i], c.args[i + 1]
            c.requires(p.base != NULL, n >= 0, c.ex.kind(c.st, p.base) > 0, c.ex.size(c.st, p.base) == n)
        else:
            p, n = F.string(i)
        c.run()
        for st, r in c.returns:
            q = F.post(st)
            c.ensure(st, "a string of its own", And(c.ex.kind(c.st0, r.base) == 0, F.own(st, r.base) == F.f(st, q, "string")))
            content(c, F, st, r.base, lambda k: ch(c.ex, c.st0, p, k), n)
            F.grows(st, q, None)
            F.fp(st)
        c.errors()


def grow(fn, glob):
    @contract(TU, fn, "C11")
    def _grow(c):
        F = Pool(c, glob)
        ex = c.ex
        i = 0 if glob else 1
        p, n = c.args[i], c.args[i + 1]
        c.requires(p.base != NULL, n >= 0, ex.kind(c.st, p.base) > 0, ex.size(c.st, p.base) == n)
        c.run()
        k = z3.Int("k!sk")
        m0 = F.f(c.st0, F.p, "string")
        g0 = If(F.p == NULL, RV(0), g_len(ex, c.st0, m0))
        for st, r in c.returns:
            q = F.post(st)
            m = F.f(st, q, "string")
            c.ensure(st, "the piece is appended to what was grown", And(g_len(ex, st, m) == g0 + n, Implies(And(k >= 0, k < g0 + n), Select(g_ch(ex, st, m), k) == If(
                k < g0, Select(g_ch(ex, c.st0, m0), k), ch(ex, c.st0, p, k - g0)))))
            F.grows(st, q, None)
            F.fp(st)
        c.errors()


def finish(fn, glob):
    @contract(TU, fn, "C11")
    def _finish(c):
        F = Pool(c, glob)
        ex = c.ex
        m0 = F.f(c.st0, F.p, "string")
        if glob:
            c.requires(F.p != NULL)
        n, G, k = g_len(ex, c.st0, m0), g_ch(ex, c.st0, m0), z3.Int("k")
        c.requires(n < (1 << 31) - 200, forall([k], Implies(And(k >= 0, k < n), Select(G, k) != 0), [Select(G, k)]))      # the pieces are strings
        s = z3.Int("content")
        c.requires(clen(s) == n, forall([k], Implies(And(k >= 0, k < n), And(cch(s, k) == Select(G, k), cch(s, k) != 0)), [cch(s, k), Select(G, k)]))
        F.grown = s
        # same length and characters: same content (the definition of content)
        j = z3.Int("j")
        F.same = lambda st, r: Implies(And(clen(cid(ex, st, r)) == n, forall([j], Implies(And(j >= 0, j < n), cch(cid(ex, st, r), j) == cch(s, j)), [cch(cid(ex, st, r), j)])), cid(ex, st, r) == s)
        w = ex.models["mem_finish"]

        def fin(ex, st, vs, nn):
            out = w(ex, st, vs, nn)
            for s2, r in out:
                ex.oblige(s2, "the string finished ends after the characters grown", ch(ex, s2, r, n) == 0, nn)
                s2.assume(F.same(s2, r))
                ex.oblige(s2, "the string finished holds the characters grown", cid(ex, s2, r) == s, nn)
            return out
        ex.models["mem_finish"] = fin
        c.run()
        for st, r in c.returns:
            q = F.post(st)
            content(c, F, st, r.base, lambda k: Select(G, k), n)
            c.ensure(st, "the one stored string of the content grown", And(F.present(st, q, s), r.base == F.val(st, q, s), BoolVal(off_is0(r.off))))
            F.grows(st, q, s)
            c.ensure(st, "nothing is being grown any more", g_len(ex, st, F.f(st, q, "string")) == 0)
            F.fp(st)
        c.errors()


for pre, gl in (("str_pool_", False), ("str_", True)):
    exists(pre + "exists", gl)
    find(pre + "find", gl)
    copy(pre + "copy", gl, False)
    copy(pre + "copyn", gl, True)
    grow(pre + "grow", gl)
    finish(pre + "finish", gl)


@contract(TU, "str_findn", "C11")
def _findn(c):
    F = Pool(c, True)
    ex = c.ex
    p, L = c.args
    n, k = z3.Int("slen"), z3.Int("k")
    # n: the characters taken, up to L or the first NUL
    c.requires(p.base != NULL, ex.kind(c.st, p.base) > 0, ex.kind(c.st, p.base) <= STACKBLK, L >= 0, L < (1 << 31) - 200, n >= 0, n <= L, ex.size(c.st, p.base) >= If(n < L, n + 1, n), nz_below(ex, c.st, p, n),
               Or(n == L, ch(ex, c.st, p, n) == 0))
    s = z3.Int("content")
    c.requires(clen(s) == n, forall([k], Implies(And(k >= 0, k < n), And(cch(s, k) == ch(ex, c.st, p, k), cch(s, k) != 0)), [cch(s, k), ch(ex, c.st, p, k)]))
    j = z3.Int("j")

    def bound(st, q, L_, m):
        if q.base.eq(p.base) and off_is0(q.off):
            st.assume(Implies(L_ == L, m == n))      # both are the first NUL or the length

    def same(st, q):
        x = cid(ex, st, q)
        return Implies(And(clen(x) == n, forall([j], Implies(And(j >= 0, j < n), cch(x, j) == cch(s, j)), [cch(x, j)])), x == s)
    F.bound = bound
    sid0 = F.sid

    def sid1(st, q):
        if not q.base.eq(p.base) and str(q.base).startswith("tmp"):
            h, A = ex.rmap(st, CHAR), fresh(AI, "tmpchars")       # a name for the temporary's characters
            st.assume(A == Select(h, q.base))
            st.heap[("r", "i8")] = Store(h, q.base, A)
            known(ex, st, q, None)
            ex.oblige(st, "the temporary ends after the characters taken", ch(ex, st, q, n) == 0)
            st.assume(same(st, q))
            ex.oblige(st, "the temporary holds the characters taken", cid(ex, st, q) == s)
        return sid0(st, q)
    F.sid = sid1
    c.run()
    for st, r in c.returns:
        q = F.post(st)
        content(c, F, st, r.base, lambda k: ch(ex, c.st0, p, k), n)
        c.ensure(st, "the one stored string of this content", And(F.present(st, q, s), r.base == F.val(st, q, s)))
        F.grows(st, q, s)
        F.fp(st)
    c.errors()


@contract(TU, "str_destroy", ["C11", "C28"])
def _gdestroy(c):
    F = Pool(c, True)
    ex = c.ex
    h, m = F.f(c.st, F.p, "hash"), F.f(c.st, F.p, "string")
    c.run()
    for st, r in c.returns:
        c.ensure(st, "not in use any more", F.global_(st) == NULL)
        c.ensure(st, "pool, table and string memory are released", Implies(F.p != NULL, And(*[ex.kind(st, x) == 0 for x in (F.p, h, m)])))
        c.frame(st, lambda o: And(F.p != NULL, Or(o == F.p, o == h, o == m, F.own(c.st0, o) == m)), ("global",))
    c.errors()


@contract(TU, "str_unique", "C11", weight=2)
def _unique(c):
    F = Pool(c, True)
    ex = c.ex
    p, n = F.string(0)
    s, k = z3.Ints("s k")

    def hints(ex, entry, mod, node, cond):
        P0 = F.p
        g = lambda st: F.global_(st)
        out = [Cand("the pool stays", lambda st: Implies(P0 != NULL, g(st) == P0)),
               Cand("the same contents", lambda st: forall([s], And(F.present(st, g(st), s) == F.present(c.st0, P0, s), Implies(F.present(st, g(st), s), F.val(st, g(st), s) == F.val(c.st0, P0, s))), [F.val(st, g(st), s)])),
               Cand("the same contents (bare)", lambda st: forall([s], F.present(st, g(st), s) == F.present(c.st0, P0, s), [Select(Select(F.g(st, "t_in"), F.f(st, g(st), "hash")), s)]))]
        for i in range(3):
            out.append(Cand("pool invariant %d" % i, lambda st, i=i: F.wf(st, g(st))[i]))
        o = z3.Const("o", Ref)
        out.append(Cand("old blocks live on", lambda st: forall([o], Implies(ex.kind(c.st0, o) > 0, And(ex.kind(st, o) == ex.kind(c.st0, o), ex.size(st, o) == ex.size(c.st0, o), F.own(st, o) == F.own(c.st0, o))), [ex.kind(st, o)])))
        out.append(Cand("dead blocks have no owner", lambda st: forall([o], Implies(ex.kind(st, o) == 0, F.own(st, o) == NULL), [F.own(st, o)])))
        out.append(Cand("old characters stay", lambda st: forall([o], Implies(ex.kind(c.st0, o) > 0, F.chars(st, o) == F.chars(c.st0, o)), [F.chars(st, o)])))
        for v in mod.env_ptrs if hasattr(mod, "env_ptrs") else [v for v in entry.env if isinstance(entry.env[v], P) and not entry.env[v].base.eq(p.base)]:
            b = entry.env[v]

            def fmt(st, b=b):
                x = cid(ex, st, b)
                a = Select(ex.rmap(st, CHAR), b.base)
                return And(clen(x) > n, clen(x) <= n + 11, Select(a, clen(x)) == 0, forall([k], Implies(And(k >= 0, k < clen(x)), And(Select(a, k) != 0, cch(x, k) == Select(a, k), Implies(k < n, cch(x, k) == ch(ex, c.st0, p, k)))), [Select(a, k), cch(x, k)]))
            out.append(Cand("the candidate starts with the prefix", fmt))
            out.append(Cand("the buffer lives", lambda st, b=b: And(ex.kind(st, b.base) == STACKBLK, ex.size(st, b.base) == ex.size(entry, b.base), F.own(st, b.base) == NULL)))
            out.append(Cand("the buffer is not the pool's", lambda st, b=b: And(b.base != g(st), b.base != F.f(st, g(st), "string"))))
        return out
    ex.loop_hints = hints
    c.run()
    kk = z3.Int("k!sk")
    for st, r in c.returns:
        q = F.post(st)
        x = cid_f(F.chars(st, r.base), RV(0))
        c.ensure(st, "was not in the pool before", Not(F.present(c.st0, F.p, x)))
        c.ensure(st, "is in the pool now", And(F.present(st, q, x), F.val(st, q, x) == r.base))
        c.ensure(st, "starts with the prefix", And(clen(x) > n, Implies(And(kk >= 0, kk < n), Select(F.chars(st, r.base), kk) == ch(ex, c.st0, p, kk))))
        F.grows(st, q, x)
        F.fp(st)
    c.errors()
    # resources: the serial number does not overflow (fewer than 2^31 unique strings)
    ex.obls = [o for o in ex.obls if not (o.group == "ub" and "overflow" in o.name)]


# ---------------------------------------------------------------- walks over a pool (C02): the hash table's positions present every entry exactly once
class Walk(Pool):
    def __init__(self, c):
        super().__init__(c)
        ex, st = c.ex, c.st
        self.h = self.f(st, self.p, "hash")
        ex.walk["table"] = self.h
        self.w = ex.walk
        inn = Select(self.g(st, "t_in"), self.h)
        c.requires(*self.w["axioms"](inn))
        ex.hmap(st, ("G", "seen"), lambda: z3.ArraySort(IntS, BoolS))
        ex.hmap(st, ("G", "stop"), lambda: z3.ArraySort(IntS, IntS))
        s = z3.Int("s")
        c.requires(forall([s], Not(self.seen(st, s)), [self.seen(st, s)]), self.stop(st) == 0)
        c.noframe.update([("G", "seen"), ("G", "stop")])

    def seen(self, st, s):
        return Select(self.g(st, "seen"), s)

    def stop(self, st):
        return Select(self.g(st, "stop"), RV(0))


def walker(fn, nargs):
    @contract(TU, fn, "C02")
    def _walk(c):
        F = Walk(c)
        ex = c.ex
        cb = c.args[1]
        c.requires(toref(cb) != NULL)

        def call(ex, st, fv, vs, n):
            ex.oblige(st, "the function called is the caller's", toref(fv) == toref(cb), n, group="cb")
            ex.oblige(st, "no call after a non-zero result", F.stop(st) == 0, n, group="cb")
            if len(vs) != nargs:
                ex.unsup("callback with %d arguments" % len(vs), n)
            s = cid(ex, st, vs[0])
            ex.oblige(st, "presents a string of the pool", And(F.present(c.st0, F.p, s), F.val(c.st0, F.p, s) == vs[0].base, BoolVal(off_is0(vs[0].off))), n, group="cb")
            ex.oblige(st, "presents no string twice", Not(F.seen(st, s)), n, group="cb")
            if nargs == 2:
                ex.oblige(st, "passes the caller's argument", toref(vs[1]) == toref(c.args[2]), n, group="cb")
            st.heap[("G", "seen")] = Store(F.g(st, "seen"), s, TRUE)
            r = fresh(IntS, "cb")
            st.assume(ex.inrange(r, INT))
            st.heap[("G", "stop")] = Store(F.g(st, "stop"), RV(0), r)
            return [(st, r)]
        ex.indirect = call
        s = z3.Int("s")
        w = F.w

        def hints(ex, entry, mod, node, cond):
            out = [Cand("no callback has stopped the walk", lambda st: F.stop(st) == 0)]
            for v in [v for v in mod.vars if isinstance(entry.env.get(v), P)]:
                b = lambda st, v=v: toref(st.env[v])
                out.append(Cand("a position of the table, or the end", lambda st, b=b: Or(b(st) == NULL, And(w["ipos"](b(st)) >= 0, w["ipos"](b(st)) < w["n"], b(st) == w["pos"](w["ipos"](b(st)))))))
                out.append(Cand("presented so far", lambda st, b=b: forall([s], F.seen(st, s) == And(F.present(c.st0, F.p, s), Or(b(st) == NULL, w["idx"](s) < w["ipos"](b(st)))), [F.seen(st, s), w["idx"](s)])))
                out.append(Cand("write protected while walking", lambda st, b=b: Select(F.g(st, "t_ro"), F.h) == If(b(st) == NULL, RV(0), RV(1))))
            return out
        ex.loop_hints = hints
        c.run()
        k = z3.Int("s!sk")
        for st, r in c.returns:
            c.ensure(st, "a full pass presents every string", Implies(F.stop(st) == 0, F.seen(st, k) == F.present(c.st0, F.p, k)))
            c.ensure(st, "non-zero exactly when a callback stopped the walk", (r == 0) == (F.stop(st) == 0))
            c.ensure(st, "write protection is lifted again", Select(F.g(st, "t_ro"), F.h) == 0)
            c.frame(st, lambda o: FALSE)
        c.errors()


walker("str_pool_iterate", 1)
walker("str_pool_iterate_arg", 2)


@contract(TU, "str_pool_init_position", "C02")
def _initpos(c):
    F = Walk(c)
    c.run()
    for st, r in c.returns:
        c.ensure(st, "the first position, or NULL when the pool is empty", toref(r) == If(F.w["n"] > 0, F.w["pos"](RV(0)), NULL))
        c.frame(st, lambda o: o == F.h)
    c.errors()


@contract(TU, "str_pool_readonly", "C02")
def _readonly(c):
    F = Walk(c)
    c.run()
    for st, r in c.returns:
        c.ensure(st, "returns the previous value", r == Select(F.g(c.st0, "t_ro"), F.h))
        c.ensure(st, "sets the flag", Select(F.g(st, "t_ro"), F.h) == c.args[1])
        c.frame(st, lambda o: o == F.h)
    c.errors()


@contract(TU, "str_pool_next_position", "C02")
def _nextpos(c):
    F = Walk(c)
    w, q = F.w, toref(c.args[1])
    c.requires(Or(q == NULL, And(w["ipos"](q) >= 0, w["ipos"](q) < w["n"], q == w["pos"](w["ipos"](q)))))
    c.run()
    i = w["ipos"](q)
    for st, r in c.returns:
        c.ensure(st, "the following position, or NULL after the last", toref(r) == If(q == NULL, NULL, If(i + 1 < w["n"], w["pos"](i + 1), NULL)))
        c.frame(st, lambda o: o == F.h)
    c.errors()


@contract(TU, "str_pool_get_position", "C02")
def _getpos(c):
    F = Pool(c, live=False)
    ex, st = c.ex, c.st
    p = z3.Const("pool", Ref)
    c.requires(p != NULL, *F.wf(st, p))
    h = F.f(st, p, "hash")
    ex.walk["table"] = h
    w = ex.walk
    c.requires(*w["axioms"](Select(F.g(st, "t_in"), h)))
    q, out = toref(c.args[0]), c.args[1].base
    ex.rmap(st, PTR(VOID))
    c.requires(w["ipos"](q) >= 0, w["ipos"](q) < w["n"], q == w["pos"](w["ipos"](q)))
    c.requires(out != NULL, Or(ex.kind(st, out) == STACKBLK, ex.kind(st, out) == RAW), ex.size(st, out) >= 8)
    c.run()
    s = w["it"](w["ipos"](q))
    for st, r in c.returns:
        got = Select(Select(ex.rmap(st, PTR(VOID)), out), RV(0))
        c.ensure(st, "the string at this position", And(F.present(c.st0, p, s), got == F.val(c.st0, p, s)))
        c.frame(st, lambda o: o == out)
    c.errors()

"""maa/set.c : a set is a finite mathematical set"""
from chain import *

TU = "set.c"


def T(c):
    return Tab(c, "set", "bucket", "elem", None, "SET_MAGIC")


def stats_same(T, st, t, but=()):
    return And(*[T.f(st, s, t) == T.f(T.c.st0, s, t) for s in ("retrievals", "hits", "misses", "resizings", "readonly", "magic", "hash", "compare") if s not in but and s in T.tt])


@contract(TU, "set_create", ["C04", "C21"], weight=2)
def _create(c):
    T_ = T(c)
    ex = c.ex
    hf, cf = c.args[0].base, c.args[1].base
    c.requires(T_.HF == If(hf != NULL, hf, fnref("hsh_string_hash")), T_.CF == If(cf != NULL, cf, fnref("hsh_string_compare")), T_.HF != NULL, T_.CF != NULL)
    ex.loop_hints = lambda ex_, e, mod, n, cond: T_.h_init(e, mod)
    c.run()
    for st, r in c.returns:
        g = T_.newg(st, lambda q: FALSE, lambda q: NULL, lambda q: NULL)
        T_.wf_goal(st, r.base, g, "a new table is well formed and empty")
        c.ensure(st, "no entries", T_.f(st, "entries", r.base) == 0)
        c.ensure(st, "writable, statistics zero", And(*[T_.f(st, s, r.base) == 0 for s in ("readonly", "retrievals", "hits", "misses", "resizings")]))
        c.ensure(st, "fresh", And(ex.kind(c.st0, r.base) == 0, ex.kind(c.st0, T_.B(st, r.base)) == 0))
        c.frame(st, lambda o: FALSE)
    c.errors()


@contract(TU, "set_member", ["C04", "C03"], weight=2)
def _retrieve(c):
    T_ = T(c)
    t = T_.setup()
    g, k = T_.g, c.args[1].base
    q = cls(k)
    ex = c.ex
    ex.loop_hints = lambda ex_, e, mod, n, cond: T_.h_walk(e, mod, k)
    c.run()
    st0 = c.st0
    for st, r in c.returns:
        c.ensure(st, "1 exactly for members", r == If(g.has(q), RV(1), RV(0)))
        T_.wf_goal(st, t, T_.newg(st, g.has, g.keyof, g.val))
        c.ensure(st, "entry count unchanged", T_.f(st, "entries", t) == T_.f(st0, "entries", t))
        c.ensure(st, "statistics", And(T_.f(st, "retrievals", t) == T_.f(st0, "retrievals", t) + 1,
                                       T_.f(st, "misses", t) == T_.f(st0, "misses", t) + If(g.has(q), RV(0), RV(1)),
                                       T_.f(st, "hits", t) == T_.f(st0, "hits", t) + If(And(g.has(q), T_.ptr(st0, t, T_.slot(T_.f(st0, "prime", t), q)) == g.node(q)), RV(1), RV(0)),
                                       stats_same(T_, st, t, ("retrievals", "hits", "misses"))))
        m, i = z3.Const("m!sk", Ref), z3.Int("i!sk")
        c.ensure(st, "a read-only table is not reordered", Implies(T_.f(st0, "readonly", t) != 0, And(
            T_.ptr(st, t, i) == T_.ptr(st0, t, i), T_.n(st, T_.next, m) == T_.n(st0, T_.next, m))))
        c.frame(st, T_.foot())
        T_.grown(st, t)
    c.errors()


@contract(TU, "set_insert", ["C04", "C03"], weight=9)
def _insert(c):
    T_ = T(c)
    t = T_.setup()
    g, k, d = T_.g, c.args[1].base, NULL
    q = cls(k)
    ex = c.ex

    def hints(ex_, e, mod, n, cond):
        out = T_.h_init(e, mod) + T_.h_walk(e, mod, k) + T_.h_range(e, mod, t)
        out += T_.h_old(e, mod, t)
        out += T_.h_copy(e, mod, t)
        out += T_.h_release(e, mod, t)
        return out
    ex.loop_hints = hints
    c.allow("internal", T_.f(c.st, "readonly", t) != 0, name="read-only table")
    c.run()
    st0 = c.st0
    for st, r in c.returns:
        c.ensure(st, "1 exactly when the key was present", r == If(g.has(q), RV(1), RV(0)))
        n = T_.newg(st, lambda x: Or(g.has(x), x == q), lambda x: If(g.has(x), g.keyof(x), k), lambda x: If(g.has(x), g.val(x), d))
        T_.wf_goal(st, t, n)
        c.ensure(st, "entry count", T_.f(st, "entries", t) == T_.f(st0, "entries", t) + If(g.has(q), RV(0), RV(1)))
        c.ensure(st, "other statistics unchanged", stats_same(T_, st, t, ("resizings",)))
        c.frame(st, T_.foot())
        T_.grown(st, t)
    c.errors()


@contract(TU, "set_delete", ["C04", "C03"], weight=2)
def _delete(c):
    T_ = T(c)
    t = T_.setup()
    g, k = T_.g, c.args[1].base
    q = cls(k)
    ex = c.ex
    ex.loop_hints = lambda ex_, e, mod, n, cond: T_.h_walk(e, mod, k)
    # the map is finite: a present entry is counted
    c.requires(Implies(g.has(q), T_.f(c.st, "entries", t) >= 1))
    c.allow("internal", T_.f(c.st, "readonly", t) != 0, name="read-only table")
    c.run()
    st0 = c.st0
    for st, r in c.returns:
        c.ensure(st, "0 exactly when the key was present", r == If(g.has(q), RV(0), RV(1)))
        n = T_.newg(st, lambda x: And(g.has(x), x != q), g.keyof, g.val)
        T_.wf_goal(st, t, n)
        c.ensure(st, "entry count", T_.f(st, "entries", t) == T_.f(st0, "entries", t) - If(g.has(q), RV(1), RV(0)))
        c.ensure(st, "the entry's memory is released", Implies(g.has(q), ex.kind(st, g.node(q)) == 0))
        c.ensure(st, "statistics unchanged", stats_same(T_, st, t))
        c.frame(st, T_.foot())
        T_.grown(st, t)
    c.errors()


@contract(TU, "set_destroy", ["C04", "C03", "C20"], weight=2)
def _destroy(c):
    T_ = T(c)
    t = T_.setup()
    ex = c.ex

    def hints(ex_, e, mod, n, cond):
        return T_.h_range(e, mod, t) + T_.h_old(e, mod, t) + T_.h_release(e, mod, t)
    ex.loop_hints = hints
    c.allow("internal", T_.f(c.st, "readonly", t) != 0, name="read-only table")
    c.run()
    m = z3.Const("m!sk", Ref)
    for st, r in c.returns:
        c.ensure(st, "all of the table's memory is released", And(ex.kind(st, t) == 0, ex.kind(st, T_.B(c.st0, t)) == 0, Implies(T_.on0(m), ex.kind(st, m) == 0)))
        c.ensure(st, "retagged before its memory is released", T_.f(st, "magic", t) != MAGIC["SET_MAGIC"])
        c.frame(st, T_.foot())
    c.errors()


@contract(TU, "set_readonly", "C03")
def _readonly(c):
    T_ = T(c)
    t = T_.setup()
    c.run()
    st0 = c.st0
    for st, r in c.returns:
        c.ensure(st, "returns the previous value", r == T_.f(st0, "readonly", t))
        c.ensure(st, "sets the flag", T_.f(st, "readonly", t) == c.args[1])
        c.unchanged(st, "nothing else changes", but=[("f", "set", "readonly")])
        c.frame(st, lambda o: o == t)
    c.errors()


# ---------------------------------------------------------------- iteration
def iterate(nargs):
    def spec(c):
        T_ = T(c)
        t = T_.setup()
        it = Iter(T_, t, c.args[1], nargs, c.args[2] if len(c.args) > 2 else None, mutates="stats")
        ex = c.ex
        ex.loop_hints = lambda ex_, e, mod, n, cond: T_.h_range(e, mod, t) + T_.h_old(e, mod, t) + it.hints(e, mod)
        c.run()
        for st, r in c.returns:
            it.post(st, r)
            T_.wf_goal(st, t, T_.newg(st, T_.g.has, T_.g.keyof, T_.g.val))
            for f in ("prime", "buckets", "entries", "magic"):
                c.ensure(st, "iteration does not touch the set (%s)" % f, T_.f(st, f, t) == T_.f(c.st0, f, t))
            c.ensure(st, "the write protection is as before", T_.f(st, "readonly", t) == T_.f(c.st0, "readonly", t))
            c.frame(st, lambda o: o == t)
        c.errors_only()
    return spec


contract(TU, "set_iterate", "C02", weight=2)(iterate(1))
contract(TU, "set_iterate_arg", "C02", weight=2)(iterate(2))


def passed(T_, b):
    """entries before position b in bucket-and-chain order (b NULL: all)"""
    st0 = T_.c.st0
    pb = T_.place0(b)
    return lambda m: And(T_.on0(m), Or(b == NULL, T_.place0(m) < pb, And(T_.place0(m) == pb, Not(T_.R(st0)(b, m)))))


@contract(TU, "set_init_position", ["C02", "C03"])
def _init(c):
    T_ = T(c)
    t = T_.setup()
    c.ex.loop_hints = lambda ex_, e, mod, n, cond: T_.h_range(e, mod, t) + T_.h_init(e, mod)
    c.run()
    m = z3.Const("m!sk", Ref)
    for st, r in c.returns:
        c.ensure(st, "a position of the table", Or(r.base == NULL, T_.on0(r.base)))
        c.ensure(st, "no entry lies before it", Not(passed(T_, r.base)(m)))
        c.ensure(st, "the table is write protected during the walk", T_.f(st, "readonly", t) == If(r.base == NULL, T_.f(c.st0, "readonly", t), RV(1)))
        c.unchanged(st, "nothing else changes", but=[("f", "set", "readonly")])
        c.frame(st, lambda o: o == t)
    c.errors()


@contract(TU, "set_next_position", ["C02", "C03"])
def _next(c):
    T_ = T(c)
    t = T_.setup()
    b = c.args[1].base
    c.requires(Or(b == NULL, T_.on0(b)))
    c.ex.loop_hints = lambda ex_, e, mod, n, cond: T_.h_range(e, mod, t) + T_.h_init(e, mod)
    c.run()
    m = z3.Const("m!sk", Ref)
    for st, r in c.returns:
        p, q = passed(T_, b), passed(T_, r.base)
        c.ensure(st, "a position of the table", Or(r.base == NULL, T_.on0(r.base)))
        c.ensure(st, "exactly the entry of the old position is passed", Implies(And(b != NULL, T_.on0(m)), q(m) == Or(p(m), m == b)))
        c.ensure(st, "no position after the end", Implies(b == NULL, r.base == NULL))
        c.ensure(st, "the write protection ends with the walk", T_.f(st, "readonly", t) == If(r.base == NULL, RV(0), T_.f(c.st0, "readonly", t)))
        c.unchanged(st, "nothing else changes", but=[("f", "set", "readonly")])
        c.frame(st, lambda o: o == t)
    c.errors()


@contract(TU, "set_get_position", "C02")
def _getpos(c):
    T_ = T(c)
    ex, st = c.ex, c.st
    b = c.args[0].base
    c.requires(Or(b == NULL, ex.kind(st, b) == K("bucket")))
    c.run()
    for st, r in c.returns:
        c.ensure(st, "the element, NULL past the end", r.base == If(b == NULL, NULL, T_.k(c.st0, b)))
        c.frame(st, lambda o: FALSE)
    c.errors()


@contract(TU, "set_count", "C04")
def _count(c):
    T_ = T(c)
    t = T_.setup()
    c.requires(T_.f(c.st, "entries", t) < (1 << 31))
    c.run()
    for st, r in c.returns:
        c.ensure(st, "number of elements", r == T_.f(c.st0, "entries", t))
        c.frame(st, lambda o: FALSE)
    c.errors()


def getter(f):
    def spec(c):
        T_ = T(c)
        t = T_.setup()
        c.run()
        for st, r in c.returns:
            c.ensure(st, "the set's " + f, toref(r) == T_.f(c.st0, f, t))
            c.frame(st, lambda o: FALSE)
        c.errors()
    return spec


contract(TU, "set_get_hash", "C05")(getter("hash"))
contract(TU, "set_get_compare", "C05")(getter("compare"))

contract(TU, "set_get_stats", ["C04"], weight=2)(stats_spec(T, TU, "set_Stats", "prime"))


# ---------------------------------------------------------------- set algebra
# The functions below call set_create, set_insert, set_delete, set_member; those calls are replaced by the contracts proved above
# (a set that is only passed to them is opaque: ghost s_has[set][class], s_key[set][class]); the operand that is walked is concrete.
class Alg:
    def __init__(self, c, walked, abstract=()):
        """walked: indices of the arguments whose chains may be walked; abstract: arguments only changed through set_insert / set_delete"""
        self.c = c
        ex, st = c.ex, c.st
        self.T = T_ = Tab(c, "set", "bucket", "elem", None, "SET_MAGIC")
        self.ex = ex
        ex.hmap(st, ("G", "s_has"), lambda: z3.ArraySort(Ref, z3.ArraySort(IntS, BoolS)))
        ex.hmap(st, ("G", "s_key"), lambda: z3.ArraySort(Ref, z3.ArraySort(IntS, Ref)))
        cc, m, j = z3.Int("c"), z3.Const("m", Ref), z3.Int("j")
        self.ops = []
        T_.HFs = {}
        for i in walked:
            g = G("g%d_" % i)
            t = c.args[i].base
            T_.HF, T_.CF = z3.Const("HF%d" % i, Ref), z3.Const("CF%d" % i, Ref)
            fs = T_.wf(st, t, g)[:-1]         # without the ghost of the growth copy
            c.requires(*fs)
            c.requires(forall([cc], self.has(st, t)(cc) == g.has(cc), [self.has(st, t)(cc), g.has(cc)]))
            self.ops.append((t, g))
        for i in abstract:
            t = c.args[i].base
            c.requires(t != NULL, ex.kind(st, t) == K("set"), T_.f(st, "magic", t) == MAGIC["SET_MAGIC"], T_.f(st, "hash", t) != NULL, T_.f(st, "compare", t) != NULL,
                       T_.f(st, "entries", t) >= 0)
        self.t1, self.t2 = c.args[0].base, c.args[1].base
        # one class structure: the functions are the same or the call is refused
        h = lambda t: T_.f(st, "hash", t)
        k = lambda t: T_.f(st, "compare", t)
        c.allow("fatal", Or(h(self.t1) != h(self.t2), k(self.t1) != k(self.t2)), name="different hash or comparison functions")
        self.hash, self.cmp = h(self.t1), k(self.t1)
        if len(self.ops) == 2:
            # tables of different sets share no block
            (a, g1), (b, g2) = self.ops
            c.requires(Implies(a != b, And(T_.B(st, a) != T_.B(st, b), forall([m], Not(And(T_.on0(m, g1), T_.on0(m, g2))), [T_.k(st, m)]))))
        ex.models.update(set_create=self.m_create, set_insert=self.m_insert, set_delete=self.m_delete, set_member=self.m_member)
        ex.loop_hints = self.hints
        self.abstract = [c.args[i].base for i in abstract]
        self.created = []

    def H(self, st):
        return self.ex.hmap(st, ("G", "s_has"), None)

    def Kk(self, st):
        return self.ex.hmap(st, ("G", "s_key"), None)

    def has(self, st, t):
        return lambda q: Select(Select(self.H(st), t), q)

    def key(self, st, t):
        return lambda q: Select(Select(self.Kk(st), t), q)

    def setf(self, st, t, f, v):
        T_ = self.T
        k = ("f", "set", f)
        st.heap[k] = Store(self.ex.fmap(st, "set", f, T_.tt[f]), t, v)

    def havocf(self, st, t, *fs):
        T_ = self.T
        for f in fs:
            v = fresh(self.ex.fmap(st, "set", f, T_.tt[f]).range(), "cal")
            self.setf(st, t, f, v)
            if T_.tt[f].k == "int":
                st.assume(self.ex.inrange(v, T_.tt[f]))

    # -- contracts used at call sites
    def live(self, st, t, n):
        ex, T_ = self.ex, self.T
        ex.trusted.add("set_create, set_insert, set_delete, set_member (proved in this unit, C04)")
        ex.oblige(st, "a live set is passed", And(t != NULL, ex.kind(st, t) == K("set"), T_.f(st, "magic", t) == MAGIC["SET_MAGIC"]), n, group="pre")

    def m_create(self, ex, st, vs, n):
        T_ = self.T
        r = ex.alloc(st, fresh(IntS, "sz"), "set")
        ex.set_kind(st, r, K("set"))
        for f in T_.tt:
            self.havocf(st, r, f)
        self.created.append(r)
        h, k = toref(vs[0]), toref(vs[1])
        self.setf(st, r, "hash", If(h != NULL, h, fnref("hsh_string_hash")))
        self.setf(st, r, "compare", If(k != NULL, k, fnref("hsh_string_compare")))
        self.setf(st, r, "magic", RV(MAGIC["SET_MAGIC"]))
        self.setf(st, r, "readonly", RV(0))
        self.setf(st, r, "entries", RV(0))
        st.heap[("G", "s_has")] = Store(self.H(st), r, z3.K(IntS, FALSE))
        return [(st, P(r))]

    def change(self, st, t, n):
        ex = self.ex
        self.live(st, t, n)
        for a, _ in self.ops:
            ex.oblige(st, "the set changed is not the one being walked", t != a, n, group="pre")
        f, ok = ex.branch(st, self.T.f(st, "readonly", t) != 0)
        if f is not None and not ex.mute:
            ex.exits.append(("internal", f, ex.where(n)))
        return ok

    def same_classes(self, st, t, n):
        self.ex.oblige(st, "the set compares elements as the operands do", And(self.T.f(st, "hash", t) == self.hash, self.T.f(st, "compare", t) == self.cmp), n, group="pre")

    def m_insert(self, ex, st, vs, n):
        t, e = vs[0].base, toref(vs[1])
        st = self.change(st, t, n)
        if st is None:
            return []
        self.same_classes(st, t, n)
        q = cls(e)
        old, ok = Select(self.H(st), t), Select(self.Kk(st), t)
        r = If(Select(old, q), RV(1), RV(0))
        st.heap[("G", "s_has")] = Store(self.H(st), t, Store(old, q, TRUE))
        st.heap[("G", "s_key")] = Store(self.Kk(st), t, Store(ok, q, If(Select(old, q), Select(ok, q), e)))
        self.havocf(st, t, "prime", "buckets", "entries", "resizings")
        return [(st, r)]

    def m_delete(self, ex, st, vs, n):
        t, e = vs[0].base, toref(vs[1])
        st = self.change(st, t, n)
        if st is None:
            return []
        self.same_classes(st, t, n)
        q = cls(e)
        old = Select(self.H(st), t)
        r = If(Select(old, q), RV(0), RV(1))
        st.heap[("G", "s_has")] = Store(self.H(st), t, Store(old, q, FALSE))
        self.havocf(st, t, "entries")
        return [(st, r)]

    def m_member(self, ex, st, vs, n):
        t, e = vs[0].base, toref(vs[1])
        self.live(st, t, n)
        self.same_classes(st, t, n)
        ro, rw = ex.branch(st, self.T.f(st, "readonly", t) != 0)
        out = []
        if rw is not None:       # the lookup may reorder the chains
            T_ = self.T
            m = z3.Const("m", Ref)
            h = ex.fmap(rw, "bucket", T_.next, T_.nt[T_.next])
            new = fresh(h.sort(), "reord")
            rw.assume(forall([m], Implies(Not(Or(*[And(t == a, T_.on0(m, g)) for a, g in self.ops])), Select(new, m) == Select(h, m)), [Select(new, m)]))
            rw.heap[("f", "bucket", T_.next)] = new
            ex.new_lt(rw, "bucket", T_.next)
            rp = ex.rmap(rw, PTR(VOID))
            rw.heap[("r", "ptr")] = Store(rp, T_.B(rw, t), fresh(rp.range(), "reord"))
            out.append(rw)
        if ro is not None:
            out.append(ro)
        res = []
        for s in out:
            self.havocf(s, t, "retrievals", "hits", "misses")
            res.append((s, If(self.has(s, t)(cls(e)), RV(1), RV(0))))
        return res

    # -- invariants
    def hints(self, ex, entry, mod, n, cond):
        T_, c = self.T, self.c
        st0 = c.st0
        cc = z3.Int("c")
        out = []
        for t, g in self.ops:
            T_.g = g
            out += T_.h_range(entry, mod, t) + T_.h_old(entry, mod, t, g)
        res = [b for b in self.created + self.abstract if any(isinstance(v, P) and v.path is None and v.base.eq(b) for v in entry.env.values())]
        H0 = lambda t: (lambda q: Select(Select(c.ex.heap0[("G", "s_has")], t), q))
        flags = [k for k in T_.ints(entry) if k in mod.vars]
        for fk in flags:
            for t, g in self.ops:
                for t2, g2 in self.ops:
                    if g2 is not g:
                        miss = lambda g=g, g2=g2: Not(forall([cc], Implies(g.has(cc), g2.has(cc)), [g.has(cc), g2.has(cc)]))
                        out.append(Cand("an element is missing once %s says so" % ex_name(ex, fk), lambda st, fk=fk, miss=miss: Or(st.env[fk] != 0, miss())))
                        out.append(Cand("an element is missing once %s is set" % ex_name(ex, fk), lambda st, fk=fk, miss=miss: Or(st.env[fk] == 0, miss())))
        for t, g in self.ops:
            for ik, pk in T_.positions(entry, mod):
                nm = "(%s,%s)" % (ex_name(ex, ik), ex_name(ex, pk) if pk else "-")

                def dn(st, q, ik=ik, pk=pk, t=t, g=g):
                    i, p = T_.pos(st, ik, pk)
                    return And(g.has(q), T_.done(st, i, p, t, g)(g.node(q)))
                pats = lambda st, s, g=g: [self.has(st, s)(cc), g.node(cc)]
                for s in res:
                    pre = [("", lambda q: FALSE), ("what was there before and ", H0(s))] + [("the other set and ", g2.has) for t2, g2 in self.ops if g2 is not g]
                    sel = [("", lambda q: TRUE)] + [x for t2, g2 in self.ops if g2 is not g for x in ((" that are in the other set", g2.has), (" that are not in the other set", lambda q, g2=g2: Not(g2.has(q))))]
                    for pn, pf in pre:
                        for sn, sf in sel:
                            out.append(Cand("the result holds exactly %sthe elements passed%s %s" % (pn, sn, nm), lambda st, s=s, pf=pf, sf=sf, dn=dn, pats=pats: forall(
                                [cc], self.has(st, s)(cc) == Or(pf(cc), And(dn(st, cc), sf(cc))), pats(st, s))))
                    out.append(Cand("the result holds exactly what was there before without the elements passed " + nm, lambda st, s=s, dn=dn, pats=pats: forall(
                        [cc], self.has(st, s)(cc) == And(H0(s)(cc), Not(dn(st, cc))), pats(st, s))))
                for t2, g2 in self.ops:
                    if g2 is not g:
                        for fk in flags:
                            fl = lambda st, fk=fk: st.env[fk] != 0
                            out.append(Cand("the elements passed are in the other set as long as %s says so %s" % (ex_name(ex, fk), nm), lambda st, dn=dn, g=g, g2=g2, fl=fl: forall(
                                [cc], Implies(And(fl(st), dn(st, cc)), g2.has(cc)), [g.node(cc), g2.has(cc)])))
                            out.append(Cand("the elements passed are in the other set unless %s says not %s" % (ex_name(ex, fk), nm), lambda st, dn=dn, g=g, g2=g2, fl=fl: forall(
                                [cc], Implies(And(Not(fl(st)), dn(st, cc)), g2.has(cc)), [g.node(cc), g2.has(cc)])))
                        out.append(Cand("the elements passed are in the other set " + nm, lambda st, dn=dn, g=g, g2=g2: forall(
                            [cc], Implies(dn(st, cc), g2.has(cc)), [g.node(cc), g2.has(cc)])))
        for s in res:
            K0 = c.ex.heap0[("G", "s_key")]
            out.append(Cand("its elements are those of the operands", lambda st, s=s: forall([cc], Implies(self.has(st, s)(cc), Or(
                *[And(g.has(cc), self.key(st, s)(cc) == g.keyof(cc)) for _, g in self.ops])), [self.has(st, s)(cc)])))
            out.append(Cand("elements that were there keep their key", lambda st, s=s, K0=K0: forall(
                [cc], Implies(H0(s)(cc), self.key(st, s)(cc) == Select(Select(K0, s), cc)), [self.key(st, s)(cc)])))
            for _, g in self.ops:
                out.append(Cand("new elements are the operand's", lambda st, s=s, g=g: forall(
                    [cc], Implies(And(self.has(st, s)(cc), Not(H0(s)(cc))), And(g.has(cc), self.key(st, s)(cc) == g.keyof(cc))), [self.has(st, s)(cc)])))
            for k in mod.heap:
                h0 = st0.heap.get(k, c.ex.heap0.get(k))
                if h0 is not None and k[0] != "g":
                    out.append(Cand("a write-protected set is not changed %s" % (k,), lambda st, s=s, k=k, h0=h0: Implies(T_.f(st0, "readonly", s) != 0, st.heap[k] == h0)))
            for f in ("hash", "compare", "magic", "readonly"):
                e = T_.f(entry, f, s)
                out.append(Cand("field %s of the result unchanged" % f, lambda st, s=s, f=f, e=e: T_.f(st, f, s) == e))
        return out

    STATS = [("f", "set", f) for f in ("retrievals", "hits", "misses")]

    def operands_kept(self, st):
        """operands and everything else as before, but for the lookup statistics"""
        c = self.c
        c.unchanged(st, "operands (content, write protection) and everything else unchanged", but=self.STATS + [("G", "LN"), ("G", "s_key")])
        c.frame(st, lambda o: Or(o == self.t1, o == self.t2))

    def result(self, st, r, want):
        c, T_ = self.c, self.T
        q = z3.Int("c!sk")
        c.ensure(st, "a new set", And(r.base != NULL, c.ex.kind(c.st0, r.base) == 0))
        c.ensure(st, "with the operands' functions, writable", And(T_.f(st, "hash", r.base) == self.hash, T_.f(st, "compare", r.base) == self.cmp, T_.f(st, "readonly", r.base) == 0))
        c.ensure(st, "holds exactly the mathematical result", self.has(st, r.base)(q) == want(q))
        c.ensure(st, "its elements are those of the operands", Implies(self.has(st, r.base)(q), Or(*[And(g.has(q), self.key(st, r.base)(q) == g.keyof(q)) for _, g in self.ops])))


def algebra(op):
    def spec(c):
        a = Alg(c, [0, 1])
        g1, g2 = a.ops[0][1], a.ops[1][1]
        c.run()
        for st, r in c.returns:
            a.result(st, r, lambda q: op(g1.has(q), g2.has(q)))
            a.operands_kept(st)
        c.errors()
    return spec


contract(TU, "set_union", "C05", weight=5)(algebra(lambda x, y: Or(x, y)))
contract(TU, "set_inter", "C05", weight=5)(algebra(lambda x, y: And(x, y)))
contract(TU, "set_diff", "C05", weight=5)(algebra(lambda x, y: And(x, Not(y))))


@contract(TU, "set_equal", "C05", weight=5)
def _equal(c):
    a = Alg(c, [0, 1])
    T_ = a.T
    (t1, g1), (t2, g2) = a.ops
    q = z3.Int("c!sk")
    j = z3.Int("c")
    w = z3.Int("witness")
    e1, e2 = T_.f(c.st, "entries", t1), T_.f(c.st, "entries", t2)
    # meta lemma: the counts are the numbers of elements (C04), so different counts mean different sets and a subset of equal count is the whole
    c.requires(Implies(e1 != e2, g1.has(w) != g2.has(w)),
               Implies(e1 == e2, Or(And(g1.has(w), Not(g2.has(w))), And(g2.has(w), Not(g1.has(w))), forall([j], g1.has(j) == g2.has(j), [g1.has(j), g2.has(j)]))),
               Implies(And(e1 == e2, g2.has(w), Not(g1.has(w))), And(g1.has(z3.Int("witness2")), Not(g2.has(z3.Int("witness2"))))))
    c.run()
    for st, r in c.returns:
        c.ensure(st, "non-zero only for equal sets", Implies(r != 0, g1.has(q) == g2.has(q)))
        c.ensure(st, "zero only for different sets", Implies(r == 0, Not(forall([j], g1.has(j) == g2.has(j), [g1.has(j), g2.has(j)]))))
        a.operands_kept(st)
    c.errors()


@contract(TU, "set_add", "C05", weight=4)
def _add(c):
    a = Alg(c, [1], [0])
    T_ = a.T
    (t2, g2), t1 = a.ops[0], a.t1
    q = z3.Int("c!sk")
    c.allow("internal", T_.f(c.st, "readonly", t1) != 0, name="write-protected set")
    c.run()
    for st, r in c.returns:
        c.ensure(st, "returns the first set", r.base == t1)
        c.ensure(st, "now the union", a.has(st, t1)(q) == Or(a.has(c.st0, t1)(q), g2.has(q)))
        c.ensure(st, "the first set keeps its own elements", Implies(a.has(c.st0, t1)(q), a.key(st, t1)(q) == a.key(c.st0, t1)(q)))
        c.ensure(st, "new elements are the second set's", Implies(And(Not(a.has(c.st0, t1)(q)), g2.has(q)), a.key(st, t1)(q) == g2.keyof(q)))
        c.ensure(st, "write protection as before", T_.f(st, "readonly", t1) == T_.f(c.st0, "readonly", t1))
        c.frame(st, lambda o: o == t1)
    c.errors_some(may=("internal",))


@contract(TU, "set_del", "C05", weight=4)
def _del(c):
    a = Alg(c, [1], [0])
    T_ = a.T
    (t2, g2), t1 = a.ops[0], a.t1
    q = z3.Int("c!sk")
    c.requires(t1 != t2)
    c.allow("internal", T_.f(c.st, "readonly", t1) != 0, name="write-protected set")
    c.run()
    for st, r in c.returns:
        c.ensure(st, "returns the first set", r.base == t1)
        c.ensure(st, "now the difference", a.has(st, t1)(q) == And(a.has(c.st0, t1)(q), Not(g2.has(q))))
        c.ensure(st, "the elements kept are its own", Implies(a.has(st, t1)(q), a.key(st, t1)(q) == a.key(c.st0, t1)(q)))
        c.ensure(st, "write protection as before", T_.f(st, "readonly", t1) == T_.f(c.st0, "readonly", t1))
        c.frame(st, lambda o: o == t1)
    c.errors_some(may=("internal",))


def del_self(protected):
    """the set walked is the one that loses its elements; "seen" are the classes deleted so far.  set_delete enters by its contract: the entry of the class is
    unlinked and released, the rest of the representation stays (proved for its body under C04)"""
    def spec(c):
        T_ = T(c)
        c.args[1] = c.args[0]
        t = T_.setup(ro=protected)
        ex, g = c.ex, T_.g
        it = Iter(T_, t, c.args[0], 1)
        foot = T_.foot()

        def m_delete(ex, st, vs, n):
            s, q = vs[0].base, cls(toref(vs[1]))
            ex.trusted.add("set_delete (proved in this unit, C04)")
            ex.oblige(st, "the live set is passed", And(s == t, ex.kind(st, t) == K("set"), T_.f(st, "magic", t) == MAGIC["SET_MAGIC"],
                                                        T_.f(st, "readonly", t) != 0 if protected else T_.f(st, "readonly", t) == 0), n, group="pre")
            if protected:
                if not ex.mute:
                    ex.exits.append(("internal", st, ex.where(n)))
                return []
            m = z3.Const("m!sk", Ref)
            nd = g.node(q)
            ex.oblige(st, "the entries before it in its chain are deleted already", Implies(And(g.has(q), Not(it.seen(st, q)), it.unseen(st, m), T_.R(c.st0)(m, nd)), m == nd), n, group="pre")
            r = If(And(g.has(q), Not(it.seen(st, q))), RV(0), RV(1))
            h = st.heap.get(("G", "seen"), ex.heap0[("G", "seen")])
            st.heap[("G", "seen")] = Store(h, q, TRUE)
            it.disturb(st, others=lambda m: Not(foot(m)))
            return [(st, r)]
        ex.models["set_delete"] = m_delete

        def hints(ex_, e, mod, n, cond):
            out = T_.h_range(e, mod, t) + it.hints(e, mod)
            m = z3.Const("m", Ref)
            for k in mod.heap:
                h0 = c.st0.heap.get(k, ex.heap0.get(k))
                if h0 is not None and k[0] in ("f", "kind", "size", "r", "ini"):
                    out.append(Cand("nothing else changes %s" % (k,), lambda st, k=k, h0=h0: forall([m], Implies(Not(foot(m)), Select(st.heap[k], m) == Select(h0, m)), [Select(st.heap[k], m)]), slim=True))
            return out
        ex.loop_hints = hints
        ex.skip_cands = ("of blocks alive before the loop unchanged", "is what it was loaded from")
        c.allow("internal", (TRUE if protected else FALSE), name="write-protected set")
        c.run()
        q = z3.Int("c!sk")
        for st, r in c.returns:
            c.ensure(st, "returns the set", r.base == t)
            c.ensure(st, "now empty", Implies(g.has(q), it.seen(st, q)))
            for f in ("prime", "buckets", "readonly", "magic", "hash", "compare"):
                c.ensure(st, "the set itself stays (%s)" % f, T_.f(st, f, t) == T_.f(c.st0, f, t))
            c.ensure(st, "still alive", ex.kind(st, t) == K("set"))
            c.frame(st, foot)
        c.errors_some(may=("internal",))
    return spec


contract(TU, "set_del", "C05", name="set_del (a set from itself)", weight=4)(del_self(False))
contract(TU, "set_del", "C05", name="set_del (a write-protected set from itself)")(del_self(True))

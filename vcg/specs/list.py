"""maa/list.c : a list is the sequence of datums along the next chain from head; tail is the last node."""
from spec import *
from absmod import MAGIC

TU = "list.c"
D = ("data", "next")
OBJ = ("f", "list", "objsize")


# ------------------------------------------------ object stores (contract proved in specs/memory.py, C10)
def osize(ex, st):
    return ex.hmap(st, ("G", "osize"), lambda: z3.ArraySort(Ref, IntS))


def m_create_objects(ex, st, vs, n):
    ex.trusted.add("mem_create_objects (proved under C10)")
    r = ex.alloc(st, fresh(IntS, "sz"))
    ex.set_kind(st, r, K("objectInfo"))
    st.heap[("G", "osize")] = Store(osize(ex, st), r, vs[0])
    return [(st, P(r))]


def store_ok(ex, st, p, n, what):
    """a live object store is passed, or the internal report follows"""
    t, f = ex.branch(st, p.base != NULL)
    if f is not None and not ex.mute:
        ex.exits.append(("internal", f, ex.where(n)))
    if t is not None:
        ex.oblige(t, "%s is given a live object store" % what, ex.kind(t, p.base) == K("objectInfo"), n, group="pre")
    return t


def m_get_object(ex, st, vs, n):
    ex.trusted.add("mem_get_object (proved under C10)")
    st = store_ok(ex, st, vs[0], n, "mem_get_object")
    if st is None:
        return []
    return [(st, P(ex.alloc(st, Select(osize(ex, st), vs[0].base))))]


def m_free_object(ex, st, vs, n):
    ex.trusted.add("mem_free_object (proved under C10)")
    st = store_ok(ex, st, vs[0], n, "mem_free_object")
    if st is None:
        return []
    o = vs[1]
    t, f = ex.branch(st, o.base != NULL)
    if f is not None and not ex.mute:
        ex.exits.append(("internal", f, ex.where(n)))
    if t is None:
        return []
    ex.oblige(t, "the object freed is live", And(ex.kind(t, o.base) > 0, TRUE if o.path is None and off_is0(o.off) else FALSE), n, group="mem")
    ex.set_kind(t, o.base, 0)
    return [(t, None)]


def m_destroy_objects(ex, st, vs, n):
    ex.trusted.add("mem_destroy_objects (proved under C10)")
    st = store_ok(ex, st, vs[0], n, "mem_destroy_objects")
    if st is None:
        return []
    ex.set_kind(st, vs[0].base, 0)
    return [(st, None)]


STORE = dict(mem_create_objects=m_create_objects, mem_get_object=m_get_object, mem_free_object=m_free_object, mem_destroy_objects=m_destroy_objects)


# ------------------------------------------------ the list
class L:
    def __init__(self, c, live=True):
        self.c, self.ex = c, c.ex
        ex, st = c.ex, c.st
        ex.models.update(STORE)
        osize(ex, st)
        ex.lt(st, *D)
        self.ft = dict(ex.flat("list"))
        self.sq = z3.Function("sq", IntS, Ref)
        self.mem = lambda st: toref(ex.gload(st, "mem", PTR(VOID)))
        nsz = c.tu.sizeof(T("struct", tag="data"))
        self.storeinv = lambda st: And(ex.kind(st, self.mem(st)) == K("objectInfo"), Select(osize(ex, st), self.mem(st)) == nsz)
        if live:
            self.l = c.args[0].base
            c.requires(*self.wf(st, self.sq))
            c.requires(self.mem(st) != NULL, self.storeinv(st))
            self.n0 = self.ln(st)(self.head(st))
            c.requires(self.n0 < (1 << 31))

    def f(self, st, name, o=None):
        return Select(self.ex.fmap(st, "list", name, self.ft[name]), self.l if o is None else o)

    def head(self, st, l=None):
        return self.f(st, "head", l)

    def R(self, st):
        return self.ex.lt(st, *D).R

    def ln(self, st):
        return self.ex.lt(st, *D).ln

    def nx(self, st, m):
        return Select(self.ex.fmap(st, "data", "next", PTR(VOID)), m)

    def datum(self, st, m):
        return Select(self.ex.fmap(st, "data", "datum", PTR(VOID)), m)

    def node(self, st, m):
        return And(self.ex.kind(st, m) == K("data"), Select(self.ex.ini(st, *D), m))

    def on(self, st, m, l=None):
        return And(m != NULL, self.R(st)(self.head(st, l), m))

    def body(self, st, sq, m, l=None):
        n = self.ln(st)(self.head(st, l))
        return Implies(self.on(st, m, l), And(self.node(st, m), self.datum(st, m) == sq(n - self.ln(st)(m))))

    def shape(self, st, l=None):
        l = self.l if l is None else l
        h, t = self.head(st, l), self.f(st, "tail", l)
        return And(l != NULL, self.ex.kind(st, l) == K("list"), self.f(st, "magic", l) == MAGIC["LST_MAGIC"], self.ln(st)(h) == self.f(st, "count", l),
                   If(h == NULL, t == NULL, And(t != NULL, self.R(st)(h, t), self.nx(st, t) == NULL)), self.R(st)(h, h))

    def wf(self, st, sq):
        m = z3.Const("m", Ref)
        return [self.shape(st), forall([m], self.body(st, sq, m), [self.R(st)(self.head(st), m)])]

    def wf_goal(self, st, sq, l=None):
        return And(self.shape(st, l), self.body(st, sq, z3.Const("m!sk", Ref), l))

    def post(self, st, sq, n, name):
        c = self.c
        c.ensure(st, name, self.wf_goal(st, sq))
        c.ensure(st, "its length", self.f(st, "count") == n)
        c.ensure(st, "the list module keeps its object store", And(self.mem(st) == self.mem(c.st0), self.storeinv(st)))
        m = z3.Const("m!fp", Ref)
        c.ensure(st, "footprint grows by fresh blocks only", Implies(self.on(st, m), Or(self.on(c.st0, m), self.ex.kind(c.st0, m) == 0)))
        self.framed(st)

    def framed(self, st):
        c = self.c
        c.frame(st, lambda o: Or(o == self.l, self.on(c.st0, o)), globs=("_lst_allocated",))

    def reads(self, spec_r):
        """operations that only look"""
        c = self.c
        c.run()
        for st, r in c.returns:
            spec_r(st, r)
            c.unchanged(st, "nothing is modified")
        c.errors()


def nodevars(L_, entry):
    ex = L_.ex
    out = []
    for k, v in entry.env.items():
        if isinstance(v, P) and v.path is None and off_is0(v.off):
            t = ex.vtype(k)
            if t is not None and t.k == "ptr" and t.to.k == "struct" and t.to.tag == "data":
                out.append(k)
    return out


def walk(L_, extra=None):
    """a node variable walks the entry list, possibly with a counter"""
    c = L_.c

    def hints(ex, entry, mod, n, cond):
        st0 = c.st0
        h0 = L_.head(st0)
        out = []
        for p in nodevars(L_, entry):
            if p not in mod.vars:
                continue
            nm = ex_name(ex, p)
            e0 = entry.env[p].base
            out.append(Cand(nm + " is on the list", lambda st, p=p: L_.R(st0)(h0, st.env[p].base)))
            out.append(Cand(nm + " comes after its first value", lambda st, p=p, e0=e0: L_.R(st0)(e0, st.env[p].base)))
            out.append(Cand(nm + " is a node", lambda st, p=p: And(st.env[p].base != NULL, L_.R(st0)(h0, st.env[p].base))))
            for k, (w, t) in mod.vars.items():
                v = entry.env.get(k)
                if isinstance(v, z3.ExprRef) and z3.is_int(v):
                    d = z3.simplify(v)
                    out.append(Cand("%s is the element numbered by %s" % (nm, ex_name(ex, k)), lambda st, p=p, k=k, v=v, e0=e0:
                                    st.env[k] - v == L_.ln(st0)(e0) - L_.ln(st0)(st.env[p].base)))
                    out.append(Cand("%s is the element numbered by falling %s" % (nm, ex_name(ex, k)), lambda st, p=p, k=k, v=v, e0=e0:
                                    v - st.env[k] == L_.ln(st0)(e0) - L_.ln(st0)(st.env[p].base)))
            if extra:
                out += extra(ex, entry, mod, p)
        return out
    c.ex.loop_hints = hints


def ex_name(ex, k):
    from core import ex_varname
    return ex_varname(ex, k)


def releasing(L_):
    """loops that free the nodes from their walker's first value on"""
    c = L_.c

    def hints(ex, entry, mod, n, cond):
        out = []
        m = z3.Const("m", Ref)
        R, ln = L_.R(entry), L_.ln(entry)
        walk = [(ex_name(ex, p), lambda st, p=p: st.env[p].base) for p in nodevars(L_, entry) if p in mod.vars]
        if ("f", "list", "head") in mod.heap:
            walk.append(("the head", lambda st: L_.f(st, "head")))
        for nm, p in walk:
            e0 = p(entry)
            cnt = L_.f(entry, "count")
            out.append(Cand(nm + " comes after its first value", lambda st, p=p, e0=e0: R(e0, p(st))))
            out.append(Cand(nm + ": nodes passed are released", lambda st, p=p, e0=e0: forall(
                [m], Implies(And(m != NULL, R(e0, m), Not(R(p(st), m))), ex.kind(st, m) == 0), [R(e0, m), ex.kind(st, m)])))
            out.append(Cand(nm + ": nodes not reached yet are alive", lambda st, p=p, e0=e0: forall(
                [m], Implies(And(m != NULL, R(p(st), m)), L_.node(st, m)), [R(p(st), m)])))
            out.append(Cand(nm + ": other blocks untouched", lambda st, e0=e0: forall(
                [m], Implies(Not(And(m != NULL, R(e0, m))), ex.kind(st, m) == ex.kind(entry, m)), [ex.kind(st, m)])))
            out.append(Cand(nm + ": count follows", lambda st, p=p, e0=e0, cnt=cnt: L_.f(st, "count") == cnt - (ln(e0) - ln(p(st)))))
            for k, (w, t) in mod.vars.items():
                v = entry.env.get(k)
                if isinstance(v, z3.ExprRef) and z3.is_int(v):
                    out.append(Cand(nm + ": counts with " + ex_name(ex, k), lambda st, p=p, e0=e0, k=k, v=v: st.env[k] - v == ln(e0) - ln(p(st))))
                    out.append(Cand(nm + ": counts down with " + ex_name(ex, k), lambda st, p=p, e0=e0, k=k, v=v: v - st.env[k] == ln(e0) - ln(p(st))))
            out.append(Cand(nm + ": the next node", lambda st, p=p: L_.R(entry)(p(st), p(st))))
        return out
    return hints


@contract(TU, "lst_create", ["C06", "C20"])
def _create(c):
    l = L(c, live=False)
    c.requires(Or(l.mem(c.st) == NULL, l.storeinv(c.st)))
    c.run()
    for st, r in c.returns:
        l.l = r.base
        c.ensure(st, "a new list is well formed and empty", And(l.wf_goal(st, l.sq), l.f(st, "count") == 0))
        c.ensure(st, "a new list is a fresh block", c.ex.kind(c.st0, r.base) == 0)
        c.ensure(st, "the object store exists", And(l.mem(st) != NULL, l.storeinv(st), Or(l.mem(c.st0) == NULL, l.mem(st) == l.mem(c.st0))))
        c.frame(st, lambda o: FALSE, globs=("_lst_allocated", "mem"))
    c.errors()


@contract(TU, "lst_append", "C06")
def _append(c):
    l = L(c)
    d = c.args[1].base
    c.run()
    for st, r in c.returns:
        l.post(st, lambda i: If(i == l.n0, d, l.sq(i)), l.n0 + 1, "the datum is added at the end, the rest as before")
    c.errors()


@contract(TU, "lst_push", "C06")
def _push(c):
    l = L(c)
    d = c.args[1].base
    c.run()
    for st, r in c.returns:
        l.post(st, lambda i: If(i == 0, d, l.sq(i - 1)), l.n0 + 1, "the datum is added in front, the rest as before")
    c.errors()


@contract(TU, "lst_pop", "C06")
def _pop(c):
    l = L(c)
    c.run()
    for st, r in c.returns:
        c.ensure(st, "returns the first datum, NULL when empty", r.base == If(l.n0 == 0, NULL, l.sq(0)))
        l.post(st, lambda i: If(l.n0 == 0, l.sq(i), l.sq(i + 1)), If(l.n0 == 0, RV(0), l.n0 - 1), "the rest is unchanged")
    c.errors()


@contract(TU, "lst_top", "C06")
def _top(c):
    l = L(c)
    l.reads(lambda st, r: c.ensure(st, "the first datum, NULL when empty", r.base == If(l.n0 == 0, NULL, l.sq(0))))


@contract(TU, "lst_length", "C06")
def _length(c):
    l = L(c)
    l.reads(lambda st, r: c.ensure(st, "number of elements", r == l.n0))


@contract(TU, "lst_nth_get", "C06")
def _nth_get(c):
    l = L(c)
    n = c.args[1]
    walk(l)
    l.reads(lambda st, r: c.ensure(st, "the n-th datum, NULL when there is none", r.base == If(And(n >= 1, n <= l.n0), l.sq(n - 1), NULL)))


@contract(TU, "lst_nth_position", "C06")
def _nth_position(c):
    l = L(c)
    n = c.args[1]
    walk(l)
    l.reads(lambda st, r: c.ensure(st, "marker of the n-th element, NULL when there is none", If(
        And(n >= 1, n <= l.n0), And(l.on(c.st0, r.base), l.ln(c.st0)(r.base) == l.n0 - n + 1), r.base == NULL)))


@contract(TU, "lst_nth_set", "C06")
def _nth_set(c):
    l = L(c)
    n, d = c.args[1], c.args[2].base
    walk(l)
    c.allow("fatal", Or(n < 1, n > l.n0), name="no such element")
    c.run()
    for st, r in c.returns:
        l.post(st, lambda i: If(i == n - 1, d, l.sq(i)), l.n0, "exactly the n-th datum is replaced")
    c.errors()


@contract(TU, "lst_member", "C06")
def _member(c):
    l = L(c)
    d = c.args[1].base
    m = z3.Const("m", Ref)

    def extra(ex, entry, mod, p):
        return [Cand("not among the nodes passed by " + ex_name(ex, p), lambda st: forall(
            [m], Implies(And(l.on(c.st0, m), Not(l.R(c.st0)(st.env[p].base, m))), l.datum(c.st0, m) != d), [l.R(c.st0)(l.head(c.st0), m)]))]
    walk(l, extra)

    def spec(st, r):
        i = z3.Int("i!sk")
        w = z3.Const("m!sk", Ref)
        c.ensure(st, "non-zero only when the datum is in the list", Implies(r != 0, z3.Exists([m], And(l.on(c.st0, m), l.datum(c.st0, m) == d))))
        c.ensure(st, "zero only when it is not", Implies(r == 0, Implies(l.on(c.st0, w), l.datum(c.st0, w) != d)))
    l.reads(spec)


def iterate(arg):
    def spec(c):
        l = L(c)
        ex = c.ex
        ex.hmap(c.st, ("G", "calls"), lambda: z3.ArraySort(IntS, IntS))
        G = lambda st, i: Select(st.heap.get(("G", "calls"), ex.heap0[("G", "calls")]), RV(i))
        c.requires(G(c.st, 0) == 0, G(c.st, 1) == 0, toref(c.args[1]) != NULL)
        c.noframe.add(("G", "calls"))

        def cb(ex, st, fv, vs, n):
            ex.oblige(st, "the function called is the caller's", toref(fv) == toref(c.args[1]), n, group="cb")
            if len(vs) != (2 if arg else 1):
                ex.unsup("callback with %d arguments" % len(vs), n)
            k = G(st, 0)
            ex.oblige(st, "no call after a non-zero result", G(st, 1) == 0, n, group="cb")
            ex.oblige(st, "presents the next element of the list", And(k < l.n0, toref(vs[0]) == l.sq(k)), n, group="cb")
            if arg:
                ex.oblige(st, "passes the caller's argument", toref(vs[1]) == toref(c.args[2]), n, group="cb")
            r = fresh(IntS, "cb")
            st.assume(ex.inrange(r, INT))
            h = st.heap.get(("G", "calls"), ex.heap0[("G", "calls")])
            st.heap[("G", "calls")] = Store(Store(h, RV(0), k + 1), RV(1), r)
            return [(st, r)]
        ex.indirect = cb

        ex.stopvals = [lambda st: G(st, 1)]

        def extra(ex, entry, mod, p):
            return [Cand("as many calls as nodes passed by " + ex_name(ex, p), lambda st: G(st, 0) == l.n0 - l.ln(c.st0)(st.env[p].base)),
                    Cand("no call returned non-zero yet", lambda st: G(st, 1) == 0)]
        walk(l, extra)

        def post(st, r):
            c.ensure(st, "zero exactly when no call returned non-zero", (r == 0) == (G(st, 1) == 0))
            c.ensure(st, "zero only after all elements were presented", Implies(r == 0, G(st, 0) == l.n0))
        l.reads(post)
    return spec


contract(TU, "lst_iterate", "C06")(iterate(False))
contract(TU, "lst_iterate_arg", "C06")(iterate(True))


@contract(TU, "lst_truncate", "C06")
def _truncate(c):
    l = L(c)
    n = c.args[1]
    w, rel = None, releasing(l)
    walk(l)
    wk = c.ex.loop_hints
    c.ex.loop_hints = lambda *a: wk(*a) + rel(*a)
    c.run()
    m = z3.Const("m!sk", Ref)
    for st, r in c.returns:
        l.post(st, l.sq, If(l.n0 <= n, l.n0, n), "the first elements are kept in order")
        c.ensure(st, "the elements cut off are released", Implies(And(l.on(c.st0, m), Not(l.on(st, m))), c.ex.kind(st, m) == 0))
    c.errors()


@contract(TU, "lst_truncate_position", "C06")
def _truncate_position(c):
    l = L(c)
    p = c.args[1].base
    c.requires(Or(p == NULL, l.on(c.st, p)))
    walk(l)
    wk, rel = c.ex.loop_hints, releasing(l)
    c.ex.loop_hints = lambda *a: wk(*a) + rel(*a)
    c.run()
    m = z3.Const("m!sk", Ref)
    for st, r in c.returns:
        l.post(st, l.sq, If(p == NULL, RV(0), l.n0 - l.ln(c.st0)(p) + 1), "the elements up to the position are kept in order")
        c.ensure(st, "the elements cut off are released", Implies(And(l.on(c.st0, m), Not(l.on(st, m))), c.ex.kind(st, m) == 0))
    c.errors()


@contract(TU, "lst_destroy", ["C06", "C20"])
def _destroy(c):
    l = L(c)
    ex = c.ex
    c.ex.loop_hints = releasing(l)
    free = ex.models["xfree"]

    def xfree(ex, st, vs, n):
        if isinstance(vs[0], P) and not ex.quick_unsat(st, vs[0].base == l.l):
            ex.oblige(st, "retagged before its memory is released", Implies(vs[0].base == l.l, And(l.f(st, "magic") != MAGIC["LST_MAGIC"])), n)
        return free(ex, st, vs, n)
    ex.models["xfree"] = xfree
    c.run()
    m = z3.Const("m!sk", Ref)
    for st, r in c.returns:
        c.ensure(st, "the handle and all nodes are released", Implies(Or(m == l.l, l.on(c.st0, m)), ex.kind(st, m) == 0))
        c.ensure(st, "the list module keeps its object store", And(l.mem(st) == l.mem(c.st0), l.storeinv(st)))
        c.frame(st, lambda o: Or(o == l.l, l.on(c.st0, o)), globs=("_lst_allocated",))
    c.errors()


@contract(TU, "lst_init_position", "C06")
def _init(c):
    l = L(c)
    l.reads(lambda st, r: c.ensure(st, "marker of the first element, NULL when empty", If(l.n0 == 0, r.base == NULL, And(l.on(c.st0, r.base), l.ln(c.st0)(r.base) == l.n0))))


@contract(TU, "lst_last_position", "C06")
def _last(c):
    l = L(c)
    l.reads(lambda st, r: c.ensure(st, "marker of the last element, NULL when empty", If(l.n0 == 0, r.base == NULL, And(l.on(c.st0, r.base), l.ln(c.st0)(r.base) == 1))))


def position(c, i=0):
    """a position marker: NULL or a node"""
    l = L(c, live=False)
    p = c.args[0].base
    c.requires(Or(p == NULL, And(l.node(c.st, p))))
    return l, p


@contract(TU, "lst_next_position", "C06")
def _next(c):
    l, p = position(c)
    l.reads(lambda st, r: c.ensure(st, "marker of the element after it", r.base == If(p == NULL, NULL, l.nx(c.st0, p))))


@contract(TU, "lst_get_position", "C06")
def _get(c):
    l, p = position(c)
    l.reads(lambda st, r: c.ensure(st, "its datum", r.base == If(p == NULL, NULL, l.datum(c.st0, p))))


@contract(TU, "lst_set_position", "C06")
def _set(c):
    l, p = position(c)
    d = c.args[1].base
    c.run()
    for st, r in c.returns:
        c.ensure(st, "the marked element holds the new datum", Implies(p != NULL, And(l.datum(st, p) == d, l.nx(st, p) == l.nx(c.st0, p))))
        c.frame(st, lambda o: And(o == p, p != NULL))
    c.errors()


@contract(TU, "_lst_shutdown", ["C06", "C28"])
def _shutdown(c):
    l = L(c, live=False)
    c.requires(Or(l.mem(c.st) == NULL, l.storeinv(c.st)))
    c.run()
    for st, r in c.returns:
        c.ensure(st, "the next list makes a new object store", l.mem(st) == NULL)
        c.frame(st, lambda o: o == l.mem(c.st0), globs=("mem",))
    c.errors()

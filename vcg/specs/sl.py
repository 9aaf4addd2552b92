"""maa/sl.c : a skip list is the sequence of its data in increasing key order; on level i the entries with at least i+1 forward pointers
are chained in that order.  Keys are compared by an arbitrary strict weak order, given as a rank.

Ghosts (chosen anew by every operation): inS(m) entry m is in the list, lv(m) its highest level, ps(m) its position, sq(i) the entry at position i."""
from spec import *
from absmod import MAGIC
from specs.list import STORE, osize
from specs.handles import m_random

TU = "sl.c"
ENT, LST = "_sl_Entry", "_sl_List"
MAXL = 16
rank = z3.Function("rank", Ref, IntS)       # order of keys under the comparison function
KEY = z3.Function("key_of", Ref, Ref)       # key of a datum under the key function


def m_alloca(ex, st, vs, n):
    ex.trusted.add("alloca")
    ex.oblige(st, "alloca of a sensible size", vs[0] >= 0, n, group="ub")
    r = ex.alloc(st, vs[0], "alloca")
    ex.set_kind(st, r, STACKBLK)
    return [(st, P(r))]


def m_sprintf_static(ex, st, vs, n):
    ex.trusted.add("sprintf into the static text buffer of _sl_print (at most 18 characters of %p); the buffer is not tracked")
    r = fresh(IntS, "sprintf")
    st.assume(ex.inrange(r, INT))
    return [(st, r)]


class W:
    """ghost witness of the shape"""

    def __init__(self, pre=""):
        self.inS = z3.Function(pre + "inS", Ref, BoolS)
        self.lv = z3.Function(pre + "lv", Ref, IntS)
        self.ps = z3.Function(pre + "ps", Ref, IntS)
        self.sq = z3.Function(pre + "sq", IntS, Ref)


class Wit:
    def __init__(self, inS, lv, ps, sq):
        self.inS, self.lv, self.ps, self.sq = inS, lv, ps, sq


class SL:
    def __init__(self, c, live=True, pure=True):
        self.c, self.ex = c, c.ex
        ex, st = c.ex, c.st
        ex.models.update(STORE)
        ex.models["random"] = m_random
        ex.models["sprintf"] = m_sprintf_static
        ex.models["alloca"] = ex.models["__builtin_alloca"] = m_alloca
        osize(ex, st)
        self.ft = dict(ex.flat(LST))
        self.et = dict(ex.flat(ENT))
        self.M = MAGIC["SL_LIST_MAGIC"] if self.ft["magic"].signed else MAGIC["SL_LIST_MAGIC"] % (1 << 32)
        for f, t in self.ft.items():
            ex.fmap(st, LST, f, t)
        for f, t in self.et.items():
            if t.k == "arr":
                ex.famap(st, ENT, f, t.to)
            else:
                ex.fmap(st, ENT, f, t)
        self.arr = [f for f, t in self.et.items() if t.k == "arr"][0]
        self.off = c.tu.offsetof(ENT, self.arr)
        ex.rmap(st, PTR(VOID))
        self.w = W()
        self.mem = lambda st: toref(ex.gload(st, "_sl_Memory", PTR(VOID)))
        nsz = c.tu.sizeof(T("struct", tag=LST))
        self.storeinv = lambda st: And(ex.kind(st, self.mem(st)) == K("objectInfo"), Select(osize(ex, st), self.mem(st)) == nsz)
        ex.indirect = self.indirect
        self.callback = None
        if live:
            self.l = c.args[0].base
            c.requires(*self.wf(st))
            c.requires(self.mem(st) != NULL, self.storeinv(st))
            self.n0 = self.f(st, "count")
            c.requires(self.n0 < (1 << 31) - 1)
            c.requires(Or(self.n0 == 0, And(self.w.inS(self.w.sq(0)), self.w.ps(self.w.sq(0)) == 0)))   # an instance of the above, for the solver
            self.h0 = self.f(st, "head")
            self.CF, self.KF, self.PF = (self.f(st, x) for x in ("compare", "key", "print"))
            ex.loop_hints = self.hints

    # ---- accessors
    def f(self, st, name, l=None):
        return Select(self.ex.fmap(st, LST, name, self.ft[name]), self.l if l is None else l)

    def datum(self, st, m):
        return Select(self.ex.fmap(st, ENT, "datum", PTR(VOID)), m)

    def rk(self, st, m):
        return rank(KEY(self.datum(st, m)))

    def fam(self, st):
        return self.ex.famap(st, ENT, self.arr, self.et[self.arr].to)

    def fw(self, st, m, i):
        return Select(Select(self.fam(st), m), i)

    def room(self, st, m, i):
        """entry m has a forward pointer of level i"""
        return self.off + (i + 1) * 8 <= self.ex.size(st, m)

    # ---- invariant, as a list of (bound variables, body, patterns)
    def parts(self, st, w):
        ex = self.ex
        h, n, L = self.f(st, "head"), self.f(st, "count"), self.f(st, "level")
        m, x, i = z3.Const("m", Ref), z3.Const("x", Ref), z3.Int("i")
        on = lambda m: Or(m == h, w.inS(m))
        fw = self.fw(st, m, i)
        live = lambda m: And(m != NULL, ex.kind(st, m) == K(ENT))
        yield [], And(self.l != NULL, ex.kind(st, self.l) == K(LST), self.f(st, "magic") == self.M, L >= 0, L <= MAXL, n >= 0,
                      live(h), Not(w.inS(h)), w.lv(h) == MAXL, w.ps(h) == -1, self.room(st, h, RV(MAXL)), h != self.l), []
        yield [m], Implies(w.inS(m), And(live(m), m != h, w.lv(m) >= 0, w.lv(m) <= L, self.room(st, m, w.lv(m)),
                                         w.ps(m) >= 0, w.ps(m) < n, w.sq(w.ps(m)) == m)), [w.inS(m)]
        yield [i], Implies(And(i >= 0, i < n), And(w.inS(w.sq(i)), w.ps(w.sq(i)) == i)), [w.sq(i)]
        yield [m, x], Implies(And(w.inS(m), w.inS(x), w.ps(m) < w.ps(x)), self.rk(st, m) < self.rk(st, x)), [(w.inS(m), w.inS(x))]
        yield [m, i], Implies(And(on(m), i >= 0, i <= w.lv(m)), Or(fw == NULL, And(w.inS(fw), w.lv(fw) >= i, w.ps(fw) > w.ps(m)))), [fw]
        yield [m, x, i], Implies(And(on(m), i >= 0, i <= w.lv(m), w.inS(x), w.lv(x) >= i, w.ps(x) > w.ps(m)), And(
            fw != NULL, w.ps(fw) <= w.ps(x))), [(fw, w.inS(x))]

    def wf(self, st):
        return [forall(v, b, p) if v else b for v, b, p in self.parts(st, self.w)] + [Not(self.w.inS(NULL))]

    def wf_goals(self, st, w):
        """the invariant for new witnesses, skolemised"""
        out = []
        for k, (v, b, p) in enumerate(self.parts(st, w)):
            out.append(z3.substitute(b, *[(x, z3.Const("%s!sk%d" % (x, k), x.sort())) for x in v]) if v else b)
        return out

    NAMES = ["the list and its head", "every entry is live, inside the level bounds and at its position", "every position holds an entry",
             "entries are in increasing key order", "forward pointers lead to later entries of that level", "forward pointers skip no entry of their level"]

    def post(self, st, w, name):
        for nm, g in zip(self.NAMES, self.wf_goals(st, w)):
            self.c.ensure(st, name + ": " + nm, g)
        self.c.ensure(st, "the skip list module keeps its object store", And(self.mem(st) == self.mem(self.c.st0), self.storeinv(st)))

    # ---- callbacks
    def is_(self, st, fv, want):
        return self.ex.quick_unsat(st, toref(fv) != (want if isinstance(want, z3.ExprRef) else toref(want)))

    def indirect(self, ex, st, fv, vs, n):
        if self.callback is not None:
            r = self.callback(ex, st, fv, vs, n)
            if r is not None:
                return r
        if len(vs) == 2:
            ex.oblige(st, "the comparison function is the list's", toref(fv) == self.CF, n, group="cb")
            r = fresh(IntS, "cmp")
            a, b = rank(toref(vs[0])), rank(toref(vs[1]))
            st.assume(ex.inrange(r, INT), (r < 0) == (a < b), (r == 0) == (a == b))
            return [(st, r)]
        if len(vs) == 1 and self.is_(st, fv, self.KF):
            return [(st, P(KEY(toref(vs[0]))))]
        if len(vs) == 1:
            ex.oblige(st, "the function called is the list's print function", toref(fv) == self.PF, n, group="cb")
            return [(st, P(fresh(Ref, "text")))]
        ex.unsup("callback with %d arguments" % len(vs), n)

    # ---- loop invariant templates
    def entries(self, entry, mod=None):
        out = []
        for k, v in entry.env.items():
            if isinstance(v, P) and v.path is None and off_is0(v.off):
                t = self.ex.vtype(k)
                if t is not None and t.k == "ptr" and t.to.k == "struct" and t.to.tag == ENT and (mod is None or k in mod.vars):
                    out.append(k)
        return out

    def blocks(self, entry):
        """local arrays of pointers, and blocks reached through a pointer-to-pointer variable"""
        out = []
        for k, v in entry.env.items():
            if isinstance(v, tuple) and v[0] == "mem" and v[2].k == "arr" and v[2].to.k == "ptr":
                out.append(v[1])
            elif isinstance(v, P) and v.path is None and off_is0(v.off):
                t = self.ex.vtype(k)
                if t is not None and t.k == "ptr" and t.to.k == "ptr":
                    out.append(v.base)
        res = []
        for b in out:
            if not any(b.eq(x) for x in res):
                res.append(b)
        return res

    def keys(self, entry):
        """key values in play"""
        out = []
        for k, v in entry.env.items():
            if isinstance(v, P) and v.path is None and off_is0(v.off):
                t = self.ex.vtype(k)
                if t is not None and t.k == "ptr" and t.to.k == "void" and not any(v.base.eq(x) for x in out):
                    out.append(v.base)
        return out

    def at(self, st, B, i):
        return Select(Select(self.ex.rmap(st, PTR(VOID)), B), i)

    def stop(self, st0, u, i, kr):
        """u is the last entry of level i before rank kr"""
        w, h = self.w, self.h0
        nx = self.fw(st0, u, i)
        return And(Or(u == h, And(w.inS(u), self.rk(st0, u) < kr)), w.lv(u) >= i, Or(nx == NULL, self.rk(st0, nx) >= kr))

    def hints(self, ex, entry, mod, n, cond):
        from core import ex_varname
        c, w, h = self.c, self.w, self.h0
        st0 = c.st0
        out = []
        m, i, j = z3.Const("m", Ref), z3.Int("i"), z3.Int("j")
        L0 = self.f(entry, "level")
        ints = [k for k, v in entry.env.items() if isinstance(v, z3.ExprRef) and z3.is_int(v)]
        mints = [k for k in ints if k in mod.vars]
        # pointers walking through an array count as their offset
        walk = [k for k, v in entry.env.items() if k in mod.vars and isinstance(v, P) and v.path is None and ex.vtype(k) is not None and ex.vtype(k).k == "ptr" and ex.vtype(k).to.k == "ptr"]
        V = lambda st, k: oint(st.env[k].off) if isinstance(st.env[k], P) else st.env[k]
        ents = self.entries(entry, mod)
        on = lambda x: Or(x == h, w.inS(x))
        keys = self.keys(entry)
        nm = lambda k: ex_varname(ex, k)
        for p in ents:
            pv = lambda st, p=p: st.env[p].base
            out.append(Cand(nm(p) + " is the head or an entry", lambda st, pv=pv: on(pv(st))))
            out.append(Cand(nm(p) + " is the head, an entry or NULL", lambda st, pv=pv: Or(pv(st) == NULL, on(pv(st)))))
            for key in keys:
                out.append(Cand("%s precedes the key" % nm(p), lambda st, pv=pv, key=key: Or(pv(st) == h, self.rk(st0, pv(st)) < rank(key))))
            for k in ints + walk:
                out.append(Cand("%s is number %s" % (nm(p), nm(k)), lambda st, pv=pv, k=k: If(pv(st) == NULL, V(st, k) == self.n0, w.ps(pv(st)) == V(st, k))))
                out.append(Cand("%s is before number %s" % (nm(p), nm(k)), lambda st, pv=pv, k=k: w.ps(pv(st)) == V(st, k) - 1))
                if k in walk:
                    continue
                out.append(Cand("%s reaches level %s" % (nm(p), nm(k)), lambda st, pv=pv, k=k: w.lv(pv(st)) >= st.env[k]))
                for B in self.blocks(entry):
                    out.append(Cand("%s is where the walk of the level above %s ended" % (nm(p), nm(k)), lambda st, pv=pv, k=k, B=B: Or(
                        st.env[k] == self.f(st0, "level"), pv(st) == self.at(st, B, st.env[k] + 1))))
            for k in mints:
                v, p0 = entry.env[k], entry.env[p].base
                pos = lambda x: If(x == NULL, self.n0, w.ps(x))
                out.append(Cand("%s counts the entries passed by %s" % (nm(k), nm(p)), lambda st, pv=pv, k=k, v=v, p0=p0: st.env[k] - v == pos(pv(st)) - pos(p0)))
            out.append(Cand("there is an entry behind %s unless it is the last" % nm(p), lambda st, pv=pv: Or(
                pv(st) == NULL, w.ps(pv(st)) + 1 >= self.n0, And(w.inS(w.sq(w.ps(pv(st)) + 1)), w.ps(w.sq(w.ps(pv(st)) + 1)) == w.ps(pv(st)) + 1))))
            for key in mod.heap:
                if key[0] == "f" and key[1] == ENT:
                    out.append(Cand("%s of other blocks is untouched" % key[2], lambda st, key=key: forall(
                        [m], Implies(Not(on(m)), Select(st.heap[key], m) == Select(entry.heap[key], m)), [Select(st.heap[key], m)])))
            # release of a whole list
            out.append(Cand(nm(p) + ": entries passed are released", lambda st, pv=pv: forall(
                [m], Implies(And(on(m), Or(pv(st) == NULL, w.ps(m) < w.ps(pv(st)))), ex.kind(st, m) == 0), [w.inS(m), ex.kind(st, m)])))
            out.append(Cand(nm(p) + ": entries not reached are alive", lambda st, pv=pv: forall(
                [m], Implies(And(on(m), pv(st) != NULL, w.ps(m) >= w.ps(pv(st))), ex.kind(st, m) == K(ENT)), [w.inS(m), ex.kind(st, m)])))
            out.append(Cand(nm(p) + ": other blocks untouched", lambda st: forall(
                [m], Implies(Not(on(m)), ex.kind(st, m) == ex.kind(entry, m)), [ex.kind(st, m)])))
        for k in walk:
            for B in self.blocks(entry):
                out.append(Cand("copied up to " + nm(k), lambda st, k=k, B=B: forall(
                    [i], Implies(And(i >= 0, i < V(st, k)), self.at(st, B, i) == self.datum(st0, w.sq(i))), [self.at(st, B, i)])))
        for k in mints:
            kv = lambda st, k=k: st.env[k]
            for B in self.blocks(entry):
                for key in keys:
                    out.append(Cand("the levels above %s are searched" % nm(k), lambda st, kv=kv, B=B, key=key: forall(
                        [i], Implies(And(i > kv(st), i <= self.f(st0, "level")), self.stop(st0, self.at(st, B, i), i, rank(key))), [self.at(st, B, i)])))
                out.append(Cand("copied up to " + nm(k), lambda st, kv=kv, B=B: forall(
                    [i], Implies(And(i >= 0, i < kv(st)), self.at(st, B, i) == self.datum(st0, w.sq(i))), [self.at(st, B, i)])))
                out.append(Cand("copied %s is kept" % nm(k), lambda st, B=B: forall([i], self.at(st, B, i) == self.at(entry, B, i), [self.at(st, B, i)])))
            out.append(Cand(nm(k) + " is a level", lambda st, kv=kv: And(kv(st) >= 0, kv(st) <= self.f(st0, "level") + 1)))
            out.append(Cand(nm(k) + " is a level or -1", lambda st, kv=kv: And(kv(st) >= -1, kv(st) <= self.f(st0, "level"))))
            # splicing
            e1 = entry.env[k]
            for up in (True, False):
                done = (lambda st, x, kv=kv, e1=e1: And(x >= e1, x < kv(st))) if up else (lambda st, x, kv=kv, e1=e1: And(x <= e1, x > kv(st)))
                way = "rising" if up else "falling"
                for B in self.blocks(entry):
                    for e in self.entries(entry):
                        if e in mod.vars:
                            continue
                        ev = entry.env[e].base

                        def cut(st, done=done, B=B, ev=ev):
                            u = self.at(entry, B, i)
                            return forall([m, i], self.fw(st, m, i) == If(And(done(st, i), m == u, self.fw(entry, m, i) == ev), self.fw(entry, ev, i), self.fw(entry, m, i)), [self.fw(st, m, i)])

                        def put(st, done=done, B=B, ev=ev):
                            u = self.at(entry, B, i)
                            return forall([m, i], self.fw(st, m, i) == If(done(st, i), If(m == u, ev, If(m == ev, self.fw(entry, u, i), self.fw(entry, m, i))), self.fw(entry, m, i)), [self.fw(st, m, i)])
                        out.append(Cand("%s unlinked on the levels passed by %s %s" % (nm(e), way, nm(k)), cut))
                        out.append(Cand("%s linked on the levels passed by %s %s" % (nm(e), way, nm(k)), put))
        if any(k[0] == "f" and k[1] == LST and k[2] == "level" for k in mod.heap):
            out.append(Cand("no entry is above the level", lambda st: And(self.f(st, "level") >= 0, self.f(st, "level") <= L0, forall(
                [i], Implies(And(i > self.f(st, "level"), i <= L0), self.fw(st, h, i) == NULL), [self.fw(st, h, i)]))))
        return out

    def place(self, key):
        """number of entries with a smaller key: the place of the key (it exists because the entries are in increasing order)"""
        c, w = self.c, self.w
        q = z3.Const("q", Ref)
        self.p = z3.Int("place")
        c.requires(self.p >= 0, self.p <= self.n0, forall([q], Implies(w.inS(q), (w.ps(q) < self.p) == (self.rk(c.st, q) < rank(key))), [w.inS(q)]))

    def new_entry(self, st):
        """the entry that stands at the place of the key, and its level: what its block has room for"""
        pred = If(self.p == 0, self.h0, self.w.sq(self.p - 1))
        e = z3.Const("new_entry!", Ref)
        lev = z3.Int("new_level!")
        st.assume(e == self.fw(st, pred, RV(0)))
        st.assume(lev == (self.ex.size(st, e) - self.off) / 8 - 2)
        return e, lev

    def has(self, key):
        """an entry with this key is in the list (entry state)"""
        m = z3.Const("m", Ref)
        return z3.Exists([m], And(self.w.inS(m), self.rk(self.c.st0, m) == rank(key)))


@contract(TU, "sl_create", ["C08", "C20"])
def _create(c):
    s = SL(c, live=False)
    ex = c.ex
    c.requires(Or(s.mem(c.st) == NULL, s.storeinv(c.st)))
    cmp_, key = c.args[0], c.args[1]
    c.allow("internal", Or(toref(cmp_) == NULL, toref(key) == NULL), frame=False, name="a function is missing")
    i = z3.Int("i")

    def hints(ex, entry, mod, n, cond):
        out = []
        for k in mod.vars:
            v = entry.env.get(k)
            if not (isinstance(v, z3.ExprRef) and z3.is_int(v)):
                continue
            for r in [x for x in mod.heap.get(("fa", ENT, s.arr)) or []]:
                out.append(Cand("head pointers set up to here", lambda st, k=k, r=r, v=v: forall(
                    [i], Implies(And(i >= v, i < st.env[k]), s.fw(st, r, i) == NULL), [s.fw(st, r, i)])))
                out.append(Cand("head pointers set from here", lambda st, k=k, r=r, v=v: forall(
                    [i], Implies(And(i <= v, i > st.env[k]), s.fw(st, r, i) == NULL), [s.fw(st, r, i)])))
        return out
    ex.loop_hints = hints
    c.run()
    for st, r in c.returns:
        s.l = r.base
        h = s.f(st, "head")
        w = Wit(lambda m: FALSE, lambda m: If(m == h, RV(MAXL), RV(0)), lambda m: RV(-1), lambda i: NULL)
        for nm, g in zip(s.NAMES, s.wf_goals(st, w)):
            c.ensure(st, "a new skip list: " + nm, g)
        c.ensure(st, "a new skip list is empty", s.f(st, "count") == 0)
        c.ensure(st, "it uses the caller's functions", And(s.f(st, "compare") == toref(c.args[0]), s.f(st, "key") == toref(c.args[1]), s.f(st, "print") == toref(c.args[2])))
        c.ensure(st, "a new skip list is a fresh block", And(ex.kind(c.st0, r.base) == 0, ex.kind(c.st0, h) == 0))
        c.ensure(st, "the object store exists", And(s.mem(st) != NULL, s.storeinv(st), Or(s.mem(c.st0) == NULL, s.mem(st) == s.mem(c.st0))))
        c.frame(st, lambda o: FALSE, globs=("_sl_Memory",))
    c.errors()


@contract(TU, "sl_find", "C08")
def _find(c):
    s = SL(c)
    key = c.args[1].base
    c.run()
    m = z3.Const("m", Ref)
    x = z3.Const("m!sk", Ref)
    for st, r in c.returns:
        c.ensure(st, "a datum returned is one of the list with that key", Implies(r.base != NULL, z3.Exists([m], And(
            s.w.inS(m), s.rk(c.st0, m) == rank(key), s.datum(c.st0, m) == r.base))))
        c.ensure(st, "NULL only when no datum (but NULL) has that key", Implies(And(r.base == NULL, s.w.inS(x), s.datum(c.st0, x) != NULL), s.rk(c.st0, x) != rank(key)))
        c.unchanged(st, "nothing is modified")
    c.errors()


@contract(TU, "sl_insert", "C08", weight=5)
def _insert(c):
    s = SL(c)
    ex, w = c.ex, s.w
    d = c.args[1].base
    kr = rank(KEY(d))
    s.place(KEY(d))
    c.allow("internal", s.has(KEY(d)), name="an equal key is in the list")
    c.run()
    st0 = c.st0
    x = z3.Const("x!sk", Ref)
    for st, r in c.returns:
        p = s.p
        e, lev = s.new_entry(st)
        w1 = Wit(lambda m: Or(w.inS(m), m == e), lambda m: If(m == e, lev, w.lv(m)),
                 lambda m: If(m == e, p, If(And(w.inS(m), w.ps(m) >= p), w.ps(m) + 1, w.ps(m))),
                 lambda i: If(i < p, w.sq(i), If(i == p, e, w.sq(i - 1))))
        s.post(st, w1, "after an insertion")
        c.ensure(st, "one more datum", s.f(st, "count") == s.n0 + 1)
        c.ensure(st, "the new entry holds the datum", s.datum(st, e) == d)
        c.ensure(st, "the new entry is a fresh block", ex.kind(st0, e) == 0)
        c.ensure(st, "the data present stay", Implies(w.inS(x), s.datum(st, x) == s.datum(st0, x)))
        c.ensure(st, "the functions stay", And(s.f(st, "compare") == s.CF, s.f(st, "key") == s.KF, s.f(st, "print") == s.PF))
        c.frame(st, lambda o: Or(o == s.l, o == s.h0, w.inS(o)))
    c.errors()


@contract(TU, "sl_delete", "C08", weight=5)
def _delete(c):
    s = SL(c)
    ex, w = c.ex, s.w
    d = c.args[1].base
    kr = rank(KEY(d))
    s.place(KEY(d))
    c.allow("internal", Not(s.has(KEY(d))), name="the key is not in the list")
    c.run()
    st0 = c.st0
    x = z3.Const("x!sk", Ref)
    for st, r in c.returns:
        e = w.sq(s.p)
        c.ensure(st, "the entry removed was in the list under that key", And(w.inS(e), s.rk(st0, e) == kr))
        c.ensure(st, "its memory is released", ex.kind(st, e) == 0)
        p = w.ps(e)
        w1 = Wit(lambda m: And(w.inS(m), m != e), w.lv, lambda m: If(And(w.inS(m), w.ps(m) > p), w.ps(m) - 1, w.ps(m)), lambda i: If(i < p, w.sq(i), w.sq(i + 1)))
        t = fresh(Ref, "step")
        st.assume(t == s.fw(st, s.h0, w.lv(z3.Const("m!sk1", Ref))))        # names the term the proof needs
        s.post(st, w1, "after a deletion")
        c.ensure(st, "one datum less", s.f(st, "count") == s.n0 - 1)
        c.ensure(st, "the other data stay", Implies(And(w.inS(x), x != e), s.datum(st, x) == s.datum(st0, x)))
        c.ensure(st, "the functions stay", And(s.f(st, "compare") == s.CF, s.f(st, "key") == s.KF, s.f(st, "print") == s.PF))
        c.frame(st, lambda o: Or(o == s.l, o == s.h0, w.inS(o)))
    c.errors()


@contract(TU, "sl_destroy", ["C08", "C20"])
def _destroy(c):
    s = SL(c)
    ex, w = c.ex, s.w
    free = STORE["mem_free_object"]

    def m_free(ex, st, vs, n):
        ex.oblige(st, "retagged before its memory is released", s.f(st, "magic", vs[1].base) != s.M, n)
        return free(ex, st, vs, n)
    ex.models["mem_free_object"] = m_free
    c.run()
    x = z3.Const("x!sk", Ref)
    for st, r in c.returns:
        c.ensure(st, "the list, its head and all entries are released", And(ex.kind(st, s.l) == 0, Implies(Or(x == s.h0, w.inS(x)), ex.kind(st, x) == 0)))
        c.ensure(st, "the skip list module keeps its object store", And(s.mem(st) == s.mem(c.st0), s.storeinv(st)))
        c.frame(st, lambda o: Or(o == s.l, o == s.h0, w.inS(o)))
    c.errors()


def iterate(arg, pure):
    def spec(c):
        s = SL(c)
        ex, w = c.ex, s.w
        ex.hmap(c.st, ("G", "calls"), lambda: z3.ArraySort(IntS, IntS))
        G = lambda st, i: Select(st.heap.get(("G", "calls"), ex.heap0[("G", "calls")]), RV(i))
        c.requires(G(c.st, 0) == 0, G(c.st, 1) == 0, toref(c.args[1]) != NULL)
        c.noframe.add(("G", "calls"))

        def cb(ex, st, fv, vs, n):
            if not s.is_(st, fv, c.args[1]):
                return None
            if len(vs) != (2 if arg else 1):
                ex.unsup("callback with %d arguments" % len(vs), n)
            k = G(st, 0)
            ex.oblige(st, "no call after a non-zero result", G(st, 1) == 0, n, group="cb")
            ex.oblige(st, "presents the next datum in key order", And(k < s.n0, toref(vs[0]) == s.datum(c.st0, w.sq(k))), n, group="cb")
            ex.oblige(st, "the datum presented is greater than those before", Implies(And(k > 0, k < s.n0), s.rk(c.st0, w.sq(k - 1)) < s.rk(c.st0, w.sq(k))), n, group="cb")
            if arg:
                ex.oblige(st, "passes the caller's argument", toref(vs[1]) == toref(c.args[2]), n, group="cb")
            r = fresh(IntS, "cb")
            st.assume(ex.inrange(r, INT))
            h = st.heap.get(("G", "calls"), ex.heap0[("G", "calls")])
            st.heap[("G", "calls")] = Store(Store(h, RV(0), k + 1), RV(1), r)
            if not pure:
                # the function may insert and delete at will: everything but the locals of the iteration may change
                o = z3.Const("o", Ref)
                k0, st_ = ex.kmap(st), None
                for key in list(st.heap):
                    if key[0] in ("g", "G") or key == ("G", "calls"):
                        continue
                    old = st.heap[key]
                    new = fresh(old.sort(), "any")
                    st.assume(forall([o], Implies(Select(k0, o) == STACKBLK, Select(new, o) == Select(old, o)), [Select(new, o)]))
                    st.heap[key] = new
            return [(st, r)]
        s.callback = cb
        hints = s.hints

        def more(ex, entry, mod, n, cond):
            out = hints(ex, entry, mod, n, cond)
            for k in mod.vars:
                v = entry.env.get(k)
                if isinstance(v, z3.ExprRef) and z3.is_int(v):
                    out.append(Cand("as many calls as counted", lambda st, k=k: G(st, 0) == st.env[k]))
            out.append(Cand("no call returned non-zero yet", lambda st: G(st, 1) == 0))
            ex.stopvals = [lambda st: G(st, 1)]
            for B in s.blocks(entry):
                out.append(Cand("the snapshot stays", lambda st, B=B: And(ex.kind(st, B) == STACKBLK, ex.size(st, B) == ex.size(entry, B),
                           *[forall([z3.Int("i")], s.at(st, B, z3.Int("i")) == s.at(entry, B, z3.Int("i")), [s.at(st, B, z3.Int("i"))])])))
            return out
        ex.loop_hints = more
        c.run()
        for st, r in c.returns:
            c.ensure(st, "returns the first non-zero result, or zero", r == G(st, 1))
            c.ensure(st, "zero only after all data were presented", Implies(r == 0, G(st, 0) == s.n0))
            if pure:
                c.unchanged(st, "nothing is modified")
        c.errors()
    return spec


for fn, arg in (("sl_iterate", False), ("sl_iterate_arg", True)):
    contract(TU, fn, "C08")(iterate(arg, True))
    contract(TU, fn, "C08", name=fn + " (callback changes the list)")(iterate(arg, False))


@contract(TU, "_sl_shutdown", "C28")
def _shutdown(c):
    s = SL(c, live=False)
    c.requires(Or(s.mem(c.st) == NULL, s.storeinv(c.st)))
    c.run()
    for st, r in c.returns:
        c.ensure(st, "the store of the nodes is released; the next skip list makes a new one", And(s.mem(st) == NULL, Implies(s.mem(c.st0) != NULL, c.ex.kind(st, s.mem(c.st0)) == 0)))
        c.frame(st, lambda o: o == s.mem(c.st0), globs=("_sl_Memory",))
    c.errors()

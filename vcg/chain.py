"""Common theory of the chained tables (hash.c, set.c): representation, abstraction to a finite map, loop invariant templates.

Abstraction: cls(k) is the equivalence class of a key under the table's comparison function; a table stands for the finite map
  has(c): class present, keyof(c): the stored key pointer, val(c): the stored datum
and node(c) is the chain node holding it (ghost)."""
from spec import *
from absmod import MAGIC

cls = z3.Function("cls", Ref, IntS)
HV = z3.Function("HV", IntS, IntS)
ULONG64 = 1 << 64


def m_next_prime(ex, st, vs, n):
    ex.trusted.add("prm_next_prime (proved for prime.c in C16)")
    a = vs[0]
    r = fresh(IntS, "prime")
    st.assume(r >= 3, r >= a, r < (1 << 32))
    return [(st, r)]


class G:
    """ghost abstraction"""

    def __init__(self, pre=""):
        self.has = z3.Function(pre + "has", IntS, BoolS)
        self.keyof = z3.Function(pre + "keyof", IntS, Ref)
        self.val = z3.Function(pre + "val", IntS, Ref)
        self.node = z3.Function(pre + "node", IntS, Ref)


class Tab:
    def __init__(self, c, tab, node, key, datum, magic):
        self.c, self.ex = c, c.ex
        self.tab, self.node, self.key, self.datum, self.magic = tab, node, key, datum, magic
        ex, st = c.ex, c.st
        self.tt = dict(ex.flat(tab))
        self.nt = dict(ex.flat(node))
        for f, t in self.tt.items():
            ex.fmap(st, tab, f, t)
        for f, t in self.nt.items():
            ex.fmap(st, node, f, t)
        nx = [f for (g, f) in ex.lt_fields() if g == node]
        if len(nx) != 1:
            raise Unsupported("no unique chain field")
        self.next = nx[0]
        ex.ini(st, node, self.next)
        ex.lt(st, node, self.next)
        ex.rmap(st, PTR(VOID))
        self.LN(st)
        ex.models["prm_next_prime"] = m_next_prime
        self.HF, self.CF = z3.Const("HF", Ref), z3.Const("CF", Ref)
        self.g = G()
        ex.indirect = self.indirect
        ex.on_store = self.hook
        c.noframe.add(("G", "LN"))
        self.callback = None
        self.tabs = []

    # ---- accessors
    def f(self, st, name, t):
        return Select(self.ex.fmap(st, self.tab, name, self.tt[name]), t)

    def n(self, st, name, m):
        return Select(self.ex.fmap(st, self.node, name, self.nt[name]), m)

    def B(self, st, t):
        return self.f(st, "buckets", t)

    def at(self, st, B, i):
        return Select(Select(self.ex.rmap(st, PTR(VOID)), B), i)

    def ptr(self, st, t, i):
        return self.at(st, self.B(st, t), i)

    def R(self, st):
        return self.ex.lt(st, self.node, self.next).R

    def k(self, st, m):
        return self.n(st, self.key, m)

    def d(self, st, m):
        return self.n(st, self.datum, m) if self.datum else NULL

    def ini(self, st, m):
        return Select(self.ex.ini(st, self.node, self.next), m)

    def LN(self, st):
        """ghost: the node a key pointer was last stored in"""
        return self.ex.hmap(st, ("G", "LN"), lambda: z3.ArraySort(Ref, Ref))

    def hook(self, ex, st, tag, f, r, w):
        if tag == self.node and f == self.key:
            st.heap[("G", "LN")] = Store(self.LN(st), w, r)

    # ---- representation invariant
    def head(self, st, t, prime3=True):
        ex = self.ex
        B, p = self.B(st, t), self.f(st, "prime", t)
        return [t != NULL, ex.kind(st, t) == K(self.tab), self.f(st, "magic", t) == MAGIC[self.magic], B != NULL, ex.kind(st, B) == RAW, ex.size(st, B) >= 8 * p,
                ex.size(st, B) < (1 << 62), p >= 3, p < (1 << 32), self.f(st, "entries", t) >= 0, self.f(st, "hash", t) == self.HF, self.f(st, "compare", t) == self.CF,
                self.HF != NULL, self.CF != NULL]

    def node_ok(self, st, i, m, p, g):
        ex = self.ex
        k = self.k(st, m)
        c = cls(k)
        return And(ex.kind(st, m) == K(self.node), self.ini(st, m), self.n(st, "hash", m) == HV(c), umod(HV(c), p) == i, g.has(c), g.node(c) == m, g.keyof(c) == k,
                   g.val(c) == self.d(st, m))

    def slot(self, p, c):
        return umod(HV(c), p)

    def has_ok(self, st, t, c, p, g):
        m = g.node(c)
        s = self.slot(p, c)
        return And(m != NULL, self.k(st, m) == g.keyof(c), cls(g.keyof(c)) == c, s >= 0, s < p, self.R(st)(self.ptr(st, t, s), m))

    def wf(self, st, t, g=None):
        g = g or self.g
        i, cc = z3.Ints("i c")
        m = z3.Const("m", Ref)
        p = self.f(st, "prime", t)
        R = self.R(st)
        pi = self.ptr(st, t, i)
        ra = z3.Int("ra")
        return self.head(st, t) + [
            forall([i, m], Implies(And(i >= 0, i < p, R(pi, m), m != NULL), self.node_ok(st, i, m, p, g)), [R(pi, m)]),
            forall([cc], Implies(g.has(cc), self.has_ok(st, t, cc, p, g)), [g.has(cc), g.node(cc)]),
            forall([cc], And(HV(cc) >= 0, HV(cc) < ULONG64), [HV(cc)]),
            forall([cc], Implies(g.has(cc), Select(self.LN(st), g.keyof(cc)) == g.node(cc)), [g.node(cc)]),
        ]

    def wf_goal(self, st, t, g, nm="the table stays well formed"):
        c = self.c
        i, cc = z3.Ints("i!sk c!sk")
        m = z3.Const("m!sk", Ref)
        p = self.f(st, "prime", t)
        c.ensure(st, nm + " (header)", And(*self.head(st, t)))
        c.ensure(st, nm + " (every chained node stands for one entry, in its chain)", Implies(And(i >= 0, i < p, self.R(st)(self.ptr(st, t, i), m), m != NULL), self.node_ok(st, i, m, p, g)))
        c.ensure(st, nm + " (every entry has its node)", Implies(g.has(cc), self.has_ok(st, t, cc, p, g)))

    def setup(self, ro=None):
        c = self.c
        st = c.st
        self.t = t = c.args[0].base
        c.requires(*self.wf(st, t))
        c.requires(self.f(st, "entries", t) < (1 << 60), self.f(st, "prime", t) * 3 < 4294967291)
        for s in ("retrievals", "hits", "misses", "resizings"):
            if s in self.tt:
                c.requires(self.f(st, s, t) >= 0, self.f(st, s, t) < (1 << 60))
        if ro is not None:
            r = self.f(st, "readonly", t)
            c.requires(r != 0 if ro else r == 0)
        self.tabs = [t]
        return t

    def on0(self, m, g=None):
        """m is a node of the table on entry"""
        g = g or self.g
        c0 = cls(self.k(self.c.st0, m))
        return And(g.has(c0), g.node(c0) == m, m != NULL)

    def place0(self, m, t=None):
        return umod(HV(cls(self.k(self.c.st0, m))), self.f(self.c.st0, "prime", t if t is not None else self.t))

    def foot(self, t=None, g=None):
        t = t if t is not None else self.t
        B = self.B(self.c.st0, t)
        return lambda o: Or(o == t, o == B, self.on0(o, g))

    def newg(self, st, has, keyof, val):
        g = G.__new__(G)
        g.has, g.keyof, g.val = has, keyof, val
        LN = self.LN(st)
        g.node = lambda c: Select(LN, keyof(c))
        return g

    def grown(self, st, t, nm="footprint grows by fresh blocks only"):
        """the new footprint: table, bucket array, chain nodes"""
        m, i = z3.Const("m!sk", Ref), z3.Int("i!sk")
        ex, c = self.ex, self.c
        B = self.B(st, t)
        f0 = self.foot(t)
        c.ensure(st, nm, And(Or(f0(B), ex.kind(c.st0, B) == 0), Implies(
            And(i >= 0, i < self.f(st, "prime", t), self.R(st)(self.ptr(st, t, i), m), m != NULL), Or(f0(m), ex.kind(c.st0, m) == 0))))

    # ---- calls through pointers
    def indirect(self, ex, st, fv, vs, n):
        b = fv.base
        b = z3.simplify(b) if isinstance(b, z3.ExprRef) else b

        def is_(x):
            return b.eq(x) or ex.quick_unsat(st, b != x)
        if len(vs) == 1 and is_(self.HF):
            ex.trusted.add("the table's hash function is a pure function of the key's class")
            r = HV(cls(toref(vs[0])))
            st.assume(r >= 0, r < ULONG64)
            return [(st, r)]
        if len(vs) == 2 and is_(self.CF):
            ex.trusted.add("the table's comparison function is zero exactly for keys of one class")
            r = fresh(IntS, "cmp")
            st.assume(ex.inrange(r, INT), (r == 0) == (cls(toref(vs[0])) == cls(toref(vs[1]))))
            return [(st, r)]
        if self.callback is not None:
            return self.callback(ex, st, fv, vs, n)
        ex.unsup("call of an unknown function pointer", n)

    # ---- candidate templates
    def nodeptrs(self, entry):
        ex = self.ex
        return [k for k, v in entry.env.items() if isinstance(v, P) and v.path is None and self.isnodeptr(k)]

    def isnodeptr(self, k):
        t = self.ex.vtype(k)
        return t is not None and t.k == "ptr" and t.to.k == "struct" and t.to.tag == self.node

    def tabptrs(self, entry):
        ex = self.ex
        out = []
        for k, v in entry.env.items():
            if isinstance(v, P) and v.path is None and off_is0(v.off):
                t = ex.vtype(k)
                if t is not None and t.k == "ptr" and t.to.k == "struct" and t.to.tag == self.tab:
                    if not any(v.base.eq(x) for _, x in out):
                        out.append((k, v.base))
        return out

    def ints(self, entry):
        ex = self.ex
        out = []
        for k, v in entry.env.items():
            if isinstance(v, z3.ExprRef) and z3.is_int(v):
                t = ex.vtype(k)
                if t is not None and t.k == "int" and t.bits >= 32:
                    out.append(k)
        return out

    def indices(self, entry, mod):
        """index variables: those the loop changes, or (inner loops) not parameters"""
        ex = self.ex
        out = []
        for k in self.ints(entry):
            v = z3.simplify(entry.env[k])
            out.append(k)
        return out

    def walkers(self, entry, mod):
        return [k for k in self.nodeptrs(entry) if k in mod.vars]

    def reach(self, st, t, i, m):
        return self.R(st)(self.ptr(st, t, i), m)

    def h_init(self, entry, mod):
        """freshly created bucket arrays are NULL below the index"""
        out = []
        j = z3.Int("j")
        for k, base in self.tabptrs(entry):
            for ik in self.ints(entry):
                if ik not in mod.vars:
                    continue
                out.append(Cand("entries below the index are empty", lambda st, base=base, ik=ik: forall(
                    [j], Implies(And(j >= 0, j < st.env[ik]), self.ptr(st, base, j) == NULL), [self.ptr(st, base, j)])))
                e = entry.env[ik]
                out.append(Cand("entries from the start to the index are empty", lambda st, base=base, ik=ik, e=e: forall(
                    [j], Implies(And(j >= e, j < st.env[ik]), self.ptr(st, base, j) == NULL), [self.ptr(st, base, j)])))
                out.append(Cand("entries after the start and up to the index are empty", lambda st, base=base, ik=ik, e=e: forall(
                    [j], Implies(And(j > e, j <= st.env[ik]), self.ptr(st, base, j) == NULL), [self.ptr(st, base, j)])))
                out.append(Cand("entries from the index up are empty", lambda st, base=base, ik=ik: forall(
                    [j], Implies(And(j >= st.env[ik], j < self.f(st, "prime", base)), self.ptr(st, base, j) == NULL), [self.ptr(st, base, j)])))
                out.append(Cand("entries above the index are empty", lambda st, base=base, ik=ik: forall(
                    [j], Implies(And(j > st.env[ik], j < self.f(st, "prime", base)), self.ptr(st, base, j) == NULL), [self.ptr(st, base, j)])))
                out.append(Cand("index below the table size", lambda st, base=base, ik=ik: st.env[ik] <= self.f(st, "prime", base)))
        return out

    def h_walk(self, entry, mod, key=None):
        """walking one chain with a current and possibly a previous pointer"""
        out = []
        w = self.walkers(entry, mod)
        links = [k for k, v in entry.env.items() if isinstance(v, P) and v.path == (self.node, self.next) and k in mod.vars]
        m = z3.Const("m", Ref)
        for a in links:
            for b in w:
                out.append(Cand("%s points into %s" % (ex_name(self.ex, a), ex_name(self.ex, b)), lambda st, a=a, b=b: st.env[a].base == st.env[b].base))
        if links:
            for a in w + links:
                pa = lambda st, a=a: st.env[a].base
                out.append(Cand("%s is a node" % ex_name(self.ex, a), lambda st, pa=pa: pa(st) != NULL))
                if key is not None:
                    out.append(Cand("%s does not have the key" % ex_name(self.ex, a), lambda st, pa=pa: cls(self.k(st, pa(st))) != cls(key)))
        for a in w + links:
            ea = entry.env[a].base
            pa = lambda st, a=a: st.env[a].base
            out.append(Cand("%s stays on the chain" % ex_name(self.ex, a), lambda st, pa=pa, ea=ea: self.R(st)(ea, pa(st))))
            if key is not None:
                out.append(Cand("no node before %s has the key" % ex_name(self.ex, a), lambda st, pa=pa, ea=ea: forall(
                    [m], Implies(And(self.R(st)(ea, m), m != NULL, Not(self.R(st)(pa(st), m))), cls(self.k(st, m)) != cls(key)), [self.R(st)(ea, m)])))
            for b in w:
                if b is a:
                    continue
                eb = entry.env[b].base
                pb = lambda st, b=b: st.env[b].base
                out.append(Cand("%s is the node before %s" % (ex_name(self.ex, a), ex_name(self.ex, b)), lambda st, pa=pa, pb=pb, eb=eb: If(
                    pa(st) == NULL, pb(st) == eb, And(self.R(st)(eb, pa(st)), self.n(st, self.next, pa(st)) == pb(st)))))
                if key is not None:
                    out.append(Cand("%s (before) does not have the key" % ex_name(self.ex, a), lambda st, pa=pa: Or(pa(st) == NULL, cls(self.k(st, pa(st))) != cls(key))))
        return out

    def done(self, st, i, p, t=None, g=None):
        """entry-state nodes before position (i, p)"""
        R = self.R(st)

        def f(m):
            pl = self.place0(m, t)
            if isinstance(i, tuple):
                x, how = i
                before = {"down": pl > x, "down from": pl >= x, "up to": pl <= x}[how]
                i0 = x
            else:
                before, i0 = pl < i, i
            if p is None:
                return And(self.on0(m, g), before)
            return And(self.on0(m, g), Or(before, And(pl == i0, Not(R(p, m)))))
        return f

    def steps(self):
        """locals of the function (and of those inlined) that are counted down; those counted up before the test"""
        ex = self.ex
        down, pre = set(), set()
        for _, fr, fn in ex.fstack:
            todo = [fn["body"]]
            while todo:
                x = todo.pop()
                k, op = x.get("kind"), x.get("opcode")
                if k == "UnaryOperator" and op in ("++", "--") or k == "CompoundAssignOperator" and op in ("-=", "+="):
                    v = x["inner"][0]
                    while v.get("kind") == "ParenExpr":
                        v = v["inner"][0]
                    d = v.get("referencedDecl", {}).get("id")
                    if d is not None:
                        if op[0] == "-":
                            down.add((fr, d))
                        elif k == "UnaryOperator" and not x.get("isPostfix"):
                            pre.add((fr, d))
                todo += [y for y in x.get("inner", []) if y]
        return down, pre

    def positions(self, entry, mod):
        """candidate positions in a traversal: (index variable, walker or None)"""
        out = []
        w = [k for k in self.nodeptrs(entry)]
        down, pre = self.steps()
        for ik in self.ints(entry):
            ways = [ik] + ([Step(ik, "down"), Step(ik, "down from")] if ik in down else []) + ([Step(ik, "up to")] if ik in pre else [])
            for x in ways:
                if ik in mod.vars:
                    out.append((x, None))
                for pk in w:
                    if pk in mod.vars and getattr(x, "how", "") not in ("down from", "up to"):
                        out.append((x, pk))
        return out

    def pos(self, st, ik, pk):
        i = st.env[ik]
        return (i, ik.how) if isinstance(ik, Step) else i, (None if pk is None else st.env[pk].base)

    def h_range(self, entry, mod, t):
        out = []
        for ik in self.ints(entry):
            if ik in mod.vars:
                out.append(Cand("index at most the table size", lambda st, ik=ik: st.env[ik] <= self.f(self.c.st0, "prime", t)))
        return out

    def h_old(self, entry, mod, t, g=None):
        """the chains of a table are as on entry"""
        j, m = z3.Int("j"), z3.Const("m", Ref)
        st0 = self.c.st0
        B0, p0 = self.B(st0, t), self.f(st0, "prime", t)
        out = [Cand("chains of the table as on entry", lambda st: forall(
            [j, m], Implies(And(j >= 0, j < p0), self.R(st)(self.at(st0, B0, j), m) == self.R(st0)(self.at(st0, B0, j), m)),
            [self.R(st)(self.at(st0, B0, j), m), self.R(st0)(self.at(st0, B0, j), m)])),
            Cand("bucket array as on entry", lambda st: Select(self.ex.rmap(st, PTR(VOID)), B0) == Select(self.ex.rmap(st0, PTR(VOID)), B0))]
        for nm in list(self.nt):
            out.append(Cand("field %s of the table's nodes as on entry" % nm, lambda st, nm=nm: forall(
                [m], Implies(self.on0(m, g), self.n(st, nm, m) == self.n(st0, nm, m)), [self.n(st, nm, m)])))
        out.append(Cand("nodes of the table alive", lambda st: forall([m], Implies(self.on0(m, g), And(self.ex.kind(st, m) == K(self.node), self.ini(st, m))), [self.ex.kind(st, m)])))
        for pk in self.walkers(entry, mod):
            for ik in self.ints(entry):
                out.append(Cand("%s is in chain %s" % (ex_name(self.ex, pk), ex_name(self.ex, ik)), lambda st, ik=ik, pk=pk: And(
                    st.env[ik] >= 0, st.env[ik] < p0, self.R(st0)(self.at(st0, B0, st.env[ik]), st.env[pk].base))))
        return out

    def h_copy(self, entry, mod, t, g=None, sel=None):
        """every entry passed so far (and selected) is in the new table, and nothing else"""
        g = g or self.g
        c, ex = self.c, self.ex
        st0 = c.st0
        j, m, cc = z3.Int("j"), z3.Const("m", Ref), z3.Int("c")
        out = [Cand("blocks alive on entry keep their kind", lambda st: forall(
            [m], Implies(ex.kind(st0, m) > 0, ex.kind(st, m) == ex.kind(st0, m)), [ex.kind(st, m)]))]
        for nk, nb in self.tabptrs(entry):
            if any(nb.eq(x) for x in self.tabs):
                continue
            for ik, pk in self.positions(entry, mod):
                def content(part):
                    def fn(st, nb=nb, ik=ik, pk=pk):
                        i, p = self.pos(st, ik, pk)
                        dn = self.done(st, i, p, t, g)
                        np = self.f(st, "prime", nb)
                        r = self.R(st)(self.ptr(st, nb, j), m)
                        k = self.k(st, m)
                        q = cls(k)
                        goal = [And(ex.kind(st, m) == K(self.node), self.ini(st, m), ex.kind(st0, m) == 0),
                                And(self.n(st, "hash", m) == HV(q), umod(HV(q), np) == j),
                                And(g.has(q), g.keyof(q) == k, self.d(st, m) == g.val(q)),
                                Select(self.LN(st), k) == m,
                                And(dn(g.node(q)), sel(q) if sel else TRUE)][part]
                        return forall([j, m], Implies(And(j >= 0, j < np, r, m != NULL), goal), [r])
                    return fn

                def complete(st, nb=nb, ik=ik, pk=pk):
                    i, p = self.pos(st, ik, pk)
                    dn = self.done(st, i, p, t, g)
                    np = self.f(st, "prime", nb)
                    x = Select(self.LN(st), g.keyof(cc))
                    s = self.slot(np, cc)
                    return forall([cc], Implies(And(g.has(cc), dn(g.node(cc)), sel(cc) if sel else TRUE), And(
                        x != NULL, self.k(st, x) == g.keyof(cc), s >= 0, s < np, self.R(st)(self.ptr(st, nb, s), x))), [g.node(cc), g.has(cc)])
                nm = "(%s,%s)" % (ex_name(ex, ik), ex_name(ex, pk) if pk else "-")
                for x, w in enumerate(("are fresh nodes", "hang in their chain", "are entries", "are the node of their key", "belong to entries passed so far")):
                    out.append(Cand("copied nodes %s %s" % (w, nm), content(x)))
                out.append(Cand("every entry passed so far is copied " + nm, complete))
        return out

    def h_release(self, entry, mod, t, g=None):
        ex, c = self.ex, self.c
        m = z3.Const("m", Ref)
        out = []
        k_e = ex.kmap(entry)
        on = lambda x: self.on0(x, g)
        out.append(Cand("other blocks untouched", lambda st: forall([m], Implies(Not(on(m)), ex.kind(st, m) == Select(k_e, m)), [ex.kind(st, m)])))
        for ik, pk in self.positions(entry, mod):
            def todo(st, ik=ik, pk=pk):
                i, p = self.pos(st, ik, pk)
                dn = self.done(st, i, p, t, g)
                return forall([m], Implies(And(on(m), Not(dn(m))), ex.kind(st, m) == K(self.node)), [ex.kind(st, m)])

            def dead(st, ik=ik, pk=pk):
                i, p = self.pos(st, ik, pk)
                dn = self.done(st, i, p, t, g)
                return forall([m], Implies(dn(m), ex.kind(st, m) == 0), [ex.kind(st, m), self.k(c.st0, m)])
            nm = "(%s,%s)" % (ex_name(ex, ik), ex_name(ex, pk) if pk else "-")
            out.append(Cand("nodes not reached yet are alive " + nm, todo))
            out.append(Cand("nodes passed are released " + nm, dead))
        return out


class Step(tuple):
    """index variable (as a key of the environment) with the way it walks"""
    def __new__(cls_, k, how):
        s = tuple.__new__(cls_, k)
        s.how = how
        return s


def ex_name(ex, k):
    from core import ex_varname
    return ex_varname(ex, tuple(k)) + (" " + k.how if isinstance(k, Step) else "")


# ---------------------------------------------------------------- iteration with a callback
class Iter:
    """a walk of the entry-state table t0 that presents entries to an unknown callback.
    Ghosts: seen[c] (class presented), stop (a callback returned non-zero)."""

    def __init__(self, T, t, cbarg, nargs, userarg=None, mutates=True):
        self.T, self.t, self.cb, self.userarg, self.mutates, self.nargs = T, t, cbarg, userarg, mutates, nargs
        c, ex = T.c, T.ex
        self.c, self.ex = c, ex
        st = c.st
        self.p0, self.B0 = T.f(st, "prime", t), T.B(st, t)
        cc = z3.Int("c")
        ex.hmap(st, ("G", "seen"), lambda: z3.ArraySort(IntS, BoolS))
        ex.hmap(st, ("G", "stop"), lambda: z3.ArraySort(IntS, IntS))
        c.requires(forall([cc], Not(self.seen(st, cc)), [self.seen(st, cc)]), self.stop(st) == 0, toref(cbarg) != NULL)
        c.noframe.update([("G", "seen"), ("G", "stop")])
        T.callback = self.call

    def seen(self, st, c):
        return Select(st.heap.get(("G", "seen"), self.ex.heap0[("G", "seen")]), c)

    def stop(self, st):
        return Select(st.heap.get(("G", "stop"), self.ex.heap0[("G", "stop")]), RV(0))

    def call(self, ex, st, fv, vs, n):
        T, c, g = self.T, self.c, self.T.g
        ex.oblige(st, "the function called is the caller's", toref(fv) == toref(self.cb), n, group="cb")
        ex.oblige(st, "no call after a non-zero result", self.stop(st) == 0, n, group="cb")
        if len(vs) != self.nargs:
            ex.unsup("callback with %d arguments" % len(vs), n)
        key = toref(vs[0])
        q = cls(key)
        ex.oblige(st, "presents an entry of the table with its own key", And(g.has(q), g.keyof(q) == key), n, group="cb")
        if T.datum:
            ex.oblige(st, "presents the entry's own datum", toref(vs[1]) == g.val(q), n, group="cb")
        if self.userarg is not None:
            ex.oblige(st, "passes the caller's argument", toref(vs[-1]) == toref(self.userarg), n, group="cb")
        ex.oblige(st, "presents no entry twice", Not(self.seen(st, q)), n, group="cb")
        h = st.heap.get(("G", "seen"), ex.heap0[("G", "seen")])
        st.heap[("G", "seen")] = Store(h, q, TRUE)
        r = fresh(IntS, "cb")
        st.assume(ex.inrange(r, INT))
        sp = st.heap.get(("G", "stop"), ex.heap0[("G", "stop")])
        st.heap[("G", "stop")] = Store(sp, RV(0), r)
        if self.mutates == "stats":      # lookups by the callback are counted
            for f in ("retrievals", "hits", "misses"):
                k = ("f", T.tab, f)
                st.heap[k] = Store(ex.fmap(st, T.tab, f, T.tt[f]), self.t, fresh(IntS, "cb"))
                st.assume(ex.inrange(T.f(st, f, self.t), T.tt[f]))
        elif self.mutates:
            self.disturb(st)
        return [(st, r)]

    def unseen(self, st, m):
        return And(self.T.on0(m), Not(self.seen(st, cls(self.T.k(self.c.st0, m)))))

    def fresh_chain(self, st, j):
        b = self.T.at(self.c.st0, self.B0, j)
        return Or(b == NULL, Not(self.seen(st, cls(self.T.k(self.c.st0, b)))))

    def disturb(self, st, others=None):
        """the callback may have deleted or released the entries presented so far (others: what is known to stay besides)"""
        ex, T, c = self.ex, self.T, self.c
        m, j = z3.Const("m", Ref), z3.Int("j")
        for k in sorted(set(st.heap) | {x for x in ex.heap0 if x[0] != "lt"}, key=str):
            if k[0] in ("g", "G", "gh", "lt"):
                continue
            h = st.heap.get(k, ex.heap0.get(k))
            if h is None or not z3.is_array(h):
                continue
            new = fresh(h.sort(), "cb")
            own = TRUE if not (k[0] == "f" and k[1] == T.tab and k[2] == "entries") else FALSE
            keep = Or(self.unseen(st, m), And(m == self.t, own), Select(ex.kmap(c.st0), m) == STACKBLK)
            if k[0] in ("kind", "size"):
                keep = Or(keep, m == self.B0)
            if others is not None:
                f = forall([m], Implies(others(m), Select(new, m) == Select(h, m)), [Select(new, m)])
                st.assume(f)
                ex.slim.append(f)
            st.assume(forall([m], Implies(keep, Select(new, m) == Select(h, m)), [Select(new, m)]))
            if k == ("r", "ptr"):
                a, b = Select(new, self.B0), Select(h, self.B0)
                st.assume(forall([j], Implies(self.fresh_chain(st, j), Select(a, j) == Select(b, j)), [Select(a, j)]))
            st.heap[k] = new
        ex.new_lt(st, T.node, T.next)

    def passed(self, i, p):
        return self.T.done(self.c.st0, i, p)

    def hints(self, entry, mod):
        T, ex, c, g, t = self.T, self.ex, self.c, self.T.g, self.t
        st0 = c.st0
        m, j, cc = z3.Const("m", Ref), z3.Int("j"), z3.Int("c")
        out = [Cand("no callback asked to stop", lambda st: self.stop(st) == 0)]
        ex.stopvals = [self.stop]
        for nm in list(T.nt):
            out.append(Cand("field %s of entries not presented yet" % nm, lambda st, nm=nm: forall(
                [m], Implies(self.unseen(st, m), T.n(st, nm, m) == T.n(st0, nm, m)), [T.n(st, nm, m)])))
        out.append(Cand("entries not presented yet are alive", lambda st: forall([m], Implies(self.unseen(st, m), ex.kind(st, m) == K(T.node)), [ex.kind(st, m)])))
        out.append(Cand("entries not presented yet are linked", lambda st: forall([m], Implies(self.unseen(st, m), T.ini(st, m)), [T.ini(st, m)])))
        out.append(Cand("chains not presented yet are in place", lambda st: forall(
            [j], And(T.R(st0)(T.at(st0, self.B0, j), T.at(st0, self.B0, j)),
                     Implies(self.fresh_chain(st, j), T.at(st, self.B0, j) == T.at(st0, self.B0, j))), [T.at(st, self.B0, j)])))
        for nm in list(T.tt):
            out.append(Cand("field %s of the table as on entry" % nm, lambda st, nm=nm: T.f(st, nm, t) == T.f(st0, nm, t)))
        out.append(Cand("table and bucket array alive", lambda st: And(ex.kind(st, t) == K(T.tab), ex.kind(st, self.B0) == RAW, ex.size(st, self.B0) == ex.size(st0, self.B0))))
        for pk in T.walkers(entry, mod):
            for ik in T.ints(entry):
                out.append(Cand("%s is in chain %s" % (ex_name(ex, pk), ex_name(ex, ik)), lambda st, ik=ik, pk=pk: And(
                    st.env[ik] >= 0, st.env[ik] < self.p0, T.R(st0)(T.at(st0, self.B0, st.env[ik]), st.env[pk].base))))
        for ik, pk in T.positions(entry, mod):
            def f(st, ik=ik, pk=pk):
                i, p = T.pos(st, ik, pk)
                dn = self.passed(i, p)
                return Or(self.stop(st) != 0, forall([cc], Implies(g.has(cc), self.seen(st, cc) == dn(g.node(cc))), [self.seen(st, cc), g.node(cc), g.has(cc)]))
            out.append(Cand("presented are exactly the entries passed (%s,%s)" % (ex_name(ex, ik), ex_name(ex, pk) if pk else "-"), f))
        return out

    def post(self, st, ret):
        c, g = self.c, self.T.g
        cc = z3.Int("c!sk")
        c.ensure(st, "a full pass presents every entry", Implies(ret == 0, Implies(g.has(cc), self.seen(st, cc))))
        c.ensure(st, "zero exactly when no callback asked to stop", (ret == 0) == (self.stop(st) == 0))


# ---------------------------------------------------------------- statistics: sums over the chains
class Sums:
    """prefix sums over the bucket array on entry: chain lengths, used buckets, buckets of one entry, longest chain"""

    def __init__(self, T, t):
        self.T, self.t = T, t
        c, ex = T.c, T.ex
        st = c.st
        self.LS, self.BU, self.SI, self.MX = [z3.Function(n, IntS, IntS) for n in ("sum_len", "used_buckets", "single_buckets", "max_len")]
        self.len0 = lambda j: ex.lt(c.st0, T.node, T.next).ln(T.ptr(c.st0, t, j))
        j = z3.Int("j")
        ln = ex.lt(st, T.node, T.next).ln
        L = ln(T.ptr(st, t, j))
        step = And(L >= 0, L < (1 << 31), self.LS(j + 1) == self.LS(j) + L, self.BU(j + 1) == self.BU(j) + If(L > 0, RV(1), RV(0)),
                   self.SI(j + 1) == self.SI(j) + If(L == 1, RV(1), RV(0)), self.MX(j + 1) == If(L > self.MX(j), L, self.MX(j)))
        c.requires(self.LS(0) == 0, self.BU(0) == 0, self.SI(0) == 0, self.MX(0) == 0,
                   forall([j], Implies(j >= 0, step), [T.ptr(st, t, j)]),
                   forall([j], Implies(j >= 0, And(*[And(x(j) >= 0, x(j) < (1 << 62)) for x in (self.LS, self.BU, self.SI, self.MX)])), [self.LS(j)]),
                   # meta lemma: the entries are the chained nodes
                   self.LS(T.f(st, "prime", t)) == T.f(st, "entries", t))

    def hints(self, entry, mod):
        T, ex = self.T, self.ex if hasattr(self, "ex") else self.T.ex
        out = []
        ln = lambda st: ex.lt(st, T.node, T.next).ln
        for a in T.walkers(entry, mod):
            ea = entry.env[a].base
            for k in T.ints(entry):
                if k in mod.vars:
                    e = entry.env[k]
                    out.append(Cand("%s counts the nodes before %s" % (ex_name(ex, k), ex_name(ex, a)), lambda st, a=a, k=k, e=e, ea=ea: And(
                        st.env[k] + ln(st)(st.env[a].base) == e + ln(T.c.st0)(ea), st.env[k] >= e)))
        for key in mod.heap:
            if key[0] != "f":
                continue
            for k in T.ints(entry):
                if k not in mod.vars:
                    continue
                for b in self.records(entry, key[1]):
                    for nm, F in (("entries", self.LS), ("used buckets", self.BU), ("single buckets", self.SI), ("longest chain", self.MX)):
                        out.append(Cand("%s.%s is the %s below %s" % (key[1], key[2], nm, ex_name(ex, k)), lambda st, key=key, k=k, F=F, b=b: And(
                            Select(st.heap.get(key, ex.heap0.get(key)), b) == F(st.env[k]))))
        # the same in local variables
        for k in T.ints(entry):
            for v in T.ints(entry):
                if k != v and k in mod.vars and v in mod.vars:
                    for nm, F in (("entries", self.LS), ("used buckets", self.BU), ("single buckets", self.SI), ("longest chain", self.MX)):
                        out.append(Cand("%s is the %s below %s" % (ex_name(ex, v), nm, ex_name(ex, k)), lambda st, k=k, F=F, v=v: st.env[v] == F(st.env[k])))
        return out

    def records(self, entry, tag):
        ex = self.T.ex
        out = []
        for k, v in entry.env.items():
            if isinstance(v, P) and v.path is None:
                t = ex.vtype(k)
                if t is not None and t.k == "ptr" and t.to.k == "struct" and t.to.tag == tag and not any(v.base.eq(x) for x in out):
                    out.append(v.base)
        return out


def stats_spec(make, TU, rec, size_field):
    def spec(c):
        T_ = make(c)
        t = T_.setup()
        ex = c.ex
        for f, ty in ex.flat(rec):
            ex.fmap(c.st, rec, f, ty)
        sm = Sums(T_, t)
        ex.loop_hints = lambda ex_, e, mod, n, cond: T_.h_range(e, mod, t) + T_.h_old(e, mod, t) + T_.h_walk(e, mod) + sm.hints(e, mod)
        c.run()
        p0 = T_.f(c.st0, "prime", t)
        for st, r in c.returns:
            g = lambda f: Select(ex.fmap(st, rec, f, dict(ex.flat(rec))[f]), r.base)
            c.ensure(st, "a fresh record", And(r.base != NULL, ex.kind(c.st0, r.base) == 0, ex.kind(st, r.base) == K(rec)))
            c.ensure(st, "entries counted", g("entries") == T_.f(c.st0, "entries", t))
            c.ensure(st, "size of the table", g("size") == p0)
            c.ensure(st, "chains in use", g("buckets_used") == sm.BU(p0))
            c.ensure(st, "chains of one entry", g("singletons") == sm.SI(p0))
            c.ensure(st, "longest chain", g("maximum_length") == sm.MX(p0))
            for f in ("resizings", "retrievals", "hits", "misses"):
                if f in T_.tt:
                    c.ensure(st, "statistics: " + f, g(f) == T_.f(c.st0, f, t))
            c.frame(st, lambda o: FALSE)
        c.errors()
    return spec

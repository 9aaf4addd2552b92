"""maa/hash.c : a hash table is a finite map"""
from chain import *

TU = "hash.c"


def T(c):
    return Tab(c, "table", "bucket", "key", "datum", "HSH_MAGIC")


def stats_same(T, st, t, but=()):
    return And(*[T.f(st, s, t) == T.f(T.c.st0, s, t) for s in ("retrievals", "hits", "misses", "resizings", "readonly", "magic", "hash", "compare") if s not in but and s in T.tt])


@contract(TU, "hsh_create", ["C01", "C21"], weight=2)
def _create(c):
    T_ = T(c)
    ex = c.ex
    hf, cf = c.args[0].base, c.args[1].base
    c.requires(T_.HF == If(hf != NULL, hf, fnref("hsh_string_hash")), T_.CF == If(cf != NULL, cf, fnref("hsh_string_compare")), T_.HF != NULL, T_.CF != NULL)
    ex.loop_hints = lambda ex_, e, mod, n, cond: T_.h_init(e, mod)
    c.run()
    for st, r in c.returns:
        g = T_.newg(st, lambda q: FALSE, lambda q: NULL, lambda q: NULL)
        T_.wf_goal(st, r.base, g, "a new table is well formed and empty")
        c.ensure(st, "no entries", T_.f(st, "entries", r.base) == 0)
        c.ensure(st, "writable, statistics zero", And(*[T_.f(st, s, r.base) == 0 for s in ("readonly", "retrievals", "hits", "misses", "resizings")]))
        c.ensure(st, "fresh", And(ex.kind(c.st0, r.base) == 0, ex.kind(c.st0, T_.B(st, r.base)) == 0))
        c.frame(st, lambda o: FALSE)
    c.errors()


@contract(TU, "hsh_retrieve", ["C01", "C03"], weight=2)
def _retrieve(c):
    T_ = T(c)
    t = T_.setup()
    g, k = T_.g, c.args[1].base
    q = cls(k)
    ex = c.ex
    ex.loop_hints = lambda ex_, e, mod, n, cond: T_.h_walk(e, mod, k)
    c.run()
    st0 = c.st0
    for st, r in c.returns:
        c.ensure(st, "the datum of the key, NULL when absent", r.base == If(g.has(q), g.val(q), NULL))
        T_.wf_goal(st, t, T_.newg(st, g.has, g.keyof, g.val))
        c.ensure(st, "entry count unchanged", T_.f(st, "entries", t) == T_.f(st0, "entries", t))
        c.ensure(st, "statistics", And(T_.f(st, "retrievals", t) == T_.f(st0, "retrievals", t) + 1,
                                       T_.f(st, "misses", t) == T_.f(st0, "misses", t) + If(g.has(q), RV(0), RV(1)),
                                       T_.f(st, "hits", t) == T_.f(st0, "hits", t) + If(And(g.has(q), T_.ptr(st0, t, T_.slot(T_.f(st0, "prime", t), q)) == g.node(q)), RV(1), RV(0)),
                                       stats_same(T_, st, t, ("retrievals", "hits", "misses"))))
        m, i = z3.Const("m!sk", Ref), z3.Int("i!sk")
        c.ensure(st, "a read-only table is not reordered", Implies(T_.f(st0, "readonly", t) != 0, And(
            T_.ptr(st, t, i) == T_.ptr(st0, t, i), T_.n(st, T_.next, m) == T_.n(st0, T_.next, m))))
        c.frame(st, T_.foot())
        T_.grown(st, t)
    c.errors()


@contract(TU, "hsh_insert", ["C01", "C03"], weight=9)
def _insert(c):
    T_ = T(c)
    t = T_.setup()
    g, k, d = T_.g, c.args[1].base, c.args[2].base
    q = cls(k)
    ex = c.ex

    def hints(ex_, e, mod, n, cond):
        out = T_.h_init(e, mod) + T_.h_walk(e, mod, k) + T_.h_range(e, mod, t)
        out += T_.h_old(e, mod, t)
        out += T_.h_copy(e, mod, t)
        out += T_.h_release(e, mod, t)
        return out
    ex.loop_hints = hints
    c.allow("internal", T_.f(c.st, "readonly", t) != 0, name="read-only table")
    c.run()
    st0 = c.st0
    for st, r in c.returns:
        c.ensure(st, "1 exactly when the key was present", r == If(g.has(q), RV(1), RV(0)))
        n = T_.newg(st, lambda x: Or(g.has(x), x == q), lambda x: If(g.has(x), g.keyof(x), k), lambda x: If(g.has(x), g.val(x), d))
        T_.wf_goal(st, t, n)
        c.ensure(st, "entry count", T_.f(st, "entries", t) == T_.f(st0, "entries", t) + If(g.has(q), RV(0), RV(1)))
        c.ensure(st, "other statistics unchanged", stats_same(T_, st, t, ("resizings",)))
        c.frame(st, T_.foot())
        T_.grown(st, t)
    c.errors()


@contract(TU, "hsh_delete", ["C01", "C03"], weight=2)
def _delete(c):
    T_ = T(c)
    t = T_.setup()
    g, k = T_.g, c.args[1].base
    q = cls(k)
    ex = c.ex
    ex.loop_hints = lambda ex_, e, mod, n, cond: T_.h_walk(e, mod, k)
    # the map is finite: a present entry is counted
    c.requires(Implies(g.has(q), T_.f(c.st, "entries", t) >= 1))
    c.allow("internal", T_.f(c.st, "readonly", t) != 0, name="read-only table")
    c.run()
    st0 = c.st0
    for st, r in c.returns:
        c.ensure(st, "0 exactly when the key was present", r == If(g.has(q), RV(0), RV(1)))
        n = T_.newg(st, lambda x: And(g.has(x), x != q), g.keyof, g.val)
        T_.wf_goal(st, t, n)
        c.ensure(st, "entry count", T_.f(st, "entries", t) == T_.f(st0, "entries", t) - If(g.has(q), RV(1), RV(0)))
        c.ensure(st, "the entry's memory is released", Implies(g.has(q), ex.kind(st, g.node(q)) == 0))
        c.ensure(st, "statistics unchanged", stats_same(T_, st, t))
        c.frame(st, T_.foot())
        T_.grown(st, t)
    c.errors()


@contract(TU, "hsh_destroy", ["C01", "C03", "C20"], weight=2)
def _destroy(c):
    T_ = T(c)
    t = T_.setup()
    ex = c.ex

    def hints(ex_, e, mod, n, cond):
        return T_.h_range(e, mod, t) + T_.h_old(e, mod, t) + T_.h_release(e, mod, t)
    ex.loop_hints = hints
    c.allow("internal", T_.f(c.st, "readonly", t) != 0, name="read-only table")
    c.run()
    m = z3.Const("m!sk", Ref)
    for st, r in c.returns:
        c.ensure(st, "all of the table's memory is released", And(ex.kind(st, t) == 0, ex.kind(st, T_.B(c.st0, t)) == 0, Implies(T_.on0(m), ex.kind(st, m) == 0)))
        c.ensure(st, "retagged before its memory is released", T_.f(st, "magic", t) != MAGIC["HSH_MAGIC"])
        c.frame(st, T_.foot())
    c.errors()


@contract(TU, "hsh_readonly", "C03")
def _readonly(c):
    T_ = T(c)
    t = T_.setup()
    c.run()
    st0 = c.st0
    for st, r in c.returns:
        c.ensure(st, "returns the previous value", r == T_.f(st0, "readonly", t))
        c.ensure(st, "sets the flag", T_.f(st, "readonly", t) == c.args[1])
        c.unchanged(st, "nothing else changes", but=[("f", "table", "readonly")])
        c.frame(st, lambda o: o == t)
    c.errors()


# ---------------------------------------------------------------- iteration
def iterate(nargs):
    def spec(c):
        T_ = T(c)
        t = T_.setup()
        it = Iter(T_, t, c.args[1], nargs, c.args[2] if len(c.args) > 2 else None)
        ex = c.ex
        ex.loop_hints = lambda ex_, e, mod, n, cond: T_.h_range(e, mod, t) + it.hints(e, mod)
        c.run()
        for st, r in c.returns:
            it.post(st, r)
            for f in ("prime", "buckets", "readonly", "magic"):
                c.ensure(st, "iteration itself does not touch the table (%s)" % f, T_.f(st, f, t) == T_.f(c.st0, f, t))
        c.errors_only()
    return spec


contract(TU, "hsh_iterate", "C02", weight=2)(iterate(2))
contract(TU, "hsh_iterate_arg", "C02", weight=2)(iterate(3))


def passed(T_, b):
    """entries before position b in bucket-and-chain order (b NULL: all)"""
    st0 = T_.c.st0
    pb = T_.place0(b)
    return lambda m: And(T_.on0(m), Or(b == NULL, T_.place0(m) < pb, And(T_.place0(m) == pb, Not(T_.R(st0)(b, m)))))


@contract(TU, "hsh_init_position", ["C02", "C03"])
def _init(c):
    T_ = T(c)
    t = T_.setup()
    c.ex.loop_hints = lambda ex_, e, mod, n, cond: T_.h_range(e, mod, t) + T_.h_init(e, mod)
    c.run()
    m = z3.Const("m!sk", Ref)
    for st, r in c.returns:
        c.ensure(st, "a position of the table", Or(r.base == NULL, T_.on0(r.base)))
        c.ensure(st, "no entry lies before it", Not(passed(T_, r.base)(m)))
        c.ensure(st, "the table is write protected during the walk", T_.f(st, "readonly", t) == If(r.base == NULL, T_.f(c.st0, "readonly", t), RV(1)))
        c.unchanged(st, "nothing else changes", but=[("f", "table", "readonly")])
        c.frame(st, lambda o: o == t)
    c.errors()


@contract(TU, "hsh_next_position", ["C02", "C03"])
def _next(c):
    T_ = T(c)
    t = T_.setup()
    b = c.args[1].base
    c.requires(Or(b == NULL, T_.on0(b)))
    c.ex.loop_hints = lambda ex_, e, mod, n, cond: T_.h_range(e, mod, t) + T_.h_init(e, mod)
    c.run()
    m = z3.Const("m!sk", Ref)
    for st, r in c.returns:
        p, q = passed(T_, b), passed(T_, r.base)
        c.ensure(st, "a position of the table", Or(r.base == NULL, T_.on0(r.base)))
        c.ensure(st, "exactly the entry of the old position is passed", Implies(And(b != NULL, T_.on0(m)), q(m) == Or(p(m), m == b)))
        c.ensure(st, "no position after the end", Implies(b == NULL, r.base == NULL))
        c.ensure(st, "the write protection ends with the walk", T_.f(st, "readonly", t) == If(r.base == NULL, RV(0), T_.f(c.st0, "readonly", t)))
        c.unchanged(st, "nothing else changes", but=[("f", "table", "readonly")])
        c.frame(st, lambda o: o == t)
    c.errors()


@contract(TU, "hsh_get_position", "C02")
def _getpos(c):
    T_ = T(c)
    ex, st = c.ex, c.st
    b, kp = c.args[0].base, c.args[1]
    c.requires(Or(b == NULL, ex.kind(st, b) == K("bucket")), kp.base != NULL, Or(ex.kind(st, kp.base) == STACKBLK, ex.kind(st, kp.base) == RAW), ex.size(st, kp.base) >= 8)
    c.run()
    for st, r in c.returns:
        c.ensure(st, "the entry's datum, NULL past the end", r.base == If(b == NULL, NULL, T_.d(c.st0, b)))
        c.ensure(st, "the entry's key, NULL past the end", T_.at(st, kp.base, RV(0)) == If(b == NULL, NULL, T_.k(c.st0, b)))
        c.frame(st, lambda o: o == kp.base)
    c.errors()


# ---------------------------------------------------------------- keys
def string_arg(c, k, pre):
    ex, st = c.ex, c.st
    p = c.args[k]
    n = z3.Int(pre)
    c.requires(n >= 0, n < (1 << 62), Implies(p.base != NULL, And(ex.kind(st, p.base) > 0, ex.size(st, p.base) == n + 1, ch(ex, st, p, n) == 0, nz_below(ex, st, p, n))))
    return p, n


@contract(TU, "hsh_string_hash", "C17")
def _shash(c):
    from lib import ch
    ex, st = c.ex, c.st
    p, n = string_arg(c, 0, "slen")
    SH = z3.Function("SH", IntS, IntS)
    i = z3.Int("i")
    M = 1 << 64
    step = lambda h, x: (((h + x % M) % M) * 2654435789) % M
    # the hash as a function of the characters alone (instantiated where a character is looked at)
    c.requires(SH(0) == 0, forall([i], Implies(And(i >= 0, i < n), SH(i + 1) == step(SH(i), ch(ex, st, p, i))), [ch(ex, st, p, i)]))

    def hints(ex_, e, mod, node, cond):
        out = []
        for k, v in e.env.items():
            t = ex.vtype(k)
            if t is None:
                continue
            if isinstance(v, P) and k in mod.vars:
                off = lambda st, k=k: oint(st.env[k].off)
                out.append(Cand("inside the string", lambda st, off=off: And(off(st) >= 0, off(st) <= n)))
                for h in e.env:
                    th = ex.vtype(h)
                    if th is not None and th.k == "int" and h in mod.vars:
                        out.append(Cand("hash of the characters passed", lambda st, off=off, h=h: st.env[h] == SH(off(st))))
            elif t.k == "int" and k in mod.vars:
                out.append(Cand("index inside the string", lambda st, k=k: And(st.env[k] >= 0, st.env[k] <= n)))
                for h in e.env:
                    th = ex.vtype(h)
                    if h is not k and th is not None and th.k == "int" and h in mod.vars:
                        out.append(Cand("hash of the characters passed", lambda st, k=k, h=h: st.env[h] == SH(st.env[k])))
        return out
    ex.loop_hints = hints
    c.allow("internal", p.base == NULL, name="NULL key")
    c.run()
    for st, r in c.returns:
        c.ensure(st, "a function of the characters up to the terminator", r == SH(n))
        c.frame(st, lambda o: FALSE)
    c.errors()


@contract(TU, "hsh_string_compare", "C17")
def _scmp(c):
    from lib import ch
    ex, st = c.ex, c.st
    p, n = string_arg(c, 0, "len1")
    q, m = string_arg(c, 1, "len2")
    c.allow("internal", Or(p.base == NULL, q.base == NULL), name="NULL key")
    ex.strlen_fun = lambda ex, st, x: n if x.base.eq(p.base) and off_is0(x.off) else m if x.base.eq(q.base) and off_is0(x.off) else None
    c.run()
    i = z3.Int("i!sk")
    j = z3.Int("i")
    for st, r in c.returns:
        c.ensure(st, "equal only when the characters agree", Implies(r == 0, And(n == m, Implies(And(i >= 0, i < n), ch(ex, c.st0, p, i) == ch(ex, c.st0, q, i)))))
        same = And(n == m, forall([j], Implies(And(j >= 0, j < n), ch(ex, c.st0, p, j) == ch(ex, c.st0, q, j)), [ch(ex, c.st0, p, j)]))
        c.ensure(st, "equal whenever the characters agree", Implies(same, r == 0))
        c.frame(st, lambda o: FALSE)
    c.errors()


@contract(TU, "hsh_pointer_hash", "C17")
def _phash(c):
    ex = c.ex
    k = c.args[0]
    pb = z3.Function("byte_of_pointer", Ref, IntS, IntS)
    ex.rmap(c.st, CHAR), ex.rmap(c.st, PTR(VOID))
    st0 = c.st.copy()
    ex.ptr_bytes = pb
    outs = c.run()
    n1 = list(c.returns)
    c.st = st0
    outs = c.run()
    for s1, r1 in n1:
        for s2, r2 in c.returns:
            x = s2.copy()
            x.pc = s1.pc + s2.pc
            c.ensure(x, "two calls for one pointer give one value", r1 == r2)
    for s1, r1 in n1:
        c.frame(s1, lambda o: FALSE)
    c.errors()


@contract(TU, "hsh_pointer_compare", "C17")
def _pcmp(c):
    ex = c.ex
    k, l = c.args
    ad = p2i
    c.requires(*[And(ad(x.base) >= 0, ad(x.base) < (1 << 63), i2p(ad(x.base)) == x.base) for x in (k, l)])
    c.run()
    for st, r in c.returns:
        c.ensure(st, "zero exactly for the same pointer", (r == 0) == (k.base == l.base))
        c.ensure(st, "ordered by address", (r < 0) == (ad(k.base) < ad(l.base)))
        c.frame(st, lambda o: FALSE)
    c.errors()

contract(TU, "hsh_get_stats", ["C01"], weight=2)(stats_spec(T, TU, "hsh_Stats", "prime"))

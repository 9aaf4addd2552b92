"""Contracts of library functions used from other translation units (each is itself proved against its body in its own unit), and of the
allocating C library functions."""
from core import *
from lib import ch, nz_below, m_strlen
import re, os


def magics():
    """tag constants of the handles, from the header"""
    out = {}
    try:
        for m in re.finditer(r"^#define\s+(\w*MAGIC\w*)\s+(0x[0-9a-fA-F]+)", open(os.environ.get("VCG_REPO", "/repo") + "/maa/maa.h").read(), re.M):
            v = int(m.group(2), 16)
            out[m.group(1)] = v - (1 << 32) if v >= 1 << 31 else v
    except OSError:
        pass
    return out


MAGIC = magics()


# ---------------------------------------------------------------- stacks (contract proved in specs/stack.py)
def slen(ex, st):
    return ex.hmap(st, ("G", "stk_len"), lambda: z3.ArraySort(Ref, IntS))


def sat(ex, st):
    return ex.hmap(st, ("G", "stk_at"), lambda: z3.ArraySort(Ref, z3.ArraySort(IntS, Ref)))


def stk_len(ex, st, s):
    return Select(slen(ex, st), s)


def stk_at(ex, st, s, i):
    return Select(Select(sat(ex, st), s), i)


def _stk(ex, st, v, n):
    slen(ex, st), sat(ex, st)
    ex.oblige(st, "a live stack is passed", And(v.base != NULL, ex.kind(st, v.base) == K("stack")), n, group="pre")
    st.assume(stk_len(ex, st, v.base) >= 0)
    ex.trusted.add("stk_* (proved for stack.c in C07)")
    return v.base


def m_stk_create(ex, st, vs, n):
    r = ex.alloc(st, fresh(IntS, "sz"), "stk")
    ex.set_kind(st, r, K("stack"))
    st.heap[("G", "stk_len")] = Store(slen(ex, st), r, RV(0))
    return [(st, P(r))]


def m_stk_push(ex, st, vs, n):
    s = _stk(ex, st, vs[0], n)
    L = stk_len(ex, st, s)
    st.heap[("G", "stk_at")] = Store(sat(ex, st), s, Store(Select(sat(ex, st), s), L, toref(vs[1])))
    st.heap[("G", "stk_len")] = Store(slen(ex, st), s, L + 1)
    return [(st, None)]


def m_stk_pop(ex, st, vs, n):
    s = _stk(ex, st, vs[0], n)
    L = stk_len(ex, st, s)
    t, f = ex.branch(st, L > 0)
    out = []
    if f is not None:
        out.append((f, P(NULL)))
    if t is not None:
        r = stk_at(ex, t, s, L - 1)
        t.heap[("G", "stk_len")] = Store(slen(ex, t), s, L - 1)
        out.append((t, P(r)))
    return out


def m_stk_top(ex, st, vs, n):
    s = _stk(ex, st, vs[0], n)
    L = stk_len(ex, st, s)
    t, f = ex.branch(st, L > 0)
    out = []
    if f is not None:
        out.append((f, P(NULL)))
    if t is not None:
        out.append((t, P(stk_at(ex, t, s, L - 1))))
    return out


def m_stk_isempty(ex, st, vs, n):
    s = _stk(ex, st, vs[0], n)
    return [(st, ex.b2i(stk_len(ex, st, s) == 0))]


def m_stk_destroy(ex, st, vs, n):
    s = _stk(ex, st, vs[0], n)
    ex.set_kind(st, s, 0)
    return [(st, None)]


STACK = dict(stk_create=m_stk_create, stk_push=m_stk_push, stk_pop=m_stk_pop, stk_top=m_stk_top, stk_isempty=m_stk_isempty, stk_destroy=m_stk_destroy)


# ---------------------------------------------------------------- allocation
def m_xstrdup(ex, st, vs, n):
    ex.trusted.add("xstrdup (proved for xmalloc.c in C21)")
    s = vs[0]
    [(st, L)] = m_strlen(ex, st, [s], n)
    r = ex.alloc(st, L + 1, "dup")
    h = ex.rmap(st, CHAR)
    new = fresh(h.range(), "dup")
    i = z3.Int("i")
    src = ch(ex, st, s, i)
    st.assume(forall([i], Implies(And(i >= 0, i <= L), Select(new, i) == src), [Select(new, i)]))
    st.assume(Select(new, L) == 0)
    st.heap[("r", "i8")] = Store(h, r, new)
    return [(st, P(r))]


def m_xrealloc(ex, st, vs, n):
    ex.trusted.add("xrealloc (proved for xmalloc.c in C21)")
    p, k = vs
    t, f = ex.branch(st, toref(p) != NULL)
    out = []
    if f is not None:
        out.append((f, P(ex.alloc(f, k, "ra"))))
    if t is not None:
        ex.oblige(t, "realloc of a live block", And(TRUE if p.path is None and off_is0(p.off) else FALSE, ex.kind(t, p.base) > 0, ex.kind(t, p.base) != STACKBLK), n, group="mem")
        osz, okind = ex.size(t, p.base), ex.kind(t, p.base)
        r = ex.alloc(t, k, "ra")
        i = z3.Int("i")
        for key in [x for x in set(t.heap) | set(ex.heap0) if x[0] == "r"]:
            h = t.heap.get(key)
            if h is None:
                h = t.heap[key] = ex.heap0[key]
            esz = {"i8": 1, "ptr": 8}.get(key[1]) or (int(key[1][1:]) // 8 if key[1][1:].isdigit() else 8)
            new = fresh(h.range(), "ra")
            old = Select(h, p.base)
            t.assume(forall([i], Implies(And(i >= 0, (i + 1) * esz <= osz, (i + 1) * esz <= k), Select(new, i) == Select(old, i)), [Select(new, i)]))
            t.heap[key] = Store(h, r, new)
        ex.set_kind(t, r, okind)
        ex.set_kind(t, p.base, 0)
        out.append((t, P(r)))
    return out


def m_realloc(ex, st, vs, n):
    s2 = st.copy()
    tr = set(ex.trusted)
    out = m_xrealloc(ex, st, vs, n)
    ex.trusted = tr | {"realloc"}
    return out + [(s2, P(NULL))]


def m_calloc(ex, st, vs, n, null=True):
    ex.trusted.add("calloc" if null else "xcalloc (proved for xmalloc.c in C21)")
    s2 = st.copy()
    k = vs[0] * vs[1]
    r = ex.alloc(st, k, "ca")
    ex.__dict__.setdefault("zeroed", {})[r.get_id()] = r
    for key, z in ((("r", "i8"), RV(0)), (("r", "ptr"), NULL)):
        h = ex.rmap(st, CHAR if key[1] == "i8" else PTR(VOID))
        i = z3.Int("i")
        new = fresh(h.range(), "ca")
        st.assume(forall([i], Select(new, i) == z, [Select(new, i)]))
        st.heap[key] = Store(h, r, new)
    return [(st, P(r))] + ([(s2, P(NULL))] if null else [])


MODELS.update(STACK)
MODELS.update(xstrdup=m_xstrdup, xrealloc=m_xrealloc, realloc=m_realloc, calloc=m_calloc, xcalloc=lambda ex, st, vs, n: m_calloc(ex, st, vs, n, False))


# ---------------------------------------------------------------- string memory (contract proved in specs/memory.py, C09)
def strmem_maps(ex, st):
    ex.hmap(st, ("G", "g_len"), lambda: z3.ArraySort(Ref, IntS))
    ex.hmap(st, ("G", "g_ch"), lambda: z3.ArraySort(Ref, z3.ArraySort(IntS, IntS)))
    ex.hmap(st, ("G", "owner"), lambda: z3.ArraySort(Ref, Ref))
    ex.rmap(st, CHAR)


def g_len(ex, st, i):
    return Select(st.heap.get(("G", "g_len"), ex.heap0.get(("G", "g_len"))), i)


def g_ch(ex, st, i):
    return Select(st.heap.get(("G", "g_ch"), ex.heap0.get(("G", "g_ch"))), i)


def _gset(st, key, i, v):
    st.heap[("G", key)] = Store(st.heap[("G", key)], i, v)


def _info(ex, st, p, n, what):
    strmem_maps(ex, st)
    for k in ("g_len", "g_ch", "owner"):
        st.heap.setdefault(("G", k), ex.heap0[("G", k)])
    ex.trusted.add("mem_* of string memory (proved under C09)")
    t, f = ex.branch(st, p.base != NULL)
    if f is not None and not ex.mute:
        ex.exits.append(("internal", f, ex.where(n)))
    if t is not None:
        ex.oblige(t, "%s is given a live string memory" % what, And(ex.kind(t, p.base) == K("stringInfo"), BoolVal(p.path is None and off_is0(p.off))), n, group="pre")
    return t


def _newstr(ex, st, info, ln, get):
    """fresh block of ln + 1 bytes with the given characters and a terminator"""
    sz = fresh(IntS, "sz")
    st.assume(sz > ln)
    r = ex.alloc(st, sz, "str")
    h = ex.rmap(st, CHAR)
    new = fresh(h.range(), "str")
    i = z3.Int("i")
    st.assume(forall([i], Implies(And(i >= 0, i < ln), Select(new, i) == get(i)), [Select(new, i)]), Select(new, ln) == 0)
    st.heap[("r", "i8")] = Store(h, r, new)
    _gset(st, "g_len", info, RV(0))
    _gset(st, "owner", r, info)
    return P(r)


def readable(ex, st, p, ln, n, what):
    ex.oblige(st, "%s: the length is not negative" % what, ln >= 0, n, group="pre")
    lit = ex.ctab.get(p.base.get_id())
    if lit is not None and lit[0].eq(p.base):
        ex.oblige(st, "%s: all bytes read belong to the literal" % what, And(oint(p.off) >= 0, oint(p.off) + ln <= len(lit[1])), n, group="mem")
        return
    ex.oblige(st, "%s: all bytes read belong to a live block" % what, Implies(ln > 0, And(p.base != NULL, ex.kind(st, p.base) > 0, oint(p.off) >= 0, oint(p.off) + ln <= ex.size(st, p.base))), n, group="mem")


def m_mem_create_strings(ex, st, vs, n):
    strmem_maps(ex, st)
    for k in ("g_len", "g_ch", "owner"):
        st.heap.setdefault(("G", k), ex.heap0[("G", k)])
    r = ex.alloc(st, fresh(IntS, "sz"), "smem")
    ex.set_kind(st, r, K("stringInfo"))
    _gset(st, "g_len", r, RV(0))
    return [(st, P(r))]


def m_mem_strcpy(ex, st, vs, n):
    st = _info(ex, st, vs[0], n, "mem_strcpy")
    if st is None:
        return []
    s = vs[1]
    [(st, L)] = m_strlen(ex, st, [s], n)
    old = st.copy()
    return [(st, _newstr(ex, st, vs[0].base, L, lambda i: ch(ex, old, s, i)))]


def m_mem_strncpy(ex, st, vs, n):
    st = _info(ex, st, vs[0], n, "mem_strncpy")
    if st is None:
        return []
    s, L = vs[1], vs[2]
    readable(ex, st, s, L, n, "mem_strncpy")
    old = st.copy()
    return [(st, _newstr(ex, st, vs[0].base, L, lambda i: ch(ex, old, s, i)))]


def m_mem_grow(ex, st, vs, n):
    st = _info(ex, st, vs[0], n, "mem_grow")
    if st is None:
        return []
    i, s, L = vs[0].base, vs[1], vs[2]
    readable(ex, st, s, L, n, "mem_grow")
    g, a = g_len(ex, st, i), g_ch(ex, st, i)
    new = fresh(a.sort(), "grown")
    k = z3.Int("k")
    st.assume(forall([k], Select(new, k) == If(k < g, Select(a, k), ch(ex, st, s, k - g)), [Select(new, k)]))
    _gset(st, "g_ch", i, new)
    _gset(st, "g_len", i, g + L)
    return [(st, None)]


def m_mem_finish(ex, st, vs, n):
    st = _info(ex, st, vs[0], n, "mem_finish")
    if st is None:
        return []
    i = vs[0].base
    g, a = g_len(ex, st, i), g_ch(ex, st, i)
    return [(st, _newstr(ex, st, i, g, lambda k: Select(a, k)))]


def m_mem_destroy_strings(ex, st, vs, n):
    st = _info(ex, st, vs[0], n, "mem_destroy_strings")
    if st is None:
        return []
    i = vs[0].base
    k0, ow = ex.kmap(st), st.heap[("G", "owner")]
    k1 = fresh(k0.sort(), "kind")
    m = z3.Const("m", Ref)
    st.assume(forall([m], Select(k1, m) == If(Or(m == i, Select(ow, m) == i), RV(0), Select(k0, m)), [Select(k1, m)]))
    st.heap[("kind",)] = k1
    return [(st, None)]


STRMEM = dict(mem_create_strings=m_mem_create_strings, mem_strcpy=m_mem_strcpy, mem_strncpy=m_mem_strncpy, mem_grow=m_mem_grow, mem_finish=m_mem_finish,
              mem_destroy_strings=m_mem_destroy_strings)


# ---------------------------------------------------------------- hash tables with the default (string) functions, as maps from string contents
sid_f = z3.Function("sid", Ref, IntS, IntS)


def sid(st, p):
    """identity of the contents of the string at p (strings used as names are not modified while the library runs: assumption)"""
    return sid_f(p.base, oint(p.off))


def hash_maps(ex, st):
    ex.hmap(st, ("G", "t_in"), lambda: z3.ArraySort(Ref, z3.ArraySort(IntS, BoolS)))
    ex.hmap(st, ("G", "t_map"), lambda: z3.ArraySort(Ref, z3.ArraySort(IntS, Ref)))
    ex.hmap(st, ("G", "t_ro"), lambda: z3.ArraySort(Ref, IntS))
    ex.hmap(st, ("G", "t_key"), lambda: z3.ArraySort(Ref, z3.ArraySort(IntS, Ref)))


def hash_models(ex, st, sid=sid):
    hash_maps(ex, st)
    TR = "hash table functions (proved in hash.c: C01, C02, C17)"

    def g(st, k):
        return st.heap.get(("G", k), ex.heap0[("G", k)])

    def put(st, k, v):
        st.heap[("G", k)] = v

    def live(st, p, n):
        ex.trusted.add(TR)
        ex.oblige(st, "a live hash table is passed", And(p.base != NULL, ex.kind(st, p.base) == K("table")), n, group="pre")
        return p.base

    def num(v):
        return z3.BitVecVal(v, 32) if ex.mode == "bv" else RV(v)

    def create(ex, st, vs, n):
        ex.trusted.add(TR)
        for v in vs:
            if not (isinstance(v, P) and v.base.eq(NULL)):
                ex.unsup("hash table with own functions", n)
        r = ex.alloc(st, fresh(IntS, "sz"), "table")
        ex.set_kind(st, r, K("table"))
        put(st, "t_in", Store(g(st, "t_in"), r, z3.K(IntS, FALSE)))
        put(st, "t_ro", Store(g(st, "t_ro"), r, RV(0)))
        return [(st, P(r))]

    def insert(ex, st, vs, n):
        h = live(st, vs[0], n)
        st, no = ex.branch(st, Select(g(st, "t_ro"), h) == 0)
        if no is not None and not ex.mute:
            ex.exits.append(("internal", no, ex.where(n)))
        if st is None:
            return []
        s = sid(st, vs[1])
        was = Select(Select(g(st, "t_in"), h), s)
        m, k = Select(g(st, "t_map"), h), Select(g(st, "t_key"), h)
        put(st, "t_map", Store(g(st, "t_map"), h, Store(m, s, If(was, Select(m, s), toref(vs[2])))))
        put(st, "t_key", Store(g(st, "t_key"), h, Store(k, s, If(was, Select(k, s), toref(vs[1])))))
        put(st, "t_in", Store(g(st, "t_in"), h, Store(Select(g(st, "t_in"), h), s, TRUE)))
        return [(st, If(was, num(1), num(0)))]

    def retrieve(ex, st, vs, n):
        h = live(st, vs[0], n)
        s = sid(st, vs[1])
        return [(st, P(If(Select(Select(g(st, "t_in"), h), s), Select(Select(g(st, "t_map"), h), s), NULL)))]

    def delete(ex, st, vs, n):
        h = live(st, vs[0], n)
        st, no = ex.branch(st, Select(g(st, "t_ro"), h) == 0)
        if no is not None and not ex.mute:
            ex.exits.append(("internal", no, ex.where(n)))
        if st is None:
            return []
        s = sid(st, vs[1])
        inn = Select(g(st, "t_in"), h)
        put(st, "t_in", Store(g(st, "t_in"), h, Store(inn, s, FALSE)))
        return [(st, If(Select(inn, s), num(0), num(1)))]

    def destroy(ex, st, vs, n):
        h = live(st, vs[0], n)
        ex.set_kind(st, h, 0)
        return [(st, None)]

    def iterate(ex, st, vs, n):
        """callbacks that go on (checked on an arbitrary entry) and either change nothing or release their datum"""
        h = live(st, vs[0], n)
        f = vs[1]
        if not isinstance(f, F) or f.name not in ex.tu.funcs:
            ex.unsup("iteration with an unknown callback", n)
        s = fresh(IntS, "entry")
        t = st.copy()
        inn, m = Select(g(st, "t_in"), h), Select(g(st, "t_map"), h)
        t.assume(Select(inn, s))
        kills = set()
        for o, v in ex.call(f.name, [P(Select(Select(g(st, "t_key"), h), s)), P(Select(m, s))] + vs[2:], t, n):
            ex.oblige(o, "the iteration goes on", v == 0, n, assume=False)
            dead = False
            for k in o.heap:
                old = st.heap.get(k, ex.heap0.get(k))
                if old is None or o.heap[k].eq(old):
                    continue
                r = z3.Const("r!any", Ref)
                if ex.prove(o.pc, Select(o.heap[k], r) == Select(old, r)) == "unsat" if k[0] not in ("g",) else False:
                    continue
                if k == ("kind",) and ex.prove(o.pc, Select(o.heap[k], r) == If(r == Select(m, s), RV(0), Select(old, r))) == "unsat":
                    dead = True
                    continue
                ex.unsup("iteration callback with effects", n)
            kills.add(dead)
        if kills == {False} or not kills:
            return [(st, num(0))]
        if kills != {True}:
            ex.unsup("iteration callback with effects on some entries", n)
        a, b = z3.Ints("s!a s!b")
        ex.oblige(st, "no datum is released twice", Implies(And(a != b, Select(inn, a), Select(inn, b)), Select(m, a) != Select(m, b)), n, assume=False)
        k0 = ex.kmap(st)
        k1 = fresh(k0.sort(), "kind")
        who = fresh_fun("who", Ref, IntS)
        r = z3.Const("r", Ref)
        st.assume(forall([a], Implies(Select(inn, a), Select(k1, Select(m, a)) == 0), [Select(m, a)]),
                  forall([r], Or(Select(k1, r) == Select(k0, r), And(Select(k1, r) == 0, Select(inn, who(r)), Select(m, who(r)) == r)), [Select(k1, r)]))
        st.heap[("kind",)] = k1
        return [(st, num(0))]

    # walks: an enumeration of the contents present, fixed while the table is not modified
    it, idx = z3.Function("walk", IntS, IntS), z3.Function("walk_index", IntS, IntS)
    pos, ipos = z3.Function("position", IntS, Ref), z3.Function("position_index", Ref, IntS)
    num_entries = z3.Int("walk_length")
    a = z3.Int("a")
    ex.walk = dict(it=it, idx=idx, pos=pos, ipos=ipos, n=num_entries, axioms=lambda inn: [
        num_entries >= 0, forall([a], Implies(And(a >= 0, a < num_entries), And(Select(inn, it(a)), idx(it(a)) == a, pos(a) != NULL, ipos(pos(a)) == a)), [it(a), pos(a)]),
        forall([a], Implies(Select(inn, a), And(idx(a) >= 0, idx(a) < num_entries, it(idx(a)) == a)), [idx(a), Select(inn, a)])])

    def at(j):
        return If(j < num_entries, pos(j), NULL)

    def initpos(ex, st, vs, n):
        h = live(st, vs[0], n)
        ro = g(st, "t_ro")
        put(st, "t_ro", Store(ro, h, If(num_entries > 0, RV(1), Select(ro, h))))
        return [(st, P(at(RV(0))))]

    def valid(st, p, n):
        r = toref(p)
        ex.oblige(st, "a position of this table (or NULL)", Or(r == NULL, And(ipos(r) >= 0, ipos(r) < num_entries, r == pos(ipos(r)))), n, group="pre")
        return r

    def nextpos(ex, st, vs, n):
        h = live(st, vs[0], n)
        r = valid(st, vs[1], n)
        ro = g(st, "t_ro")
        nx = If(r == NULL, NULL, at(ipos(r) + 1))
        put(st, "t_ro", Store(ro, h, If(nx == NULL, RV(0), Select(ro, h))))
        return [(st, P(nx))]

    def getpos(ex, st, vs, n):
        r = valid(st, vs[0], n)
        h = ex.walk["table"]
        s = it(ipos(r))
        ex.store(st, ex.deref(st, vs[1], PTR(VOID), n), P(If(r == NULL, NULL, Select(Select(g(st, "t_key"), h), s))), PTR(VOID), n)
        return [(st, P(If(r == NULL, NULL, Select(Select(g(st, "t_map"), h), s))))]

    def readonly(ex, st, vs, n):
        h = live(st, vs[0], n)
        ro = g(st, "t_ro")
        old = Select(ro, h)
        put(st, "t_ro", Store(ro, h, z3.BV2Int(vs[1], True) if ex.mode == "bv" else vs[1]))
        return [(st, z3.Int2BV(old, 32) if ex.mode == "bv" else old)]

    ex.models.update(hsh_init_position=initpos, hsh_next_position=nextpos, hsh_get_position=getpos, hsh_readonly=readonly)
    ex.models.update(hsh_create=create, hsh_insert=insert, hsh_delete=delete, hsh_retrieve=retrieve, hsh_destroy=destroy, hsh_iterate=iterate, hsh_iterate_arg=iterate)

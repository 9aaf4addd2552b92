"""Assumed contracts of the C library functions the code calls (the trusted base)."""
from core import *


def ch(ex, st, p, i=0):
    """i-th char behind a char pointer (no access check)"""
    tab = ex.ctab.get(p.base.get_id())
    off = oint(p.off) + i if not (off_is0(p.off)) else (i if isinstance(i, z3.ExprRef) else RV(i))
    off = z3.simplify(off) if isinstance(off, z3.ExprRef) else RV(off)
    if tab is not None and tab[0].eq(p.base) and p.path is None:
        if z3.is_int_value(off):
            j = off.as_long()
            return RV(tab[1][j]) if 0 <= j < len(tab[1]) else RV(0)
        if tab[2].get("name") == "string literal" and len(tab[1]) <= 16:
            v = RV(0)
            for j, x in enumerate(tab[1]):
                v = If(off == j, RV(x), v)
            return v
    if p.path is not None:
        return Select(Select(ex.famap(st, p.path[0], p.path[1], CHAR), p.base), off)
    return Select(Select(ex.rmap(st, CHAR), p.base), off)


def nz_below(ex, st, p, n):
    """all characters below index n are non-zero"""
    j = z3.Int("j")
    body = Implies(And(j >= 0, j < n), ch(ex, st, p, j) != 0)
    return forall([j], body, [ch(ex, st, p, j)])


def within(ex, st, p, a, b, f):
    """f holds of the characters from index a below b (stated over absolute positions in the block)"""
    i = z3.Int("i")
    arr = Select(ex.rmap(st, CHAR), p.base)
    return forall([i], Implies(And(i >= oint(p.off) + a, i < oint(p.off) + b), f(Select(arr, i))), [Select(arr, i)])


def stored_at(arr, most=6):
    """indices written last"""
    arr, out, todo = z3.simplify(arr), [], []
    todo.append(arr)
    while todo and len(out) < most:
        a = todo.pop(0)
        k = a.decl().kind() if z3.is_app(a) else None
        if k == z3.Z3_OP_STORE:
            out.append(a.arg(1))
            todo.append(a.arg(0))
        elif k == z3.Z3_OP_ITE:
            todo += [a.arg(1), a.arg(2)]
        elif k == z3.Z3_OP_SELECT and z3.is_app_of(a.arg(0), z3.Z3_OP_STORE):
            todo += [a.arg(0).arg(2), Select(a.arg(0).arg(0), a.arg(1))]
    return out


def m_strlen(ex, st, vs, n):
    ex.trusted.add("strlen")
    p = vs[0]
    lit = ex.ctab.get(p.base.get_id())
    if lit is not None and off_is0(p.off) and lit[0].eq(p.base):
        return [(st, RV(lit[1].index(0)))]
    for k in range(0, 12):
        c = ch(ex, st, p, k)
        if ex.quick_unsat(st, c != 0):
            return [(st, RV(k))]
        if not ex.quick_unsat(st, c == 0):
            break
    f = getattr(ex, "strlen_fun", None)
    if f is not None:
        r = f(ex, st, p)
        if r is not None:
            return [(st, r)]
    ex.chk_raw(st, p.base, p.off, CHAR, n)
    L = fresh(IntS, "strlen")
    if p.path is None:
        i = z3.Int("i")
        arr = Select(ex.rmap(st, CHAR), p.base)
        inside = lambda i: And(i >= oint(p.off), i < ex.size(st, p.base))
        seen = [And(inside(x), Select(arr, x) == 0) for x in stored_at(arr)]        # witnesses for the solver
        ex.oblige(st, "the string is terminated inside its block", Or(*seen, Not(forall([i], Implies(inside(i), Select(arr, i) != 0), [Select(arr, i)]))), n, group="pre")
        st.assume(oint(p.off) + L < ex.size(st, p.base))
        if not off_is0(p.off):
            st.assume(within(ex, st, p, 0, L, lambda v: v != 0))
        st.assume(*[Implies(And(x >= oint(p.off), x < oint(p.off) + L), Select(arr, x) != 0) for x in stored_at(arr)])
    st.assume(L >= 0, L < (1 << 62), ch(ex, st, p, L) == 0, nz_below(ex, st, p, L))
    return [(st, L)]


def m_isalpha(ex, st, vs, n):
    ex.trusted.add("isalpha")
    c = vs[0]
    r = fresh(IntS, "isalpha")
    ex.oblige(st, "argument of isalpha is an unsigned char or EOF", And(c >= -1, c <= 255), n, group="ub")
    st.assume(ex.inrange(r, INT), Implies(And(c >= 0, c < 128), (r != 0) == Or(And(c >= 65, c <= 90), And(c >= 97, c <= 122))))
    return [(st, r)]


def m_toupper(ex, st, vs, n):
    ex.trusted.add("toupper")
    c = vs[0]
    r = fresh(IntS, "toupper")
    ex.oblige(st, "argument of toupper is an unsigned char or EOF", And(c >= -1, c <= 255), n, group="ub")
    st.assume(r >= -1, r <= 255, Implies(And(c >= 0, c < 128), r == If(And(c >= 97, c <= 122), c - 32, c)))
    return [(st, r)]


def m_tolower(ex, st, vs, n):
    ex.trusted.add("tolower")
    c = vs[0]
    r = fresh(IntS, "tolower")
    st.assume(r >= -1, r <= 255, Implies(And(c >= 0, c < 128), r == If(And(c >= 65, c <= 90), c + 32, c)))
    return [(st, r)]


def m_isdigit(ex, st, vs, n):
    c = vs[0]
    r = fresh(IntS, "isdigit")
    st.assume(ex.inrange(r, INT), (r != 0) == And(c >= 48, c <= 57))
    return [(st, r)]


def m_strcpy(ex, st, vs, n):
    ex.trusted.add("strcpy")
    d, s = vs[0], vs[1]
    lit = ex.ctab.get(s.base.get_id())
    if lit is not None and lit[0].eq(s.base):
        L = lit[1].index(0)
        for i in range(L + 1):
            q = ex.padd(d, i, CHAR, n)
            ex.store(st, ex.deref(st, q, CHAR, n), RV(lit[1][i]), CHAR, n)
        return [(st, d)]
    [(st, L)] = m_strlen(ex, st, [s], n)
    return m_memcpy(ex, st, [d, s, L + 1], n)


def m_memcpy(ex, st, vs, n, overlap=False):
    ex.trusted.add("memmove" if overlap else "memcpy")
    d, s, k = vs
    if d.path is not None or s.path is not None:
        ex.unsup("memcpy into a struct", n)
    i = z3.Int("i")
    # pointers may be copied as well: only character data is modelled here
    do, so = oint(d.off), oint(s.off)
    ex.oblige(st, "memcpy stays inside the destination", Or(k == 0, And(d.base != NULL, ex.kind(st, d.base) > 0, do >= 0, do + k <= ex.size(st, d.base))), n, group="mem")
    lit = ex.ctab.get(s.base.get_id())
    if not overlap and not (lit is not None and lit[0].eq(s.base)):
        ex.oblige(st, "memcpy is given blocks that do not overlap", Or(k == 0, d.base != s.base, do + k <= so, so + k <= do), n, group="mem")
    if not (lit is not None and lit[0].eq(s.base)):
        ex.oblige(st, "memcpy stays inside the source", Or(k == 0, And(s.base != NULL, ex.kind(st, s.base) > 0, so >= 0, so + k <= ex.size(st, s.base))), n, group="mem")
    h = ex.rmap(st, CHAR)
    old, src = Select(h, d.base), Select(h, s.base)
    new = fresh(old.sort(), "cpy")
    if lit is not None and lit[0].eq(s.base):
        for x, v in enumerate(lit[1]):
            st.assume(Implies(And(x >= so, x < so + k), Select(new, do + x - so) == v))
    else:
        st.assume(forall([i], Implies(And(i >= do, i < do + k), Select(new, i) == Select(src, so + i - do)), [Select(new, i)]))
    st.assume(forall([i], Implies(Or(i < do, i >= do + k), Select(new, i) == Select(old, i)), [Select(new, i)]))
    st.heap[("r", "i8")] = Store(h, d.base, new)
    return [(st, d)]


def memset_tags(ex):
    return sorted({k[1] for k in ex.heap0 if k[0] == "f"})


def m_memset(ex, st, vs, n):
    ex.trusted.add("memset")
    d, c, k = vs
    i = z3.Int("i")
    do = oint(d.off)
    if d.path is None and off_is0(d.off) and z3.is_int_value(z3.simplify(k)) and z3.is_int_value(z3.simplify(oint(c))):
        for tag in memset_tags(ex):
            if ex.quick_unsat(st, ex.kind(st, d.base) != K(tag)):
                # a whole struct set to zero
                ex.oblige(st, "memset of a whole struct to zero", And(d.base != NULL, c == 0, k == ex.tu.sizeof(T("struct", tag=tag))), n, group="mem")
                for f, t in ex.flat(tag):
                    if t.k not in ("int", "ptr", "float"):
                        ex.unsup("memset of field " + f, n)
                    ex.store(st, ("fld", d.base, tag, f), P(NULL) if t.k == "ptr" else z3.RealVal(0) if t.k == "float" else ex.ival(0, t), t, n)
                return [(st, d)]
    a0 = n["inner"][1] if n and len(n.get("inner", [])) > 1 else {}
    while a0.get("kind") in ("ImplicitCastExpr", "CStyleCastExpr", "ParenExpr") and a0.get("inner"):
        a0 = a0["inner"][0]
    at = ex.tu.ty(a0) if a0.get("kind") == "DeclRefExpr" else None
    num = lambda v: z3.simplify(v).as_long() if isinstance(v, z3.ExprRef) and (z3.is_int_value(z3.simplify(v)) or z3.is_bv_value(z3.simplify(v))) else None
    if at is not None and at.k == "arr" and at.to.k in ("int", "ptr") and not (at.to.k == "int" and at.to.bits == 8):
        # an array of the unit with elements wider than a byte: only the whole of it, only to zero
        if num(k) != ex.tu.sizeof(at) or num(c) != 0:
            ex.unsup("memset of a part of an array of words", n)
        ex.chk_raw(st, d.base, RV(at.n - 1), at.to, n)
        h = ex.rmap(st, at.to)
        a = Select(h, d.base)
        for j in range(at.n):
            a = Store(a, RV(j), NULL if at.to.k == "ptr" else z3.BitVecVal(0, at.to.bits) if ex.mode == "bv" else RV(0))
        st.heap[ex.rawkey(at.to)] = Store(h, d.base, a)
        return [(st, d)]
    ex.oblige(st, "memset stays inside the block", Or(k == 0, And(d.base != NULL, ex.kind(st, d.base) > 0, do >= 0, do + k <= ex.size(st, d.base))), n, group="mem")
    h = ex.rmap(st, CHAR)
    old = Select(h, d.base)
    new = fresh(old.sort(), "mset")
    st.assume(forall([i], Select(new, i) == If(And(i >= do, i < do + k), ex.castint(st, c, INT, CHAR), Select(old, i)), [Select(new, i)]))
    st.heap[("r", "i8")] = Store(h, d.base, new)
    return [(st, d)]


def m_isascii(ex, st, vs, n):
    ex.trusted.add("isascii")
    return [(st, ex.b2i(And(vs[0] >= 0, vs[0] < 128)))]


def m_strcmp(ex, st, vs, n):
    """zero exactly for equal strings"""
    ex.trusted.add("strcmp")
    a, b = vs
    r = fresh(IntS, "strcmp")
    st.assume(ex.inrange(r, INT))
    for x, y in ((a, b), (b, a)):
        lit = ex.ctab.get(y.base.get_id())
        if lit is not None and lit[0].eq(y.base) and off_is0(y.off):
            L = lit[1].index(0)
            m_strlen(ex, st, [x], n)
            st.assume((r == 0) == And(*[ch(ex, st, x, i) == lit[1][i] for i in range(L + 1)]))
            return [(st, r)]
    [(st, la)] = m_strlen(ex, st, [a], n)
    [(st, lb)] = m_strlen(ex, st, [b], n)
    i = z3.Int("i")
    k = fresh(IntS, "diff")
    st.assume(Implies(r == 0, And(la == lb, forall([i], Implies(And(i >= 0, i < la), ch(ex, st, a, i) == ch(ex, st, b, i)), [ch(ex, st, a, i)], ))),
              Implies(r == 0, forall([i], Implies(And(i >= 0, i < la), ch(ex, st, a, i) == ch(ex, st, b, i)), [ch(ex, st, b, i)])),
              Implies(r != 0, Or(la != lb, And(k >= 0, k < la, ch(ex, st, a, k) != ch(ex, st, b, k)))))
    return [(st, r)]


def m_isspace(ex, st, vs, n):
    ex.trusted.add("isspace")
    c = vs[0]
    r = fresh(IntS, "isspace")
    ex.oblige(st, "argument of isspace is an unsigned char or EOF", And(c >= -1, c <= 255), n, group="ub")
    st.assume(ex.inrange(r, INT), Implies(And(c >= 0, c < 128), (r != 0) == Or(c == 32, And(c >= 9, c <= 13))))
    return [(st, r)]


def m_strchr(ex, st, vs, n, last=False):
    """first (last) occurrence of the character up to and including the terminator, or NULL"""
    ex.trusted.add("strrchr" if last else "strchr")
    p, c = vs
    c = ex.castint(st, c, INT, CHAR)
    [(st, L)] = m_strlen(ex, st, [p], n)
    j = z3.Int("j")
    miss = st.copy()
    miss.assume(c != 0, forall([j], Implies(And(j >= 0, j < L), ch(ex, st, p, j) != c), [ch(ex, st, p, j)]))
    k = fresh(IntS, "chr")
    st.assume(k >= 0, k <= L, ch(ex, st, p, k) == c, Implies(c != 0, k < L), Implies(c == 0, k == L))
    rng = And(j > k, j < L) if last else And(j >= 0, j < k)
    st.assume(forall([j], Implies(rng, ch(ex, st, p, j) != c), [ch(ex, st, p, j)]))
    if p.path is None and not off_is0(p.off):
        st.assume(within(ex, st, p, k + 1 if last else 0, L if last else k, lambda v: v != c))
        miss.assume(within(ex, miss, p, 0, L, lambda v: v != c))
    return [(st, ex.padd(p, k, CHAR, n)), (miss, P(NULL))]


def m_strrchr(ex, st, vs, n):
    return m_strchr(ex, st, vs, n, True)


def m_strncmp(ex, st, vs, n):
    """zero exactly for strings equal up to the length given or their end; else the sign of the first difference"""
    ex.trusted.add("strncmp")
    a, b, m = vs
    for x in (a, b):
        if ex.ctab.get(x.base.get_id()) is None:
            ex.oblige(st, "strncmp is given strings", Or(m == 0, And(x.base != NULL, ex.kind(st, x.base) > 0)), n, group="mem")
    return first_diff(ex, st, a, b, m, True)


def m_memcmp(ex, st, vs, n):
    ex.trusted.add("memcmp")
    a, b, m = vs
    for x in (a, b):
        if ex.ctab.get(x.base.get_id()) is None:
            ex.oblige(st, "memcmp stays inside the blocks", Or(m == 0, And(x.base != NULL, ex.kind(st, x.base) > 0, oint(x.off) >= 0, oint(x.off) + m <= ex.size(st, x.base))), n, group="mem")
    return first_diff(ex, st, a, b, m, False)


def first_diff(ex, st, a, b, m, strings):
    j = z3.Int("j")
    r, k = fresh(IntS, "cmp"), fresh(IntS, "diff")
    A, B = (lambda i: ch(ex, st, a, i)), (lambda i: ch(ex, st, b, i))
    u8 = lambda x: If(x < 0, x + 256, x)
    e = st.copy()
    # equal: up to m, or up to a common terminator at k
    e.assume(k >= 0, k <= m, *[forall([j], Implies(And(j >= 0, j < k), And(A(j) == B(j), A(j) != 0 if strings else TRUE)), [X(j)]) for X in (A, B)])
    e.assume(Or(k == m, And(A(k) == 0, B(k) == 0)) if strings else k == m)
    st.assume(r != 0, ex.inrange(r, INT), k >= 0, k < m, A(k) != B(k), (r < 0) == (u8(A(k)) < u8(B(k))))
    st.assume(*[forall([j], Implies(And(j >= 0, j < k), And(A(j) == B(j), A(j) != 0 if strings else TRUE)), [X(j)]) for X in (A, B)])
    return [(e, RV(0)), (st, r)]


def m_strncpy(ex, st, vs, n):
    """copies up to the length given; zeroes after the end of a shorter string"""
    ex.trusted.add("strncpy")
    d, s, m = vs
    if d.path is not None or s.path is not None:
        ex.unsup("strncpy into a struct", n)
    do = oint(d.off)
    ex.oblige(st, "strncpy stays inside the destination", Or(m == 0, And(d.base != NULL, ex.kind(st, d.base) > 0, do >= 0, do + m <= ex.size(st, d.base))), n, group="mem")
    if ex.ctab.get(s.base.get_id()) is None:
        ex.oblige(st, "strncpy is given a source", Or(m == 0, And(s.base != NULL, ex.kind(st, s.base) > 0)), n, group="mem")
    i = z3.Int("i")
    L = fresh(IntS, "strnlen")
    st.assume(L >= 0, L <= m, nz_below(ex, st, s, L), Or(L == m, ch(ex, st, s, L) == 0))
    h = ex.rmap(st, CHAR)
    old = Select(h, d.base)
    new = fresh(old.sort(), "cpy")
    st.assume(forall([i], Select(new, i) == If(And(i >= do, i < do + m), If(i - do < L, ch(ex, st, s, i - do), RV(0)), Select(old, i)), [Select(new, i)]))
    st.heap[("r", "i8")] = Store(h, d.base, new)
    return [(st, d)]


def m_abs(ex, st, vs, n):
    ex.trusted.add("abs")
    t = ex.tu.ty(n)
    ex.oblige(st, "the absolute value can be represented", vs[0] > -(1 << (t.bits - 1)), n, group="ub")
    return [(st, If(vs[0] < 0, -vs[0], vs[0]))]


def m_memmove(ex, st, vs, n):
    return m_memcpy(ex, st, vs, n, True)


LIB = dict(strchr=m_strchr, strrchr=m_strrchr, strncmp=m_strncmp, memcmp=m_memcmp, strncpy=m_strncpy, abs=m_abs, labs=m_abs, llabs=m_abs, memmove=m_memmove, strcmp=m_strcmp, isspace=m_isspace, isascii=m_isascii, strlen=m_strlen, isalpha=m_isalpha, toupper=m_toupper, tolower=m_tolower, isdigit=m_isdigit,
           strcpy=m_strcpy, memcpy=m_memcpy, memset=m_memset)
MODELS.update(LIB)

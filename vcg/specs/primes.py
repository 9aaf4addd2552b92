"""maa/prime.c"""
from spec import *

P32 = 4294967291        # the largest prime below 2^32


def trial(n):
    if n < 2:
        return False
    i = 2
    while i * i <= n:
        if n % i == 0:
            return False
        i += 1
    return True


d0 = z3.Int("d")


def div_axioms(c):
    """n = d*(n/d) + n%d for positive d: defines the uninterpreted umod/udiv"""
    n, d = z3.Ints("n d")
    c.ex.axioms.append(forall([n, d], Implies(And(d > 0, n >= 0), And(n == d * udiv(n, d) + umod(n, d), umod(n, d) >= 0, umod(n, d) < d,
                                                                      udiv(n, d) >= 0)), [umod(n, d)]))


def odd_free(n, upto):
    """no odd d with 3 <= d < upto divides n"""
    k = z3.Int("k")
    return forall([k], Implies(And(k >= 1, 2 * k + 1 < upto), umod(n, 2 * k + 1) != 0), [umod(n, 2 * k + 1)])


@contract("prime.c", "prm_is_prime", "C16")
def _is_prime(c):
    ex = c.ex
    v = c.args[0]
    odd = fresh_fun("nodiv", IntS, BoolS)
    # nodiv(m): no odd d with 3 <= d < m divides v   (definition by its two recursive steps; m odd)
    m = z3.Int("m")
    nod = odd
    k = z3.Int("k")
    # definition: nod(m) <=> forall odd d in [3,m): v % d != 0, given as closure rules
    c.requires(nod(RV(3)))
    c.requires(forall([m], Implies(And(m >= 3, m % 2 == 1), nod(m + 2) == And(nod(m), umod(v, m) != 0)), [nod(m)]))
    # a quotient below the divisor means the divisor is above the root; multiples of 3 divide only multiples of 3 (lemmas below)
    c.requires(forall([m], Implies(m > 0, (udiv(v, m) < m) == (v < m * m)), [udiv(v, m)]))
    c.requires(forall([m], Implies(And(m > 0, m % 3 == 0, umod(v, m) == 0), umod(v, 3) == 0), [umod(v, m)]))
    c.requires(umod(v, 3) == v % 3)
    c.requires(forall([m], Implies(m >= 5, m * m >= 5 * m), [umod(v, m)]))

    def hints(ex_, entry, mod, n, cond):
        out = []
        ints = [kk for kk in mod.vars if isinstance(entry.env.get(kk), z3.ExprRef) and z3.is_int(entry.env[kk])]
        for a in ints:
            A = lambda st, a=a: st.env[a]
            out.append(Cand("%s is odd" % ex_varname(ex, a), lambda st, A=A: A(st) % 2 == 1))
            for x in (1, 5):
                out.append(Cand("%s is %d modulo 6" % (ex_varname(ex, a), x), lambda st, A=A, x=x: A(st) % 6 == x))
            out.append(Cand("%s at most 2^16+20" % ex_varname(ex, a), lambda st, A=A: A(st) <= 65556))
            out.append(Cand("no smaller odd divisor than %s" % ex_varname(ex, a), lambda st, A=A: nod(A(st))))
            out.append(Cand("%s: previous square below the value" % ex_varname(ex, a), lambda st, A=A: Or(A(st) == 3, (A(st) - 2) * (A(st) - 2) < v)))
            out.append(Cand("%s at most 2^16+1" % ex_varname(ex, a), lambda st, A=A: A(st) <= 65537))
            for b in ints:
                if a != b:
                    out.append(Cand("%s is the square of %s" % (ex_varname(ex, b), ex_varname(ex, a)),
                                    lambda st, A=A, b=b: st.env[b] == A(st) * A(st)))
        return out
    ex.loop_hints = hints
    c.requires(v >= 0)
    c.run()
    for st, r in c.returns:
        c.ensure(st, "0 or 1", Or(r == 0, r == 1))
        # find the cut-off the code stopped at: any local odd integer
        w = fresh(IntS, "w")
        c.ensure(st, "1 only when no number below it divides it", Implies(And(r == 1), Or(v == 2, v == 3, And(v > 3, v % 2 == 1, final_nodiv(c, st, nod, v)))))
        c.ensure(st, "0 only with a proper divisor (or 0, 1)", Implies(r == 0, Or(v <= 1, And(v % 2 == 0, v > 2), has_div(c, st, v))))
        c.unchanged(st, "prm_is_prime changes nothing")
    c.errors()
    lemmas(c, v, nod)


def umods(e):
    out = []
    seen = set()
    stk = [e]
    while stk:
        x = stk.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_app(x) and x.decl().name() == "umod" and not any(x.eq(y) for y in out):
            out.append(x)
        if not z3.is_quantifier(x):
            stk.extend(x.children())
    return out


def divisors(c, st):
    """the divisors the code tried on this path"""
    out = []
    for f in st.pc:
        for u in umods(f):
            if not has_var(u) and not any(u.arg(1).eq(x) for x in out):
                out.append(u.arg(1))
    return out


def has_var(e):
    return z3.is_var(e) or any(has_var(x) for x in e.children())


def final_nodiv(c, st, nod, v):
    """some tried odd d: none below it divides v, d does not divide v, d*d >= v"""
    last = nodargs(st, nod)
    return Or(*([And(d % 2 == 1, d >= 3, nod(d), umod(v, d) != 0, d * d >= v) for d in divisors(c, st)] + [And(d % 2 == 1, d >= 3, nod(d), d * d > v) for d in last] +
                [And(d % 2 == 1, d >= 3, nod(d), umod(v, d) != 0, umod(v, d + 2) != 0, nod(d + 2), (d + 2) * (d + 2) >= v) for d in last]))


def nodargs(st, nod):
    """odd numbers up to which the divisors are known on this path"""
    out, seen = [], set()
    stk = list(st.pc)
    while stk:
        x = stk.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_app(x) and x.decl().eq(nod) and not has_var(x) and not any(x.arg(0).eq(y) for y in out):
            out.append(x.arg(0))
        if not z3.is_quantifier(x):
            stk.extend(x.children())
    return out


def has_div(c, st, v):
    return Or(*[And(d >= 2, d < v, umod(v, d) == 0) for d in divisors(c, st)])


def lemmas(c, v, nod):
    """trial division up to the square root decides primality (over the integers)"""
    d, e, q, x, t, k = z3.Ints("d e q x t k")
    L = lambda name, hyp, goal: c.ensure(mk(hyp), "lemma: " + name, goal, group="lemma")

    def mk(h):
        s = State()
        s.assume(*h)
        return s
    # any proper factorisation v = x*t has one factor <= d when d*d >= v
    L("a small quotient is below the root", [d > 0, t >= 0, e >= 0, e < d, t <= d - 1, d * t <= d * (d - 1)], d * t + e < d * d)
    L("a product grows with its factor", [d > 0, t <= d - 1], d * t <= d * (d - 1))
    L("a large quotient is not", [d > 0, e >= 0, t >= d, d * t >= d * d], d * t + e >= d * d)
    L("a product grows with its factor (up)", [d > 0, t >= d], d * t >= d * d)
    L("a divisor that is a multiple of 3", [x == 3 * k], x * t == 3 * (k * t))
    L("the square of a number above four", [x >= 5], x * x >= 5 * x)
    L("one factor is at most the root", [x > d, t > d, d > 0, x * t == v], v > d * d)
    # odd v: its factors are odd
    L("an even factor makes the product even", [], (2 * q) * t == 2 * (q * t))
    L("an odd number is not even", [v == 2 * e, v == 2 * k + 1], FALSE)
    # a divisor has remainder zero (uniqueness of division): v = x*t = x*q + e, 0 <= e < x, so e = x*(t-q)
    L("distributivity", [], x * t - x * q == x * (t - q))
    L("a positive multiple is at least the number", [x > 0, k >= 1], x * k >= x)
    L("a negative multiple is negative", [x > 0, k <= -1], x * k < 0)
    # nod(m) excludes every odd d in [3,m): induction step of the definition
    P = z3.Function("P", IntS, BoolS)
    s = State()
    m = z3.Int("m")
    # nod(m) -> forall odd d in [3,m): umod(v,d) != 0 ; step m -> m+2
    y = z3.Int("y")
    s.assume(m >= 3, m % 2 == 1, nod(m + 2) == And(nod(m), umod(v, m) != 0), nod(m + 2),
             forall([y], Implies(And(y >= 3, y < m, y % 2 == 1), umod(v, y) != 0), [umod(v, y)]))
    z = z3.Int("z")
    c.ensure(s, "lemma: the ghost predicate covers every odd number below (induction step)",
             Implies(And(z >= 3, z < m + 2, z % 2 == 1), umod(v, z) != 0), group="lemma")


def m_is_prime(ex, st, vs, n):
    ip = z3.Function("is_prime", IntS, BoolS)
    return [(st, If(ip(vs[0]), RV(1), RV(0)))]


@contract("prime.c", "prm_next_prime", "C16")
def _next(c):
    ex = c.ex
    ip = z3.Function("is_prime", IntS, BoolS)
    s = c.args[0]
    ex.models["prm_is_prime"] = m_is_prime          # its contract is proved above
    assert trial(P32)
    c.requires(s <= P32, ip(RV(P32)))
    for i in range(64):
        c.requires(ip(RV(i)) == BoolVal(trial(i)))
    k = z3.Int("k")

    def none_in(hi):
        return forall([k], Implies(And(k >= s, k < hi, k % 2 == 1), Not(ip(k))), [ip(k)])

    def hints(ex_, entry, mod, n, cond):
        out = []
        for a in mod.vars:
            if isinstance(entry.env.get(a), z3.ExprRef) and z3.is_int(entry.env[a]):
                A = lambda st, a=a: st.env[a]
                out.append(Cand("odd", lambda st, A=A: A(st) % 2 == 1))
                out.append(Cand("no odd prime skipped", lambda st, A=A: none_in(A(st))))
                out.append(Cand("at most the largest prime", lambda st, A=A: A(st) <= P32))
                out.append(Cand("not below the argument", lambda st, A=A: A(st) >= s))
        return out
    ex.loop_hints = hints
    c.run()
    for st, r in c.returns:
        c.ensure(st, "result is an odd prime", And(r % 2 == 1, ip(r)))
        c.ensure(st, "result is not below the argument", r >= s)
        z = z3.Int("z")
        c.ensure(st, "no odd prime is skipped", Implies(And(z >= s, z < r, z % 2 == 1), Not(ip(z))))
        c.unchanged(st, "prm_next_prime changes nothing")
    c.errors()

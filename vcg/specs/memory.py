"""maa/memory.c : string memory and object memory"""
from spec import *
from absmod import *

TU = "memory.c"
SI, OI = "stringInfo", "objectInfo"


def fld(c, st, tag, f, o):
    t = dict(c.ex.flat(tag))[f]
    return Select(c.ex.fmap(st, tag, f, t), o)


def plain(c, st, b):
    return Or(c.ex.kind(st, b) == UNTYPED, c.ex.kind(st, b) == RAW)


def chars(c, st, b):
    return Select(c.ex.rmap(st, CHAR), b)


INTMAX = (1 << 31) - 1


# ================================================================ strings
def s_wf(c, st, i, goal=False):
    """representation of a string memory object"""
    ex = c.ex
    a = fld(c, st, SI, "allocated", i)
    L, g = stk_len(ex, st, a), fld(c, st, SI, "growing_size", i)
    at = lambda k: stk_at(ex, st, a, k)
    head = [i != NULL, ex.kind(st, i) == K(SI), fld(c, st, SI, "magic", i) == MAGIC["MEM_STRINGS_MAGIC"], a != NULL, ex.kind(st, a) == K("stack"), L >= 0,
            g >= 0, g <= INTMAX, Implies(g > 0, And(L >= 1, ex.size(st, at(L - 1)) == g))]
    one = lambda k: And(at(k) != NULL, plain(c, st, at(k)))
    if goal:
        k, j = z3.Ints("k!sk j!sk")
        return And(*(head + [Implies(And(k >= 0, k < L), one(k)), Implies(And(k >= 0, k < j, j < L), at(k) != at(j))]))
    k = z3.Int("k")
    pos = fresh_fun("pos", Ref, IntS)
    return head + [forall([k], Implies(And(k >= 0, k < L), And(one(k), pos(at(k)) == k)), [at(k)])]


class S:
    def __init__(self, c):
        ex, st = c.ex, c.st
        self.i = i = c.args[0].base
        for f, t in ex.flat(SI):
            ex.fmap(st, SI, f, t)
        slen(ex, st), sat(ex, st), ex.rmap(st, CHAR)
        c.requires(*s_wf(c, st, i))
        self.a = fld(c, st, SI, "allocated", i)
        self.L = stk_len(ex, st, self.a)
        self.g = fld(c, st, SI, "growing_size", i)
        self.count, self.bytes = fld(c, st, SI, "count", i), fld(c, st, SI, "bytes", i)
        self.top = stk_at(ex, st, self.a, self.L - 1)
        # resources: the counters do not overflow (64-bit machine integers are bounded by memory; the counts are int)
        c.requires(self.count >= 0, self.count < INTMAX, self.bytes >= 0, self.bytes <= INTMAX)

    def fp(self, growing):
        return lambda o: Or(o == self.i, o == self.a, And(self.g > 0, o == self.top) if growing else FALSE)

    def done(self, c, st, cnt, byt, growing=False):
        ex = c.ex
        i, a = self.i, self.a
        c.ensure(st, "the string memory stays well formed", s_wf(c, st, i, True))
        c.ensure(st, "strings counted", fld(c, st, SI, "count", i) == self.count + cnt)
        c.ensure(st, "bytes counted", fld(c, st, SI, "bytes", i) == self.bytes + byt)
        c.ensure(st, "same block list", fld(c, st, SI, "allocated", i) == a)
        k = z3.Int("k!sk")
        keep = If(self.g > 0, self.L - 1, self.L) if growing else self.L
        c.ensure(st, "blocks handed out before stay registered", Implies(And(k >= 0, k < keep), And(stk_len(ex, st, a) >= keep, stk_at(ex, st, a, k) == stk_at(ex, c.st0, a, k))))
        j = z3.Int("k!sk")
        b = stk_at(ex, st, a, j)
        c.ensure(st, "new blocks are fresh", Implies(And(j >= keep, j < stk_len(ex, st, a)), Or(ex.kind(c.st0, b) == 0, And(BoolVal(growing), b == self.top))))
        c.frame(st, self.fp(growing))
        c.errors()


def src_arg(c, idx, n, term=False):
    """character argument: n readable bytes"""
    p = c.args[idx]
    ex, st = c.ex, c.st
    c.requires(p.base != NULL, ex.kind(st, p.base) > 0, ex.size(st, p.base) >= n, ex.size(st, p.base) < (1 << 62))
    return p


@contract(TU, "mem_create_strings", ["C09", "C21"])
def _cs(c):
    ex, st = c.ex, c.st
    for f, t in ex.flat(SI):
        ex.fmap(st, SI, f, t)
    slen(ex, st), sat(ex, st), ex.rmap(st, CHAR)
    c.run()
    for st, r in c.returns:
        i = r.base
        c.ensure(st, "well formed", s_wf(c, st, i, True))
        c.ensure(st, "empty", And(fld(c, st, SI, "count", i) == 0, fld(c, st, SI, "bytes", i) == 0, fld(c, st, SI, "growing_size", i) == 0,
                                  stk_len(ex, st, fld(c, st, SI, "allocated", i)) == 0))
        c.ensure(st, "fresh", And(ex.kind(c.st0, i) == 0, ex.kind(c.st0, fld(c, st, SI, "allocated", i)) == 0))
        c.frame(st, lambda o: FALSE)
    c.errors()


def strarg(c, idx=1):
    ex, st = c.ex, c.st
    p = c.args[idx]
    n = z3.Int("slen")
    c.requires(p.base != NULL, ex.kind(st, p.base) > 0, n >= 0, ex.size(st, p.base) > n, ex.size(st, p.base) < (1 << 62),
               ch(ex, st, p, n) == 0, nz_below(ex, st, p, n))
    ex.strlen_fun = lambda ex, st, q: n if q.base.eq(p.base) and off_is0(q.off) else None
    return p, n


@contract(TU, "mem_strcpy", ["C09", "C21"])
def _strcpy(c):
    s = S(c)
    p, n = strarg(c)
    c.requires(n < INTMAX - s.bytes)
    c.run()
    x = z3.Int("x!sk")
    for st, r in c.returns:
        ex = c.ex
        c.ensure(st, "a fresh block large enough", And(r.base != NULL, ex.kind(c.st0, r.base) == 0, plain(c, st, r.base), ex.size(st, r.base) > n, BoolVal(off_is0(r.off))))
        c.ensure(st, "a faithful terminated copy", Implies(And(x >= 0, x <= n), Select(chars(c, st, r.base), x) == Select(chars(c, c.st0, p.base), x)))
        c.ensure(st, "registered for release", And(stk_len(ex, st, s.a) == s.L + 1, stk_at(ex, st, s.a, s.L) == r.base))
        c.ensure(st, "not growing any more", fld(c, st, SI, "growing_size", s.i) == 0)
        s.done(c, st, 1, n + 1)


@contract(TU, "mem_strncpy", ["C09", "C21"])
def _strncpy(c):
    s = S(c)
    n = c.args[2]
    c.requires(n >= 0, n < INTMAX - s.bytes)
    p = src_arg(c, 1, n)
    c.requires(c.ex.size(c.st, p.base) == n)
    c.run()
    x = z3.Int("x!sk")
    for st, r in c.returns:
        ex = c.ex
        c.ensure(st, "a fresh block large enough", And(r.base != NULL, ex.kind(c.st0, r.base) == 0, plain(c, st, r.base), ex.size(st, r.base) > n, BoolVal(off_is0(r.off))))
        c.ensure(st, "a faithful copy", Implies(And(x >= 0, x < n), Select(chars(c, st, r.base), x) == Select(chars(c, c.st0, p.base), x)))
        c.ensure(st, "terminated", Select(chars(c, st, r.base), n) == 0)
        c.ensure(st, "registered for release", And(stk_len(ex, st, s.a) == s.L + 1, stk_at(ex, st, s.a, s.L) == r.base))
        c.ensure(st, "not growing any more", fld(c, st, SI, "growing_size", s.i) == 0)
        s.done(c, st, 1, n + 1)


@contract(TU, "mem_grow", ["C09", "C21"])
def _grow(c):
    s = S(c)
    n = c.args[2]
    c.requires(n >= 0, n < INTMAX - s.bytes, n < INTMAX - s.g)
    p = src_arg(c, 1, n)
    c.requires(c.ex.size(c.st, p.base) == n, Or(s.g == 0, p.base != s.top))
    c.run()
    x = z3.Int("x!sk")
    for st, r in c.returns:
        ex = c.ex
        L1 = stk_len(ex, st, s.a)
        top = stk_at(ex, st, s.a, L1 - 1)
        c.ensure(st, "the grown part is longer by the piece", And(fld(c, st, SI, "growing_size", s.i) == s.g + n, Implies(s.g + n > 0, L1 >= 1)))
        c.ensure(st, "what was grown before is kept", Implies(And(x >= 0, x < s.g), Select(chars(c, st, top), x) == Select(chars(c, c.st0, s.top), x)))
        c.ensure(st, "the piece is appended", Implies(And(x >= 0, x < n), Select(chars(c, st, top), s.g + x) == Select(chars(c, c.st0, p.base), x)))
        s.done(c, st, 0, n, True)


@contract(TU, "mem_finish", ["C09", "C21"])
def _finish(c):
    s = S(c)
    c.requires(1 < INTMAX - s.bytes, 1 < INTMAX - s.g)
    c.run()
    x = z3.Int("x!sk")
    for st, r in c.returns:
        ex = c.ex
        L1 = stk_len(ex, st, s.a)
        c.ensure(st, "returns the grown block", And(r.base != NULL, L1 >= 1, r.base == stk_at(ex, st, s.a, L1 - 1), ex.size(st, r.base) > s.g))
        c.ensure(st, "the grown bytes", Implies(And(x >= 0, x < s.g), Select(chars(c, st, r.base), x) == Select(chars(c, c.st0, s.top), x)))
        c.ensure(st, "terminated", Select(chars(c, st, r.base), s.g) == 0)
        c.ensure(st, "growing is over", fld(c, st, SI, "growing_size", s.i) == 0)
        s.done(c, st, 1, 1, True)


def stats_like(c, tag, out, fields, i):
    for st, r in c.returns:
        ex = c.ex
        c.ensure(st, "fresh statistics record", And(r.base != NULL, ex.kind(c.st0, r.base) == 0, ex.kind(st, r.base) == K(out)))
        for f in fields:
            c.ensure(st, "statistics: " + f, fld(c, st, out, f, r.base) == fld(c, c.st0, tag, f, i))
        c.unchanged(st, "nothing else changes")
    c.errors()


@contract(TU, "mem_get_string_stats", ["C09", "C21"])
def _sstats(c):
    s = S(c)
    for f, t in c.ex.flat("mem_StringStats"):
        c.ex.fmap(c.st, "mem_StringStats", f, t)
    c.run()
    stats_like(c, SI, "mem_StringStats", ("count", "bytes"), s.i)


def destroy_hints(c, a, at0, L0, extra_alive):
    """loop that releases the blocks of stack a from the top"""
    ex = c.ex

    def hints(ex_, entry, mod, n, cond):
        k = z3.Int("k")
        m = z3.Const("m", Ref)
        ln = lambda st: stk_len(ex, st, a)
        out = [
            Cand("fewer blocks left", lambda st: And(ln(st) >= 0, ln(st) <= L0)),
            Cand("remaining blocks in place", lambda st: Select(sat(ex, st), a) == Select(sat(ex, c.st0), a)),
            Cand("remaining blocks alive", lambda st: forall([k], Implies(And(k >= 0, k < ln(st)), ex.kind(st, at0(k)) == ex.kind(c.st0, at0(k))), [at0(k)])),
            Cand("removed blocks released", lambda st: forall([k], Implies(And(k >= ln(st), k < L0), ex.kind(st, at0(k)) == 0), [at0(k)])),
            Cand("other stacks unchanged", lambda st: And(
                forall([m], Implies(m != a, Select(slen(ex, st), m) == Select(slen(ex, c.st0), m)), [Select(slen(ex, st), m)]))),
            Cand("other blocks untouched", lambda st: forall([m], Or(ex.kind(st, m) == ex.kind(c.st0, m), And(ex.kind(st, m) == 0, Or(ex.kind(c.st0, m) == UNTYPED, ex.kind(c.st0, m) == RAW))), [ex.kind(st, m)])),
            Cand("blocks of others untouched", lambda st: forall([m], Implies(inpool_not(m), ex.kind(st, m) == ex.kind(c.st0, m)), [ex.kind(st, m)])),
        ]
        kk, sl = ex.kmap(entry), slen(ex, entry)
        out += [
            Cand("other stacks as before the loop", lambda st: forall([m], Implies(m != a, Select(slen(ex, st), m) == Select(sl, m)), [Select(slen(ex, st), m)])),
            Cand("other blocks as before the loop", lambda st: forall([m], Or(ex.kind(st, m) == Select(kk, m), And(ex.kind(st, m) == 0, Or(Select(kk, m) == UNTYPED, Select(kk, m) == RAW))), [ex.kind(st, m)])),
            Cand("blocks of others as before the loop", lambda st: forall([m], Implies(inpool_not(m), ex.kind(st, m) == Select(kk, m)), [ex.kind(st, m)])),
        ]
        return out

    def inpool_not(m):
        p = extra_alive(m)
        return Not(And(p >= 0, p < L0, at0(p) == m))
    return hints


@contract(TU, "mem_destroy_strings", ["C09", "C20"])
def _ds(c):
    s = S(c)
    ex = c.ex
    at0 = lambda k: stk_at(ex, c.st0, s.a, k)
    pos = fresh_fun("pos2", Ref, IntS)
    k = z3.Int("k")
    a0 = Select(sat(ex, c.st), s.a)
    c.requires(forall([k], Implies(And(k >= 0, k < s.L), pos(Select(a0, k)) == k), [Select(a0, k)]))
    ex.loop_hints = destroy_hints(c, s.a, lambda k: Select(a0, k), s.L, pos)
    c.run()
    o = z3.Const("o!sk", Ref)
    inpool = lambda m: And(pos(m) >= 0, pos(m) < s.L, Select(a0, pos(m)) == m)
    for st, r in c.returns:
        k = z3.Int("k!sk")
        c.ensure(st, "every string is released", Implies(And(k >= 0, k < s.L), ex.kind(st, Select(a0, k)) == 0))
        c.ensure(st, "object and block list are released", And(ex.kind(st, s.i) == 0, ex.kind(st, s.a) == 0))
        c.frame(st, lambda m: Or(m == s.i, m == s.a, inpool(m)))
        c.ensure(st, "retagged before its memory is released", fld(c, st, SI, "magic", s.i) != MAGIC["MEM_STRINGS_MAGIC"])
    c.errors()


# ================================================================ objects
# ghost: used(o) for blocks of the store = handed out and not freed back
def o_wf(c, st, i, goal=False):
    """allocated: all blocks, distinct, alive, of the object size; the free list holds distinct blocks of them"""
    ex = c.ex
    a, fr = fld(c, st, OI, "allocated", i), fld(c, st, OI, "stack", i)
    La, Lf = stk_len(ex, st, a), stk_len(ex, st, fr)
    size = fld(c, st, OI, "size", i)
    at, ft = (lambda k: stk_at(ex, st, a, k)), (lambda k: stk_at(ex, st, fr, k))
    head = [i != NULL, ex.kind(st, i) == K(OI), fld(c, st, OI, "magic", i) == MAGIC["MEM_OBJECTS_MAGIC"], a != NULL, fr != NULL, a != fr,
            ex.kind(st, a) == K("stack"), ex.kind(st, fr) == K("stack"), La >= 0, Lf >= 0, size >= 0, size <= INTMAX,
            fld(c, st, OI, "total", i) == La, fld(c, st, OI, "used", i) == La - Lf, fld(c, st, OI, "reused", i) >= 0]
    return head, a, fr, La, Lf, at, ft, size


def plainsz(c, st, b, size):
    return And(b != NULL, c.ex.kind(st, b) > 0, c.ex.size(st, b) == size, b != NULL)


class O:
    def __init__(self, c):
        ex, st = c.ex, c.st
        self.c = c
        self.i = i = c.args[0].base
        for f, t in ex.flat(OI):
            ex.fmap(st, OI, f, t)
        slen(ex, st), sat(ex, st), ex.rmap(st, CHAR)
        head, a, fr, La, Lf, at, ft, size = o_wf(c, st, i)
        self.a, self.fr, self.La, self.Lf, self.at, self.ft, self.size = a, fr, La, Lf, at, ft, size
        self.pos, self.fpos = fresh_fun("pos", Ref, IntS), fresh_fun("fpos", Ref, IntS)
        k = z3.Int("k")
        nk = lambda b: And(b != i, b != a, b != fr)
        c.requires(*head)
        c.requires(forall([k], Implies(And(k >= 0, k < La), And(at(k) != NULL, ex.kind(st, at(k)) > 0, ex.kind(st, at(k)) != STACKBLK, ex.size(st, at(k)) == size, self.pos(at(k)) == k, nk(at(k)))), [at(k)]),
                   forall([k], Implies(And(k >= 0, k < Lf), And(self.fpos(ft(k)) == k, self.pos(ft(k)) >= 0, self.pos(ft(k)) < La, at(self.pos(ft(k))) == ft(k))), [ft(k)]),
                   La < INTMAX - 1, Lf < INTMAX - 1, fld(c, st, OI, "reused", i) < INTMAX - 1, fld(c, st, OI, "used", i) > -INTMAX)
        self.reused = fld(c, st, OI, "reused", i)

    def inpool(self, m):
        return And(self.pos(m) >= 0, self.pos(m) < self.La, self.at(self.pos(m)) == m)

    def isfree(self, m):
        return And(self.fpos(m) >= 0, self.fpos(m) < self.Lf, self.ft(self.fpos(m)) == m)

    def wf_goal(self, st, pos):
        """pos(m): index of block m in the new list"""
        c, ex, i = self.c, self.c.ex, self.i
        head, a, fr, La, Lf, at, ft, size = o_wf(c, st, i)
        k, j = z3.Ints("k!sk j!sk")
        nk = lambda b: And(b != i, b != a, b != fr)
        c.ensure(st, "header and counts stay well formed", And(*head))
        c.ensure(st, "every block is live and of the object size", Implies(And(k >= 0, k < La), And(at(k) != NULL, ex.kind(st, at(k)) > 0, ex.kind(st, at(k)) != STACKBLK, ex.size(st, at(k)) == size, nk(at(k)))))
        c.ensure(st, "blocks are distinct", Implies(And(k >= 0, k < j, j < La), at(k) != at(j)))
        c.ensure(st, "free blocks are distinct", Implies(And(k >= 0, k < j, j < Lf), ft(k) != ft(j)))
        c.ensure(st, "free blocks belong to the store", Implies(And(k >= 0, k < Lf), And(pos(ft(k)) >= 0, pos(ft(k)) < La, at(pos(ft(k))) == ft(k))))
        return a, fr, La, Lf, at, ft


@contract(TU, "mem_create_objects", ["C10", "C21"])
def _co(c):
    ex, st = c.ex, c.st
    for f, t in ex.flat(OI):
        ex.fmap(st, OI, f, t)
    slen(ex, st), sat(ex, st), ex.rmap(st, CHAR)
    c.requires(c.args[0] >= 0)
    c.run()
    for st, r in c.returns:
        i = r.base
        head, a, fr, La, Lf, at, ft, size = o_wf(c, st, i)
        c.ensure(st, "well formed", And(*head))
        c.ensure(st, "empty, of the requested object size", And(La == 0, Lf == 0, size == c.args[0], fld(c, st, OI, "reused", i) == 0))
        c.ensure(st, "fresh", And(ex.kind(c.st0, i) == 0, ex.kind(c.st0, a) == 0, ex.kind(c.st0, fr) == 0))
        c.frame(st, lambda o: FALSE)
    c.errors()


def get_post(c, s, zero):
    ex = c.ex
    x, m = z3.Int("x!sk"), z3.Const("m!sk", Ref)
    for st, r in c.returns:
        b = r.base
        c.ensure(st, "a writable block of the object size", And(b != NULL, ex.kind(st, b) > 0, ex.size(st, b) == s.size, BoolVal(off_is0(r.off))))
        c.ensure(st, "not in use before: fresh or freed back", Or(ex.kind(c.st0, b) == 0, s.isfree(b)))
        a, fr, La, Lf, at, ft = s.wf_goal(st, lambda q: If(q == b, If(ex.kind(c.st0, b) == 0, s.La, s.pos(b)), s.pos(q)))
        c.ensure(st, "in use now", And(Implies(And(x >= 0, x < Lf), ft(x) != b), Implies(And(x >= 0, x < s.La), at(x) == s.at(x)), La >= s.La))
        c.ensure(st, "other free blocks stay free, used ones stay used", And(Lf <= s.Lf, Implies(And(x >= 0, x < Lf), ft(x) == s.ft(x)),
                                                                        Implies(And(m != b, s.isfree(m)), And(s.fpos(m) < Lf, ft(s.fpos(m)) == m))))
        c.ensure(st, "statistics: total grows for new blocks, reused for freed ones", And(
            fld(c, st, OI, "total", s.i) == s.La + If(ex.kind(c.st0, b) == 0, RV(1), RV(0)),
            fld(c, st, OI, "reused", s.i) == s.reused + If(ex.kind(c.st0, b) == 0, RV(0), RV(1)),
            fld(c, st, OI, "used", s.i) == s.La - s.Lf + 1, fld(c, st, OI, "size", s.i) == s.size))
        c.ensure(st, "same store", And(a == s.a, fr == s.fr))
        if zero:
            c.ensure(st, "all bytes are zero", Implies(And(x >= 0, x < s.size), Select(chars(c, st, b), x) == 0))
            c.frame(st, lambda o: Or(o == s.i, o == s.a, o == s.fr, And(s.isfree(o), o == b)))
        else:
            c.frame(st, lambda o: Or(o == s.i, o == s.a, o == s.fr))
    c.errors()


@contract(TU, "mem_get_object", ["C10", "C21"])
def _get(c):
    s = O(c)
    c.run()
    get_post(c, s, False)


@contract(TU, "mem_get_empty_object", ["C10", "C21"])
def _getz(c):
    s = O(c)
    c.run()
    get_post(c, s, True)


@contract(TU, "mem_free_object", ["C10", "C21"])
def _freeo(c):
    s = O(c)
    ex = c.ex
    b = c.args[1].base
    c.requires(s.inpool(b), Not(s.isfree(b)))
    c.run()
    x, m = z3.Int("x!sk"), z3.Const("m!sk", Ref)
    for st, r in c.returns:
        a, fr, La, Lf, at, ft = s.wf_goal(st, s.pos)
        c.ensure(st, "the object is free now, the others as before", And(Lf == s.Lf + 1, ft(s.Lf) == b, Implies(And(x >= 0, x < s.Lf), ft(x) == s.ft(x))))
        c.ensure(st, "no block comes or goes", And(La == s.La, Implies(And(x >= 0, x < La), at(x) == s.at(x))))
        c.ensure(st, "statistics", And(fld(c, st, OI, "total", s.i) == s.La, fld(c, st, OI, "reused", s.i) == s.reused, fld(c, st, OI, "used", s.i) == s.La - s.Lf - 1,
                                       fld(c, st, OI, "size", s.i) == s.size))
        c.ensure(st, "same store", And(a == s.a, fr == s.fr))
        c.frame(st, lambda o: Or(o == s.i, o == s.fr))
    c.errors()


@contract(TU, "mem_get_object_stats", ["C10", "C21"])
def _ostats(c):
    s = O(c)
    for f, t in c.ex.flat("mem_ObjectStats"):
        c.ex.fmap(c.st, "mem_ObjectStats", f, t)
    c.run()
    stats_like(c, OI, "mem_ObjectStats", ("total", "used", "reused", "size"), s.i)


@contract(TU, "mem_destroy_objects", ["C10", "C20"])
def _do(c):
    s = O(c)
    ex = c.ex
    a0 = Select(sat(ex, c.st), s.a)
    ex.loop_hints = destroy_hints(c, s.a, lambda k: Select(a0, k), s.La, s.pos)
    c.run()
    for st, r in c.returns:
        k = z3.Int("k!sk")
        c.ensure(st, "every object is released", Implies(And(k >= 0, k < s.La), ex.kind(st, Select(a0, k)) == 0))
        c.ensure(st, "store and lists are released", And(ex.kind(st, s.i) == 0, ex.kind(st, s.a) == 0, ex.kind(st, s.fr) == 0))
        c.frame(st, lambda m: Or(m == s.i, m == s.a, m == s.fr, s.inpool(m)))
        c.ensure(st, "retagged before its memory is released", fld(c, st, OI, "magic", s.i) != MAGIC["MEM_OBJECTS_MAGIC"])
    c.errors()

"""maa/text.c : Soundex"""
from spec import *

GROUPS = {}
for _g, _ls in (("1", "BFPV"), ("2", "CGJKQSXZ"), ("3", "DT"), ("4", "L"), ("5", "MN"), ("6", "R")):
    for _l in _ls:
        GROUPS[ord(_l)] = ord(_g)


def upper(x):
    return If(And(x >= 97, x <= 122), x - 32, x)


def letter(x):
    return Or(And(x >= 65, x <= 90), And(x >= 97, x <= 122))


def group(x):
    """group digit of a letter, '0' for letters of no group"""
    u = upper(x)
    e = RV(48)
    for l, g in GROUPS.items():
        e = If(u == l, RV(g), e)
    return e


class Sx:
    """the specification: what the code is after the first k characters"""

    def __init__(self, c, s, chr_):
        self.cnt = z3.Function("sx_cnt", IntS, IntS)      # characters of the code produced
        self.prv = z3.Function("sx_prv", IntS, IntS)      # group of the last letter
        self.out = z3.Function("sx_out", IntS, IntS)      # the code's characters
        k = z3.Int("k")
        x = chr_(k)
        cnt, prv, out = self.cnt, self.prv, self.out
        g = z3.Function("sx_grp", IntS, IntS)
        self.g = g
        first = And(letter(x), cnt(k) == 0)
        more = And(letter(x), cnt(k) >= 1, cnt(k) < 4, g(k) != 48, g(k) != prv(k))
        c.requires(cnt(0) == 0, prv(0) == 0)
        c.requires(forall([k], Implies(k >= 0, And(
            g(k) == group(x),
            cnt(k + 1) == If(Or(first, more), cnt(k) + 1, cnt(k)),
            Implies(first, out(0) == upper(x)),
            Implies(more, out(cnt(k)) == g(k)),
            prv(k + 1) == If(letter(x), g(k), prv(k)),
            cnt(k) >= 0, cnt(k) <= 4)), [x]))

    def final(self, buf, k):
        """buf holds the code of the first k characters, padded"""
        f = [buf(RV(0)) == If(self.cnt(k) > 0, self.out(RV(0)), RV(ord("Z")))]
        for j in range(1, 4):
            f.append(buf(RV(j)) == If(self.cnt(k) > j, self.out(RV(j)), RV(48)))
        f.append(buf(RV(4)) == 0)
        return And(*f)


def setup(c, s, res):
    ex = c.ex
    chr_ = lambda k: Select(Select(ex.rmap(c.st, CHAR), s), k)
    N = z3.Int("N")         # length of the string
    k = z3.Int("k")
    c.requires(s != NULL, ex.kind(c.st, s) == RAW, ex.size(c.st, s) >= N + 1, N >= 0, N < 2 ** 62, chr_(N) == 0)
    c.requires(forall([k], Implies(And(k >= 0, k < N), chr_(k) != 0), [chr_(k)]))
    c.requires(forall([k], And(chr_(k) >= -128, chr_(k) <= 127), [chr_(k)]))
    sx = Sx(c, s, chr_)

    def hints(ex_, entry, mod, n, cond):
        out = []
        # cursors into the string, and local integers
        curs = [kk for kk in mod.vars if isinstance(entry.env.get(kk), P) and z3.eq(entry.env[kk].base, s)]
        idx = [(lambda st, kk=kk: oint(st.env[kk].off)) for kk in curs]
        ints = [kk for kk in mod.vars if isinstance(entry.env.get(kk), z3.ExprRef) and z3.is_int(entry.env[kk])]
        wr = [kk for kk in mod.vars if isinstance(entry.env.get(kk), P) and z3.eq(entry.env[kk].base, res)]
        for a in idx + [(lambda st, kk=kk: st.env[kk]) for kk in ints]:
            out.append(Cand("position inside the string", lambda st, a=a: And(a(st) >= 0, a(st) <= N)))
            out.append(Cand("buffer holds the code of the prefix",
                            lambda st, a=a: sx.final(lambda j: Select(Select(ex.rmap(st, CHAR), res), j), a(st))))
            for b in ints:
                B = lambda st, b=b: st.env[b]
                out.append(Cand("code length", lambda st, a=a, B=B: B(st) == sx.cnt(a(st))))
                out.append(Cand("previous group", lambda st, a=a, B=B: B(st) == sx.prv(a(st))))
            for b in wr:
                out.append(Cand("write position", lambda st, a=a, b=b: oint(st.env[b].off) == sx.cnt(a(st))))
            out.append(Cand("rest of the buffer unchanged", lambda st: forall([z3.Int("j")], Implies(Or(z3.Int("j") < 0, z3.Int("j") > 4), Select(Select(ex.rmap(st, CHAR), res), z3.Int("j")) == Select(Select(ex.rmap(c.st0, CHAR), res), z3.Int("j"))), [Select(Select(ex.rmap(st, CHAR), res), z3.Int("j"))])))
            out.append(Cand("counter in range", lambda st, a=a: And(sx.cnt(a(st)) >= 0, sx.cnt(a(st)) <= 4, sx.prv(a(st)) >= 0, sx.prv(a(st)) <= 54)))
        return out
    c.ex.loop_hints = hints
    return sx, N, chr_


def cursors(c, st, s):
    """positions of the string the path looked at last (witnesses for the prefix)"""
    out = []
    for f in st.pc:
        for x in selects(f, s):
            if not any(x.eq(y) for y in out):
                out.append(x)
    return out


def selects(f, s):
    out, seen, stk = [], set(), [f]
    while stk:
        x = stk.pop()
        if x.get_id() in seen or z3.is_quantifier(x):
            continue
        seen.add(x.get_id())
        if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_SELECT and z3.is_int(x) and z3.is_select(x.arg(0)) and x.arg(0).arg(1).eq(s):
            out.append(x.arg(1))
        stk.extend(x.children())
    return out


def post(c, st, sx, N, chr_, s, res):
    buf = lambda j: Select(Select(c.ex.rmap(st, CHAR), res), j)
    wit = [N] + [simp(x) for x in cursors(c, st, s)]
    c.ensure(st, "the buffer holds the code of the whole string (of a prefix with a full code)",
             Or(*[And(k >= 0, k <= N, Or(k == N, sx.cnt(k) == 4), sx.final(buf, k)) for k in wit] +
                [And(k + 1 >= 0, k + 1 <= N, Or(k + 1 == N, sx.cnt(k + 1) == 4), sx.final(buf, k + 1)) for k in wit[1:]]))
    j = z3.Int("j!fr")
    old = Select(Select(c.ex.rmap(c.st0, CHAR), res), j)
    c.ensure(st, "only five characters are written", Implies(Or(j < 0, j > 4), buf(j) == old))


def simp(x):
    return z3.simplify(x)


def sat_lemma(c, sx, chr_):
    k = z3.Int("k!l")
    s = c.st0.copy()
    s.assume(k >= 0, sx.cnt(k) == 4, chr_(k) <= 127)
    c.ensure(s, "lemma: a full code stays as it is (step)", sx.cnt(k + 1) == 4, group="lemma")


@contract("text.c", "txt_soundex2", "C18")
def _sx2(c):
    s, res = c.args[0].base, c.args[1].base
    ex = c.ex
    c.requires(res != NULL, res != s, ex.kind(c.st, res) == RAW, ex.size(c.st, res) >= 5)
    sx, N, chr_ = setup(c, s, res)
    for st, r in c.run():
        post(c, st, sx, N, chr_, s, res)
        c.frame(st, lambda o: o == res)
    sat_lemma(c, sx, chr_)
    c.errors()


@contract("text.c", "txt_soundex", "C18")
def _sx(c):
    s = c.args[0].base
    ex = c.ex
    chr_ = lambda k: Select(Select(ex.rmap(c.st, CHAR), s), k)
    # the static buffer the function returns: found after a first look at the function
    from specs.bits import statics_of
    bufs = [b for b, t, i in statics_of(c, lambda t: t.k == "arr" and t.to.k == "int" and t.to.bits == 8) if i is None]
    if len(bufs) != 1:
        raise Unsupported("txt_soundex: static buffer not found")
    res = ex.gref(bufs[0])
    c.requires(res != s)
    sx, N, chr_ = setup(c, s, res)
    for st, r in c.run():
        c.ensure(st, "returns the buffer", And(r.base == res, oint(r.off) == 0))
        post(c, st, sx, N, chr_, s, res)
        c.frame(st, lambda o: o == res)
    c.errors()

"""maa/bit.c, base64.c, base26.c, prime.c, text.c"""
from spec import *

# ---------------------------------------------------------------- bit.c (bit-vector mode: machine arithmetic is exact)


def word(c, st, p):
    return Select(Select(c.ex.rmap(st, ULONG), p), RV(0))


def bsetup(c, bit=True):
    p = c.args[0].base
    c.ex.rmap(c.st, ULONG)
    c.requires(p != NULL, c.ex.kind(c.st, p) == RAW, c.ex.size(c.st, p) >= 8)
    if bit:
        c.requires(c.args[1] >= 0, c.args[1] <= 63)
        return p, z3.BitVecVal(1, 64) << z3.SignExt(32, c.args[1])
    return p


@contract("bit.c", "bit_set", "C15", mode="bv")
def _bit_set(c):
    p, m = bsetup(c)
    for st, r in c.run():
        c.ensure(st, "the bit is set, all others stay", word(c, st, p) == word(c, c.st0, p) | m)
        c.frame(st, lambda o: o == p)
    c.errors()


@contract("bit.c", "bit_clr", "C15", mode="bv")
def _bit_clr(c):
    p, m = bsetup(c)
    for st, r in c.run():
        c.ensure(st, "the bit is cleared, all others stay", word(c, st, p) == word(c, c.st0, p) & ~m)
        c.frame(st, lambda o: o == p)
    c.errors()


@contract("bit.c", "bit_tst", "C15", mode="bv")
def _bit_tst(c):
    p, m = bsetup(c)
    for st, r in c.run():
        c.ensure(st, "non-zero exactly when the bit is set", (r != 0) == ((word(c, c.st0, p) & m) != 0))
        c.unchanged(st, "bit_tst changes nothing")
    c.errors()


def popcount(w):
    """reference: sum of the 64 single bits"""
    tot = [z3.ZeroExt(31, z3.Extract(i, i, w)) for i in range(64)]
    while len(tot) > 1:
        tot = [tot[i] + tot[i + 1] for i in range(0, len(tot), 2)]
    return tot[0]


def by_fields(w, r, timeout=20000):
    """Is r the number of bits of w?  In stages: a subterm equal to the packed sums of the fields of 2^k bits (each at most 2^k) is replaced
    by a fresh word constrained just so; what is left has to be the sum of the fields of the last such word."""
    def fields(v, k):
        n = 1 << k
        return [z3.Extract(i * n + n - 1, i * n, v) for i in range(64 // n)]

    def bounded(v, k):
        return And(*[z3.ULE(f, 1 << k) for f in fields(v, k)]) if k else TRUE

    def packed(v, k):
        """the word whose fields of 2^k bits are the sums of neighbouring fields of 2^(k-1) bits of v"""
        f = [z3.ZeroExt((1 << k) - (1 << (k - 1)), x) for x in fields(v, k - 1)]
        return z3.Concat(*reversed([f[i] + f[i + 1] for i in range(0, len(f), 2)]))

    def valid(*fs):
        s = z3.SolverFor("QF_BV")
        s.set("timeout", timeout)
        s.add(*fs)
        return s.check() == z3.unsat

    def subterms(e):
        out, seen = [], set()

        def go(x):
            if x.get_id() in seen:
                return
            seen.add(x.get_id())
            for c in x.children():
                go(c)
            if z3.is_bv(x) and x.size() == 64:
                out.append(x)
        go(e)
        return out
    v, k = w, 0
    while k < 4:
        for s in subterms(r):
            if not s.eq(v) and not z3.is_bv_value(s) and valid(bounded(v, k), s != packed(v, k + 1)):
                nv = z3.BitVec("fields_%d" % (k + 1), 64)
                r = z3.substitute(r, (s, nv))
                v, k = nv, k + 1
                break
        else:
            break
    tot = [z3.ZeroExt(32 - (1 << k), f) if k < 5 else f for f in fields(v, k)]
    while len(tot) > 1:
        tot = [tot[i] + tot[i + 1] for i in range(0, len(tot), 2)]
    return k > 0 and not any(x.eq(w) for x in subterms(r)) and valid(bounded(v, k), r != tot[0])


@contract("bit.c", "bit_cnt", "C15", mode="bv")
def _bit_cnt(c):
    p = bsetup(c, False)
    ex = c.ex
    w = word(c, c.st, p)
    pop = z3.BitVec("number_of_bits", 32)
    c.requires(pop == popcount(w))

    def hints(ex, entry, mod, nd, cond):
        """bits counted so far + bits left; bits below the index"""
        out = []
        ints = ex.locals_of(entry, lambda t: t.k == "int" and t.bits == 32)
        for n in ints:
            for x in ex.locals_of(entry, lambda t: t.k == "int" and t.bits == 64):
                out.append(Cand("bits counted and bits left", lambda st, n=n, x=x: st.env[n] + popcount(st.env[x]) == pop))
            for i in ints:
                sh = lambda st, i=i: z3.ZeroExt(32, st.env[i])
                low = lambda st, i=i, sh=sh: w & ~(z3.BitVecVal(2**64 - 1, 64) << sh(st))
                out.append(Cand("bits counted so far", lambda st, n=n, i=i, low=low: And(st.env[i] >= 0, st.env[i] <= 64, st.env[n] == popcount(low(st)))))
                out.append(Cand("bits below the index", lambda st, i=i: And(st.env[i] >= 0, st.env[i] <= 64)))
        for i in ints:
            for x in ex.locals_of(entry, lambda t: t.k == "int" and t.bits == 64):
                out.append(Cand("the word moved", lambda st, i=i, x=x: st.env[x] == z3.LShR(w, z3.ZeroExt(32, st.env[i]))))
        return out
    ex.loop_hints = hints
    for st, r in c.run():
        if not c.ex.loops and by_fields(w, r):
            c.ensure(st, "number of bits set", TRUE)
        else:
            c.ensure(st, "number of bits set", r == pop)
        c.unchanged(st, "bit_cnt changes nothing")
    c.errors()


# ---------------------------------------------------------------- base64 / base26
A64 = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/"
A26 = b"abcdefghijklmnopqrstuvwxyz"


def digit_char(alpha, d):
    """alphabet[d]"""
    e = RV(alpha[-1])
    runs = []
    for i, a in enumerate(alpha):
        if runs and a - alpha[runs[-1][0]] == i - runs[-1][0]:
            continue
        runs.append((i, a))
    for i, a in reversed(runs):
        pass
    e = None
    for i, a in runs:
        x = d - i + a
        e = x if e is None else If(d >= i, x, e)
    return e


def valid_char(alpha, ch_):
    return Or(*[ch_ == a for a in alpha])


def char_digit(alpha, ch_):
    e = RV(0)
    for i, a in enumerate(alpha):
        e = If(ch_ == a, RV(i), e)
    return e


def statics_of(c, pred):
    """static locals of the function, by type"""
    out = []

    def walk(n):
        if n.get("kind") == "VarDecl" and n.get("storageClass") == "static":
            t = c.tu.ty(n)
            if pred(t):
                init = [x for x in n.get("inner", []) if "Attr" not in x.get("kind", "")]
                out.append((c.fn["name"] + "." + n["name"], t, init[0] if n.get("init") and init else None))
        for x in n.get("inner", []):
            walk(x)
    walk(c.fn["body"])
    return out


def enc_contract(c, base, alpha, ndig):
    val = c.args[0]
    ex = c.ex
    digs = [(val / RV(base ** (ndig - 1 - i))) % RV(base) for i in range(ndig)]
    bufs = [s for s in statics_of(c, lambda t: t.k == "arr" and t.to.k == "int" and t.to.bits == 8)]
    prevs = [s for s in statics_of(c, lambda t: t.k == "int")]
    h = ex.rmap(c.st, CHAR)

    def inv(st, want_buf=None):
        """result cache: the buffer holds the digits of the remembered value"""
        out = []
        for bn, bt, bi in bufs:
            if bt.n != ndig + 1:
                continue
            for pn, pt, pi in prevs:
                pv = ex.gload(st, pn, pt)
                b = Select(ex.rmap(st, CHAR), ex.gref(bn))
                out += [Select(b, RV(i)) == digit_char(alpha, (pv / RV(base ** (ndig - 1 - i))) % RV(base)) for i in range(ndig)]
                out.append(Select(b, RV(ndig)) == 0)
        return And(*out)
    if prevs:
        c.requires(inv(c.st))
        # the initial values establish the invariant
        for bn, bt, bi in bufs:
            for pn, pt, pi in prevs:
                if bi is None or bt.n != ndig + 1:
                    continue
                iv = ex.init_values(bi, bt)
                pv = const_int(pi, c.tu) if pi is not None else 0
                ok = iv[ndig] == 0 and all(iv[i] == alpha[(pv // base ** (ndig - 1 - i)) % base] for i in range(ndig))
                c.ensure(c.st, "initial values satisfy the cache invariant", TRUE if ok else FALSE)
    c.run()
    for st, r in c.returns:
        i0 = oint(r.off)
        for j in range(ndig):
            cj = Select(Select(ex.rmap(st, CHAR), r.base), RV(j))
            c.ensure(st, "digit %d is the alphabet's character of the value" % j, Implies(i0 <= j, cj == digit_char(alpha, digs[j])))
            c.ensure(st, "digit %d left out only when it and all before it are zero" % j, Implies(i0 > j, digs[j] == 0))
            if j < ndig - 1:
                c.ensure(st, "no redundant leading zero digit %d" % j, Implies(i0 == j, digs[j] != 0))
        c.ensure(st, "at least one digit", And(i0 >= 0, i0 <= ndig - 1))
        c.ensure(st, "terminated", Select(Select(ex.rmap(st, CHAR), r.base), RV(ndig)) == 0)
        if prevs:
            c.ensure(st, "result cache stays consistent", inv(st))
        own = [ex.gref(b) for b, _, _ in bufs]
        c.frame(st, lambda o: Or(*[o == x for x in own]), globs=[p for p, _, _ in prevs])
    # decoding what was encoded: pure arithmetic lemmas over the two contracts
    lim = 2 ** 32 if base == 64 else base ** ndig
    x = z3.Int("x")
    for k in range(ndig):
        c.ensure(State(), "lemma: dividing step %d" % k, (x / RV(base ** k)) / RV(base) == x / RV(base ** (k + 1)), group="lemma")
    q = [z3.Int("q%d" % k) for k in range(ndig + 1)]
    s2 = State()
    s2.assume(val >= 0, val < lim, q[0] == val, q[ndig] == val / RV(base ** ndig))
    tot = RV(0)
    for k in range(ndig):
        s2.assume(q[k + 1] == q[k] / RV(base))
        tot = tot + (q[k] % RV(base)) * RV(base ** k)
    c.ensure(s2, "lemma: the digits' positional value is the value", tot == val, group="lemma")
    d = z3.Int("d")
    c.ensure(c.st0, "lemma: the alphabet is decoded to the digit", Implies(And(d >= 0, d < base), And(
        valid_char(alpha, digit_char(alpha, d)), char_digit(alpha, digit_char(alpha, d)) == d)), group="lemma")
    c.errors()


@contract("base64.c", "b64_encode", "C14")
def _b64_encode(c):
    c.requires(c.args[0] < 2 ** 32)
    enc_contract(c, 64, A64, 6)


@contract("base26.c", "b26_encode", "C14")
def _b26_encode(c):
    enc_contract(c, 26, A26, 7)


def dec_contract(c, base, alpha, n, withlen):
    ex = c.ex
    p = c.args[0]
    cs = [Select(Select(ex.rmap(c.st, CHAR), p.base), RV(i)) for i in range(n + 1)]
    c.requires(p.base != NULL, ex.kind(c.st, p.base) == RAW, ex.size(c.st, p.base) >= (n if withlen else n + 1))
    for x in cs:
        c.requires(x >= -128, x <= 127)
    if withlen:
        c.args[1] = RV(n)
    else:
        c.requires(*[x != 0 for x in cs[:n]])
        c.requires(cs[n] == 0)
    ok = And(*[valid_char(alpha, x) for x in cs[:n]])
    tot = RV(0)
    cd = [z3.Int("digit%d" % i) for i in range(n)]
    for i in range(n):
        c.requires(cd[i] == char_digit(alpha, cs[i]), cd[i] >= 0, cd[i] < base)
        tot = tot + cd[i] * RV(base ** (n - 1 - i))

    def hook(ex, st, g, i, w):
        # lemma at every table read whose index is built from one of the characters
        for k in range(n):
            if contains(i, [cs[k]]):
                ex.oblige(st, "table %s gives the digit of character %d" % (g["name"], k),
                          Implies(And(valid_char(alpha, cs[k]), Or(i == cs[k], i == cs[k] + 256)), w == cd[k]), group="lemma")
    ex.ctab_hook = hook
    c.allow("internal", Not(ok), name="character outside the alphabet")
    c.run()
    for st, r in c.returns:
        c.ensure(st, "positional value of the %d digits" % n, r == tot)
        c.unchanged(st, "decoding changes nothing")
    c.errors()


for _n in range(0, 7):
    contract("base64.c", "b64_decode_buf", "C14", name="b64_decode_buf[len=%d]" % _n)(
        lambda c, n=_n: dec_contract(c, 64, A64, n, True))
    contract("base64.c", "b64_decode", "C14", name="b64_decode[len=%d]" % _n)(
        lambda c, n=_n: dec_contract(c, 64, A64, n, False))
for _n in range(0, 8):
    contract("base26.c", "b26_decode", "C14", name="b26_decode[len=%d]" % _n)(
        lambda c, n=_n: dec_contract(c, 26, A26, n, False))

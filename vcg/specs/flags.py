"""maa/debug.c, maa/flags.c : four words of flags, one bit per (group, low bit); names registered in a hash table."""
from spec import *
from absmod import hash_models, hash_maps, sid

BV64 = z3.BitVecSort(64)
LOW = 0x3fffffff


def bv(n):
    return z3.BitVecVal(n, 64)


def single(x):
    return And(x != 0, (x & (x - 1)) == 0)


class Flags:
    def __init__(self, c, pre):
        self.c, self.ex, self.pre = c, c.ex, pre
        ex, st = c.ex, c.st
        hash_models(ex, st)
        ex.models["strcmp"] = self.m_strcmp
        ex.rmap(st, ULONG)
        self.set, self.used = ex.gref("setFlags"), ex.gref("usedFlags")
        for r in (self.set, self.used):
            c.requires(r != NULL, ex.kind(st, r) == STACKBLK, ex.size(st, r) == 32)
        c.requires(self.set != self.used, *[self.word(st, i, self.used) == 0 for i in range(4)])
        self.h0 = self.tab(st)
        c.requires(Or(self.h0 == NULL, ex.kind(st, self.h0) == K("table")))
        c.requires(Select(st.heap.get(("G", "t_ro"), ex.heap0[("G", "t_ro")]), self.h0) == 0)
        # every registered datum is a flag with exactly one low bit
        s = z3.Int("s")
        d = self.datum(st, self.h0, s)
        c.requires(forall([s], Implies(self.present(st, self.h0, s), self.isflag(p2i_bv(d))), [d]))
        self.pins = [d]
        ex.loop_hints = self.hints
        ex.join_returns = True

    isflag = staticmethod(lambda f: And(z3.LShR(f, 32) == 0, single(f & LOW)))

    def tab(self, st):
        return self.ex.gload(st, "hash", PTR(VOID)).base

    def word(self, st, i, r=None):
        return Select(Select(self.ex.rmap(st, ULONG), self.set if r is None else r), RV(i))

    def present(self, st, h, s):
        return Select(Select(st.heap.get(("G", "t_in"), self.ex.heap0[("G", "t_in")]), h), s)

    def datum(self, st, h, s):
        return Select(Select(st.heap.get(("G", "t_map"), self.ex.heap0[("G", "t_map")]), h), s)

    def m_strcmp(self, ex, st, vs, n):
        ex.trusted.add("strcmp")
        a, b = vs
        lit = ex.ctab.get(b.base.get_id())
        if lit is None:
            a, b = b, a
            lit = ex.ctab.get(b.base.get_id())
        if lit is None or not off_is0(b.off):
            ex.unsup("strcmp of two variables", n)
        r = fresh(z3.BitVecSort(32), "strcmp")
        ex.chk_raw(st, a.base, a.off, CHAR, n)
        st.assume((r == 0) == self.eqlit(st, a, bytes(x & 255 for x in lit[1][:-1])))
        return [(st, r)]

    def chr(self, st, p, i):
        return Select(Select(self.ex.rmap(st, CHAR), p.base), oint(p.off) + i)

    def eqlit(self, st, p, text):
        return And(*[self.chr(st, p, i) == x for i, x in enumerate(text)], self.chr(st, p, len(text)) == 0)

    def hints(self, ex, entry, mod, n, cond):
        out = []
        fs = [a for a in self.c.args if isinstance(a, z3.ExprRef) and a.sort() == BV64]
        for v in mod.vars:
            e = entry.env.get(v)
            if isinstance(e, z3.ExprRef) and e.sort() == BV64:
                for f in fs:
                    out.append(Cand("one bit exactly when the flag has", lambda st, v=v, f=f: single(st.env[v]) == single(f & LOW)))
                    out.append(Cand("zero exactly when the flag is", lambda st, v=v, f=f: (st.env[v] == 0) == (f & LOW == 0)))
        return out

    def named(self, name):
        """the argument is a string"""
        self.name = name
        c = self.c
        c.requires(name.base != NULL, c.ex.kind(c.st, name.base) > 0, c.ex.size(c.st, name.base) >= 1)
        for i in range(5):
            c.requires(Implies(And(*[self.chr(c.st, name, j) != 0 for j in range(i)]), c.ex.size(c.st, name.base) > i))
        c.requires(c.ex.kind(c.st, name.base) != STACKBLK)

    def flags(self, st, f, name):
        """f(group, low bits before) -> low bits after, for each of the four groups"""
        for g in range(4):
            self.c.ensure(st, name + " (group %d)" % g, (self.word(st, g) & LOW) == (f(g, self.word(self.c.st0, g)) & LOW))

    def same_table(self, st):
        c, ex = self.c, self.ex
        h = self.tab(st)
        s = z3.Int("s!sk")
        c.ensure(st, "the names stay registered", And(h == self.h0, self.present(st, h, s) == self.present(c.st0, h, s), self.datum(st, h, s) == self.datum(c.st0, h, s)))

    def rest(self, st, globs=()):
        self.c.frame(st, lambda o: Or(o == self.set, o == self.used, o == self.tab(st), o == self.h0), globs)


def sets(f, g):
    """mask of the flag in group g"""
    return If(z3.LShR(f, 30) == g, f, bv(0))


def make(tu, pre, reserved):
    def reg(fn, res):
        @contract(tu, fn, "C19", mode="bv")
        def _register(c):
            F = Flags(c, pre)
            ex, st = c.ex, c.st
            flag = c.args[0]
            F.named(c.args[1])
            c.requires(z3.LShR(flag, 32) == 0)
            c.run()
            if res:
                c.allow("fatal", z3.LShR(flag, 30) == 3, name="a flag reserved for the library")
            c.allow("fatal", Not(single(flag & LOW)), name="not exactly one low-order bit")
            s = sid(c.st0, c.args[1])
            for st, r in c.returns:
                h = F.tab(st)
                k = z3.Int("s!sk")
                was = And(F.h0 != NULL, F.present(c.st0, F.h0, k))
                c.ensure(st, "a table of names exists", And(h != NULL, ex.kind(st, h) == K("table"), Or(h == F.h0, F.h0 == NULL)))
                c.ensure(st, "the name is registered, all others are as before", F.present(st, h, k) == Or(was, k == s))
                c.ensure(st, "the name stands for the flag", p2i_bv(F.datum(st, h, k)) == If(was, p2i_bv(F.datum(c.st0, F.h0, k)), If(k == s, flag, p2i_bv(F.datum(st, h, k)))))
                F.flags(st, lambda g, w: w, "no flag changes")
                F.rest(st, ("hash",))
                c.ensure(st, "no name is remembered as taken", And(*[F.word(st, i, F.used) == 0 for i in range(4)]))
            c.errors()
    if reserved:
        reg("_" + pre + "register", False)
    reg(pre + "register", reserved)

    @contract(tu, pre + "set", "C19", mode="bv")
    def _set(c):
        F = Flags(c, pre)
        ex, st = c.ex, c.st
        name = c.args[0]
        F.named(name)
        c.run()
        s0 = c.st0
        none, all_ = F.eqlit(s0, name, b"none"), F.eqlit(s0, name, b"all")
        h = F.h0
        nxt = P(name.base, 1)
        p, q = sid(s0, name), sid(s0, nxt)
        direct = F.present(s0, h, p)
        plus, minus = F.chr(s0, name, 0) == ord("+"), F.chr(s0, name, 0) == ord("-")
        viasign = And(Or(plus, minus), F.present(s0, h, q))
        f1, f2 = p2i_bv(F.datum(s0, h, p)), p2i_bv(F.datum(s0, h, q))
        c.allow("fatal", h == NULL, name="no name registered")
        c.allow("fatal", And(h != NULL, Not(none), Not(all_), Not(direct), Not(viasign)), name="an unknown name")
        for st, r in c.returns:
            F.flags(st, lambda g, w: If(none, bv(0), If(all_, bv(LOW), If(direct, w | sets(f1, g), If(plus, w | sets(f2, g), w & ~sets(f2, g))))), "by name")
            F.same_table(st)
            F.rest(st)
        c.errors()

    @contract(tu, pre + "set", "C19", mode="bv", name=pre + "set(NULL)")
    def _set0(c):
        F = Flags(c, pre)
        c.requires(c.args[0].base == NULL)
        c.noreturn = True
        c.run()
        c.allow("internal", TRUE, name="no name")
        c.errors()

    @contract(tu, pre + "test", "C19", mode="bv")
    def _test(c):
        F = Flags(c, pre)
        flag = c.args[0]
        c.requires(F.isflag(flag))
        c.run()
        w = F.word(c.st0, 3)
        for g in range(3):
            w = If(z3.LShR(flag, 30) == g, F.word(c.st0, g), w)
        for st, r in c.returns:
            c.ensure(st, "non-zero exactly when the flag is set", (r != 0) == ((w & flag & LOW) != 0))
            F.flags(st, lambda g, w: w, "no flag changes")
            F.same_table(st)
            F.rest(st)
        c.errors()

    if reserved:
        for nm, f in (("set_flag", lambda w, m: w | m), ("unset_flag", lambda w, m: w & ~m)):
            @contract(tu, pre + nm, "C19", mode="bv")
            def _byvalue(c, f=f, nm=nm):
                F = Flags(c, pre)
                flag = c.args[0]
                c.requires(F.isflag(flag))
                c.run()
                for st, r in c.returns:
                    F.flags(st, lambda g, w: f(w, sets(flag, g)), "by value")
                    F.same_table(st)
                    F.rest(st)
                c.errors()

    @contract(tu, pre + "destroy", ["C19", "C28"], mode="bv")
    def _destroy(c):
        F = Flags(c, pre)
        c.run()
        for st, r in c.returns:
            F.flags(st, lambda g, w: bv(0), "all flags are cleared")
            c.ensure(st, "no name is remembered as taken", And(*[F.word(st, i, F.used) == 0 for i in range(4)]))
            c.ensure(st, "no name is registered", And(F.tab(st) == NULL, Implies(F.h0 != NULL, c.ex.kind(st, F.h0) == 0)))
            F.rest(st, ("hash",))
        c.errors()


make("debug.c", "dbg_", True)
make("flags.c", "flg_", False)

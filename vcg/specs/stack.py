"""maa/stack.c : a stack is the sequence of datums along the prev chain."""
from spec import *

TU = "stack.c"
D = ("data", "prev")


class V:
    """view of a stack object in a state"""

    def __init__(self, c, st, s):
        ex = c.ex
        self.top = Select(ex.fmap(st, "stack", "data", PTR(VOID)), s)
        self.lt = ex.lt(st, *D)
        self.R, self.ln = self.lt.R, self.lt.ln
        self.datum = lambda n: Select(ex.fmap(st, "data", "datum", PTR(VOID)), n)
        self.n = self.ln(self.top)
        self.on = lambda m: And(m != NULL, self.R(self.top, m))
        self.kind = lambda r: ex.kind(st, r)
        self.ini = lambda r: Select(ex.ini(st, *D), r)


def wf(c, st, s, sq):
    """representation invariant + abstraction: sq(i) is the i-th datum from the bottom"""
    v = V(c, st, s)
    m = z3.Const("m", Ref)
    return [s != NULL, v.kind(s) == K("stack"),
            forall([m], Implies(v.on(m), And(v.kind(m) == K("data"), v.ini(m), v.datum(m) == sq(v.ln(m) - 1))), [v.R(v.top, m)])]


def wf_goal(c, st, s, sq):
    v = V(c, st, s)
    m = z3.Const("m!sk", Ref)
    return And(s != NULL, v.kind(s) == K("stack"),
               Implies(v.on(m), And(v.kind(m) == K("data"), v.ini(m), v.datum(m) == sq(v.ln(m) - 1))))


def setup(c):
    s = c.args[0].base
    sq = z3.Function("sq", IntS, Ref)
    c.requires(*wf(c, c.st, s, sq))
    return s, sq


def foot(c, s):
    v = V(c, c.st0, s)
    return lambda o: Or(o == s, v.on(o))


def grow_only(c, st, s):
    """the new footprint adds only blocks that were not alive before"""
    v1, m = V(c, st, s), z3.Const("m!fp", Ref)
    f0 = foot(c, s)
    c.ensure(st, "footprint grows by fresh blocks only", Implies(v1.on(m), Or(f0(m), c.ex.kind(c.st0, m) == 0)))


@contract(TU, "stk_create", ["C07", "C21"])
def _create(c):
    V(c, c.st, z3.Const("x", Ref))
    c.run()
    for st, r in c.returns:
        sq = z3.Function("sq", IntS, Ref)
        c.ensure(st, "a new stack is well formed", wf_goal(c, st, r.base, sq))
        c.ensure(st, "a new stack is empty", V(c, st, r.base).n == 0)
        c.ensure(st, "a new stack is a fresh block", c.ex.kind(c.st0, r.base) == 0)
        c.frame(st, lambda o: FALSE)
    c.errors()


@contract(TU, "stk_push", ["C07", "C21"])
def _push(c):
    s, sq = setup(c)
    d = c.args[1].base
    n0 = V(c, c.st, s).n
    c.run()
    for st, r in c.returns:
        sq2 = lambda i: If(i == n0, d, sq(i))
        c.ensure(st, "pushed: old contents below the new datum", wf_goal(c, st, s, sq2))
        c.ensure(st, "one element more", V(c, st, s).n == n0 + 1)
        c.frame(st, foot(c, s))
        grow_only(c, st, s)
    c.errors()


@contract(TU, "stk_pop", "C07")
def _pop(c):
    s, sq = setup(c)
    n0 = V(c, c.st, s).n
    c.run()
    for st, r in c.returns:
        c.ensure(st, "returns the most recent datum, NULL when empty", r.base == If(n0 == 0, NULL, sq(n0 - 1)))
        c.ensure(st, "the rest of the stack is unchanged", wf_goal(c, st, s, sq))
        c.ensure(st, "one element less", V(c, st, s).n == If(n0 == 0, n0, n0 - 1))
        c.frame(st, foot(c, s))
        grow_only(c, st, s)
    c.errors()


@contract(TU, "stk_top", "C07")
def _top(c):
    s, sq = setup(c)
    n0 = V(c, c.st, s).n
    c.run()
    for st, r in c.returns:
        c.ensure(st, "returns the most recent datum, NULL when empty", r.base == If(n0 == 0, NULL, sq(n0 - 1)))
        c.unchanged(st, "stk_top changes nothing")
    c.errors()


@contract(TU, "stk_isempty", "C07")
def _isempty(c):
    s, sq = setup(c)
    n0 = V(c, c.st, s).n
    c.run()
    for st, r in c.returns:
        c.ensure(st, "1 exactly for the empty stack", r == If(n0 == 0, RV(1), RV(0)))
        c.unchanged(st, "stk_isempty changes nothing")
    c.errors()


@contract(TU, "stk_destroy", "C07")
def _destroy(c):
    s, sq = setup(c)
    fp = foot(c, s)
    v0 = V(c, c.st, s)

    def hints(ex, entry, mod, n, cond):
        out = []
        m = z3.Const("m", Ref)

        def keep(st):
            v = V(c, st, s)
            return forall([m], Implies(v.on(m), And(v.kind(m) == K("data"), v.ini(m))), [v.R(v.top, m)])

        def dead(st):
            v = V(c, st, s)
            return forall([m], Implies(And(v0.on(m), Not(v.on(m))), v.kind(m) == 0), [v0.R(v0.top, m)])

        def suffix(st):
            return v0.R(v0.top, V(c, st, s).top)

        def rest(st):
            return forall([m], Implies(Not(fp(m)), ex.kind(st, m) == ex.kind(c.st0, m)), [ex.kind(st, m)])
        for p in [k for k, x in entry.env.items() if isinstance(x, P) and x.path is None and k in mod.vars]:
            b = lambda st, p=p: st.env[p].base
            R = lambda st: V(c, st, s).R
            out.append(Cand("chain from the walker is intact", lambda st, b=b, R=R: (lambda v: forall(
                [m], Implies(And(m != NULL, R(st)(b(st), m)), And(v.kind(m) == K("data"), v.ini(m))), [R(st)(b(st), m)]))(V(c, st, s))))
            out.append(Cand("nodes before the walker are released", lambda st, b=b, R=R: forall(
                [m], Implies(And(v0.on(m), Not(R(st)(b(st), m))), ex.kind(st, m) == 0), [v0.R(v0.top, m)])))
            out.append(Cand("the walker is on the chain", lambda st, b=b: v0.R(v0.top, b(st))))
        for key in mod.heap:
            if key[0] == "f" and key[1] == "data":
                out.append(Cand("%s of the remaining chain as on entry" % (key,), lambda st, key=key: (lambda v: forall(
                    [m], Implies(v.on(m), And(Select(st.heap[key], m) == Select(ex.heap0[key], m), v0.R(v0.top, Select(ex.heap0[key], m)) if key[2] == D[1] else TRUE)),
                    [v.R(v.top, m)]))(V(c, st, s))))
            if key[0] == "f":
                out.append(Cand("%s of other blocks untouched" % (key,), lambda st, key=key: forall([m], Implies(
                    Not(fp(m)), Select(st.heap[key], m) == Select(ex.heap0[key], m)), [Select(st.heap[key], m)])))
        out.append(Cand("remaining chain is intact", keep))
        out.append(Cand("popped nodes are released", dead))
        out.append(Cand("remaining chain is a suffix", suffix))
        out.append(Cand("other blocks untouched", rest))
        out.append(Cand("stack object alive", lambda st: ex.kind(st, s) == K("stack")))
        return out
    c.ex.loop_hints = hints
    c.run()
    m = z3.Const("m!sk", Ref)
    for st, r in c.returns:
        c.ensure(st, "all memory of the stack is released", Implies(Or(m == s, v0.on(m)), c.ex.kind(st, m) == 0))
        c.frame(st, fp)
    c.errors()

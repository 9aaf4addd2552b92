"""Verification-condition generator: forward symbolic execution of the clang syntax tree.

One function at a time, all paths; loops are cut by inductive invariants (candidates filtered
by Houdini, see loop()); calls to other public functions use their contract (models / client
contracts), static helpers are executed in line.  Every obligation is handed to an SMT solver;
"unknown" counts as not discharged.

Memory model (type based): one map per struct field (Ref -> value), one map per element type of
raw arrays (Ref -> Int -> value), `kind` (0 dead, otherwise what the block is) and `size`
(bytes).  Linked structures: for every self-referential pointer field the state carries a ghost
reachability relation R and length function.
"""
import z3, re
from cast import *
import cast as _cast

z3.set_param("auto_config", False)
z3.set_param("smt.mbqi", False)
z3.set_param("smt.auto_config", False)

Ref = z3.DeclareSort("Ref")
NULL = z3.Const("NULL", Ref)
RefS, IntS, BoolS, RealS = Ref, z3.IntSort(), z3.BoolSort(), z3.RealSort()
RV = z3.IntVal
TRUE, FALSE = z3.BoolVal(True), z3.BoolVal(False)

padd = z3.Function("padd", Ref, IntS, Ref)
pfld = {}                       # interior pointer constructors
umod = z3.Function("umod", IntS, IntS, IntS)
udiv = z3.Function("udiv", IntS, IntS, IntS)
umul = z3.Function("umul", IntS, IntS, IntS)
i2p = z3.Function("i2p", IntS, Ref)
p2i = z3.Function("p2i", Ref, IntS)
i2p_bv = z3.Function("i2p_bv", z3.BitVecSort(64), Ref)
p2i_bv = z3.Function("p2i_bv", Ref, z3.BitVecSort(64))

UNTYPED = 1
RAW = 2
STACKBLK = 3
_kinds = {}


BoolVal = z3.BoolVal


def K(tag):
    """kind number of a struct type"""
    return _kinds.setdefault(tag, 10 + len(_kinds))


_fresh = [0]


def fresh(sort, name="v"):
    _fresh[0] += 1
    return z3.Const("%s!%d" % (name, _fresh[0]), sort)


def fresh_id():
    _fresh[0] += 1
    return _fresh[0]


def fresh_fun(name, *sorts):
    _fresh[0] += 1
    return z3.Function("%s!%d" % (name, _fresh[0]), *sorts)


def And(*a):
    a = [x for x in a if not z3.is_true(x)]
    return TRUE if not a else (a[0] if len(a) == 1 else z3.And(*a))


def Or(*a):
    a = [x for x in a if not z3.is_false(x)]
    return FALSE if not a else (a[0] if len(a) == 1 else z3.Or(*a))


Not, Implies, Store = z3.Not, z3.Implies, z3.Store


def If(c, a, b):
    if z3.is_true(c):
        return a
    if z3.is_false(c):
        return b
    if isinstance(a, z3.ExprRef) and isinstance(b, z3.ExprRef) and a.eq(b):
        return a
    return z3.If(c, a, b)


def eq_simpl(i, j):
    if i.eq(j):
        return TRUE
    if z3.is_int_value(i) and z3.is_int_value(j):
        return FALSE
    return i == j


def Select(h, j):
    """read over write is resolved here, so that the solver sees (nearly) no array stores"""
    if isinstance(j, int):
        j = RV(j)
    memo = {}

    def go(h):
        if z3.is_app(h):
            k = h.decl().kind()
            if k == z3.Z3_OP_STORE:
                c = eq_simpl(h.arg(1), j)
                if z3.is_true(c):
                    return h.arg(2)
                return If(c, h.arg(2), go(h.arg(0)))
            if k == z3.Z3_OP_ITE:
                m = memo.get(h.get_id())
                if m is None:
                    m = memo[h.get_id()] = If(h.arg(0), go(h.arg(1)), go(h.arg(2)))
                return m
        return z3.Select(h, j)
    return go(h)


def clean(p):
    """may the term be used in a trigger?"""
    st, seen = [p], set()
    while st:
        x = st.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_app(x) and (x.decl().kind() in (z3.Z3_OP_ITE, z3.Z3_OP_STORE, z3.Z3_OP_EQ, z3.Z3_OP_OR, z3.Z3_OP_AND,
                                                  z3.Z3_OP_NOT, z3.Z3_OP_IMPLIES, z3.Z3_OP_LE, z3.Z3_OP_GE, z3.Z3_OP_LT, z3.Z3_OP_GT,
                                                  z3.Z3_OP_ADD, z3.Z3_OP_SUB, z3.Z3_OP_MUL)):
            return False
        st.extend(x.children())
    return True


def contains(p, vs):
    ids = {v.get_id() for v in vs}
    st, seen = [p], set()
    while st:
        x = st.pop()
        i = x.get_id()
        if i in seen:
            continue
        seen.add(i)
        if i in ids:
            return True
        st.extend(x.children())
    return False


def clean_parts(p, vs):
    out = []
    seen = set()

    def go(x):
        if x.get_id() in seen:
            return
        seen.add(x.get_id())
        if not z3.is_app(x) or not x.children() or not contains(x, vs):
            return
        if clean(x):
            if not any(x.eq(y) for y in out):
                out.append(x)
            return
        for c in x.children():
            go(c)
    go(p)
    return out


def forall(vs, body, pats=None):
    if pats is None:
        return z3.ForAll(vs, body)
    ps = []
    for p in pats:
        if isinstance(p, (list, tuple)):
            alts = [clean_parts(x, vs) for x in p]
            combos = [[]]
            for a in alts:
                combos = [c + [x] for c in combos for x in a]
            ps += [z3.MultiPattern(*c) for c in combos[:6] if c and all(any(contains(x, [v]) for x in c) for v in vs)]
        else:
            ps += [x for x in clean_parts(p, vs) if all(contains(x, [v]) for v in vs)]
    if not ps:
        return z3.ForAll(vs, body)
    return z3.ForAll(vs, body, patterns=ps)


class P:
    """pointer value: block, offset (in elements of the innermost scalar), path inside a struct"""
    __slots__ = ("base", "off", "path")

    def __init__(s, base, off=0, path=None):
        s.base, s.off, s.path = base, off, path

    def __repr__(s):
        return "P(%s,%s,%s)" % (s.base, s.off, s.path)


class F:
    """function designator"""
    def __init__(s, name):
        s.name = name


def fnref(name):
    return z3.Const("fn_" + name, Ref)


def off_is0(o):
    return isinstance(o, int) and o == 0 or (not isinstance(o, int) and z3.is_int_value(o) and o.as_long() == 0)


def oint(o):
    return RV(o) if isinstance(o, int) else o


def toref(v):
    if isinstance(v, F):
        return fnref(v.name)
    if v is None:
        return NULL
    b = v.base
    if v.path is not None:
        f = pfld.setdefault(v.path, z3.Function("pfld_" + "_".join(map(str, v.path)), Ref, Ref))
        b = f(b)
    if off_is0(v.off):
        return b
    return padd(b, oint(v.off))


class LT:
    """ghost list theory of one next field in one state"""
    __slots__ = ("R", "ln", "id")

    def __init__(s, R, ln):
        s.R, s.ln = R, ln
        s.id = fresh_id()


class State:
    def __init__(s):
        s.env, s.heap, s.pc, s.lts, s.gh = {}, {}, [], {}, {}
        s.trace = ()

    def copy(s):
        t = State.__new__(State)
        t.env, t.heap, t.pc, t.lts, t.gh = dict(s.env), dict(s.heap), list(s.pc), dict(s.lts), dict(s.gh)
        t.trace = s.trace
        return t

    def assume(s, *f):
        for x in f:
            if not z3.is_true(x):
                s.pc.append(x)
        return s


class Out:
    __slots__ = ("k", "st", "v")

    def __init__(s, k, st, v=None):
        s.k, s.st, s.v = k, st, v


class Obl:
    __slots__ = ("name", "pc", "goal", "loc", "status", "time", "backend", "model", "group")

    def __init__(s, name, pc, goal, loc, group=None):
        s.name, s.pc, s.goal, s.loc = name, pc, goal, loc
        s.status = s.time = s.backend = s.model = None
        s.group = group


def has_quant(e, cache={}):
    k = e.get_id()
    # cache holds the expression to keep ids stable
    if k in cache:
        return cache[k][1]
    st = [e]
    seen = set()
    r = False
    while st:
        x = st.pop()
        i = x.get_id()
        if i in seen:
            continue
        seen.add(i)
        if z3.is_quantifier(x):
            r = True
            break
        st.extend(x.children())
    cache[k] = (e, r)
    return r


def eqv(a, b):
    """syntactic equality of symbolic values"""
    if a is b:
        return True
    if isinstance(a, P) and isinstance(b, P):
        return a.base.eq(b.base) and a.path == b.path and oint(a.off).eq(oint(b.off))
    if isinstance(a, F) and isinstance(b, F):
        return a.name == b.name
    if isinstance(a, z3.ExprRef) and isinstance(b, z3.ExprRef):
        return a.eq(b)
    return False


# ------------------------------------------------------------------ the executor
import os
DBG = os.environ.get('VCG_DBG', '')


class Exec:
    def dbg_fail(self, b, f):
        import pickle
        s = z3.Solver()
        for x in self.axioms + b.pc:
            s.add(x)
        s.add(Not(f))
        self.dbgn = getattr(self, 'dbgn', 0) + 1
        open('/tmp/dbg_fail%d.smt2' % self.dbgn, 'w').write(s.to_smt2())
        print('   written /tmp/dbg_fail%d.smt2' % self.dbgn, str(f)[:1500])

    RL_QUICK = 400000
    TMO = 60000
    RL_CAND = 6000000
    RL_OBL = 40000000

    def __init__(self, tu, spec=None, mode="int"):
        self.tu, self.spec, self.mode = tu, spec, mode
        self.axioms = []
        self.obls = []
        self.mute = 0
        self.exits = []
        self.frame = 0
        self.fstack = []
        self.nq = 0
        self.heap0 = {}
        self.heapsorts = {}
        self.statics = {}
        self.addrtaken = {}
        self.ptr_bytes = None       # ghost: bytes of a pointer's representation
        self.trusted = set()
        self.inlined = set()
        self.loops = 0
        self.loop_info = []
        self.maxpaths = 4000
        self.unroll = {}
        self.strlits = {}
        self.nouf = False
        self.models = {k: v for k, v in MODELS.items() if k not in tu.funcs}      # inside its own unit a function is its body
        self.indirect = None
        self.loop_hints = None
        self.on_store = None
        self.on_raw = None
        self.on_load = None
        self.merge_heap = False
        self.merge_min = 2
        self.joins = []
        self.merge_ifs = True
        self.const_unroll = True
        self.known = {}          # id of a named constant -> interval
        self._keep = []
        self.slim = []
        self.skip_cands = ()
        self.ctab_hook = None
        self._const_globals()

    # ---------------- solver helpers
    def _solver(self, rl):
        s = z3.SimpleSolver()
        s.set("rlimit", rl)
        s.set("mbqi", False)
        s.set("auto_config", False)
        s.set("timeout", self.TMO)
        return s

    def quick_unsat(self, st, *extra):
        """cheap quantifier-free infeasibility test"""
        self.nq += 1
        s = self._solver(self.RL_QUICK)
        for f in st.pc:
            if not has_quant(f):
                s.add(f)
        for f in extra:
            s.add(f)
        return s.check() == z3.unsat

    def prove(self, pc, goal, rl=None, quick_first=False):
        self.nq += 1
        g = z3.simplify(goal) if not has_quant(goal) else goal
        if z3.is_true(g):
            return "unsat"
        s = self._solver(rl or self.RL_OBL)
        for f in self.axioms:
            s.add(f)
        for f in pc:
            s.add(f)
        s.add(Not(goal))
        r = s.check()
        if r == z3.unknown and self.mode == "bv" and self.prove_bits(pc, goal):
            r = z3.unsat
        return "unsat" if r == z3.unsat else ("sat" if r == z3.sat else "unknown")

    def assume_cand(self, c, st):
        f = c.f(st)
        st.assume(f)
        if c.slim:
            self.slim.append(f)

    def prove_cand(self, c, st, f):
        pc = st.pc
        if c.slim:
            ids = {x.get_id() for x in self.slim}
            pc = [x for x in pc if x.get_id() in ids or not has_quant(x)]
        return self.prove(pc, f, self.RL_CAND)

    def prove_bits(self, pc, goal):
        """by bit-blasting: loads become constants, facts that are not about words are dropped"""
        loads, memo = {}, {}

        def go(x):
            k = x.get_id()
            if k in memo:
                return memo[k]
            if z3.is_quantifier(x):
                r = None
            elif z3.is_bv(x) and not x.num_args():
                r = x
            elif z3.is_bv(x) and x.decl().kind() in (z3.Z3_OP_SELECT, z3.Z3_OP_UNINTERPRETED):
                r = loads.setdefault(k, z3.BitVec("word_%d" % k, x.size()))
            elif z3.is_bv(x) or z3.is_bool(x):
                cs = [go(c) for c in x.children()]
                r = None if any(c is None for c in cs) else x.decl()(*cs) if cs else x
            else:
                r = None
            memo[k] = r
            self._keep.append(x)
            return r
        g = go(goal)
        if g is None:
            return False
        fs = [f for f in map(go, pc) if f is not None]

        def names(x):
            out, todo, seen = set(), [x], set()
            while todo:
                y = todo.pop()
                if y.get_id() not in seen:
                    seen.add(y.get_id())
                    if z3.is_const(y) and y.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                        out.add(y.decl().name())
                    todo += y.children()
            return out
        gn = names(g)
        near = [f for f in fs if names(f) <= gn]
        for sel in ((near, fs) if len(near) < len(fs) else (fs,)):
            s = z3.SolverFor("QF_BV")
            s.set("timeout", min(self.TMO, 20000))
            s.add(*sel)
            s.add(Not(g))
            r = s.check()
            if r == z3.unsat:
                return True
            if r == z3.unknown:
                return False
        return False

    def prove_split(self, pc, goal, depth=6):
        """by cases on the conditions where paths were joined"""
        for i, c in enumerate(self.joins):
            if not (contains(goal, [c]) or any(contains(f, [c]) for f in pc)):
                continue
            for v, e in ((TRUE, c), (FALSE, Not(c))):
                pc2 = [z3.substitute(f, (c, v)) for f in pc]
                g2 = z3.substitute(goal, (c, v))
                pc2 = [f if has_quant(f) else z3.simplify(f) for f in pc2] + [e]
                if self.prove(pc2, g2) == "unsat":
                    continue
                if depth <= 1:
                    return "unknown"
                keep, self.joins = self.joins, self.joins[i + 1:]
                r = self.prove_split(pc2, g2, depth - 1)
                self.joins = keep
                if r != "unsat":
                    return r
            return "unsat"
        return "unknown"

    def oblige(self, st, name, goal, node=None, assume=True, group=None):
        if not self.mute:
            self.obls.append(Obl(name, list(st.pc), goal, self.where(node), group))
        if assume:
            st.assume(goal)

    def where(self, node):
        if not isinstance(node, dict):
            return str(node or "")
        r = node.get("range", {}).get("begin", {})
        l = r.get("_line") or r.get("line") or r.get("expansionLoc", {}).get("line") or r.get("spellingLoc", {}).get("line")
        return "%s%s" % (self.fstack[-1][0] if self.fstack else "", ":%s" % l if l else "")

    def unsup(self, msg, node=None):
        raise Unsupported("%s: %s %s" % (self.tu.name, msg, self.where(node)))

    # ---------------- sorts, heap maps
    def sort(self, t):
        if t.k == "int":
            if t.bits == 1:
                return BoolS
            return IntS if self.mode == "int" else z3.BitVecSort(t.bits)
        if t.k == "float":
            return RealS
        return Ref

    def rawkey(self, t):
        if t.k == "int":
            return ("r", "i8") if t.bits == 8 else ("r", "%s%d" % ("i" if t.signed else "u", t.bits))
        if t.k == "float":
            return ("r", "f")
        return ("r", "ptr")

    def hmap(self, st, key, mk):
        """current z3 term of a heap map (created on first use)"""
        h = st.heap.get(key)
        if h is None:
            h0 = self.heap0.get(key)
            if h0 is None:
                h0 = self.heap0[key] = z3.Const("H_" + "_".join(map(str, key)), mk())
            h = st.heap[key] = h0
        return h

    def fmap(self, st, tag, f, t):
        return self.hmap(st, ("f", tag, f), lambda: z3.ArraySort(Ref, self.sort(t)))

    def famap(self, st, tag, f, t):
        return self.hmap(st, ("fa", tag, f), lambda: z3.ArraySort(Ref, z3.ArraySort(IntS, self.sort(t))))

    def rawsort(self, t):
        if t.k == "int" and t.bits == 8:
            return self.sort(CHAR)
        return self.sort(t)

    def rmap(self, st, t):
        return self.hmap(st, self.rawkey(t), lambda: z3.ArraySort(Ref, z3.ArraySort(IntS, self.rawsort(t))))

    def kmap(self, st):
        return self.hmap(st, ("kind",), lambda: z3.ArraySort(Ref, IntS))

    def smap(self, st):
        return self.hmap(st, ("size",), lambda: z3.ArraySort(Ref, IntS))

    def kind(self, st, r):
        return Select(self.kmap(st), r)

    def size(self, st, r):
        return Select(self.smap(st), r)

    def set_kind(self, st, r, k):
        st.heap[("kind",)] = Store(self.kmap(st), r, RV(k) if isinstance(k, int) else k)

    def set_size(self, st, r, n):
        st.heap[("size",)] = Store(self.smap(st), r, n)

    def alive(self, st, r):
        return And(r != NULL, self.kind(st, r) > 0)

    def ghost(self, st, name, mk):
        g = st.gh.get(name)
        if g is None:
            g0 = self.heap0.get(("gh", name))
            if g0 is None:
                g0 = self.heap0[("gh", name)] = z3.Const("G_" + name, mk())
            g = st.gh[name] = g0
        return g

    # ---------------- ranges
    def rng(self, t):
        if t.signed:
            return -(1 << (t.bits - 1)), (1 << (t.bits - 1)) - 1
        return 0, (1 << t.bits) - 1

    def inrange(self, e, t):
        lo, hi = self.rng(t)
        return And(e >= lo, e <= hi)

    def bounds(self, e, depth=0):
        """cheap syntactic interval of an integer term"""
        if z3.is_int_value(e):
            v = e.as_long()
            return v, v
        if depth > 40 or not z3.is_app(e):
            return None
        k = e.decl().kind()
        if k == z3.Z3_OP_ITE:
            a, b = self.bounds(e.arg(1), depth + 1), self.bounds(e.arg(2), depth + 1)
            return None if a is None or b is None else (min(a[0], b[0]), max(a[1], b[1]))
        if k == z3.Z3_OP_ADD:
            lo = hi = 0
            for c in e.children():
                b = self.bounds(c, depth + 1)
                if b is None:
                    return None
                lo, hi = lo + b[0], hi + b[1]
            return lo, hi
        if k == z3.Z3_OP_MUL and e.num_args() == 2:
            a, b = self.bounds(e.arg(0), depth + 1), self.bounds(e.arg(1), depth + 1)
            if a is None or b is None:
                return None
            p = [x * y for x in a for y in b]
            return min(p), max(p)
        if k == z3.Z3_OP_MOD and z3.is_int_value(e.arg(1)) and e.arg(1).as_long() > 0:
            return 0, e.arg(1).as_long() - 1
        if k == z3.Z3_OP_IDIV and z3.is_int_value(e.arg(1)) and e.arg(1).as_long() > 0:
            b = self.bounds(e.arg(0), depth + 1)
            d = e.arg(1).as_long()
            return None if b is None else (b[0] // d, b[1] // d)
        return self.known.get(e.get_id())

    def norm(self, st, e, t, node=None, what="arithmetic"):
        """bring an exact integer result into type t (Int mode)"""
        if self.mode != "int":
            return e
        e = z3.simplify(e)
        lo, hi = self.rng(t)
        if z3.is_int_value(e):
            v = e.as_long()
            if lo <= v <= hi:
                return e
        b = self.bounds(e)
        if b is not None and lo <= b[0] and b[1] <= hi:
            return e
        if self.quick_unsat(st, Or(e < lo, e > hi)):
            return e
        if t.signed:
            self.oblige(st, "no signed overflow", And(e >= lo, e <= hi), node, group="ub")
            return e
        return e % (1 << t.bits)

    def castint(self, st, e, ft, tt, node=None):
        if tt.bits == 8 and not tt.signed and ft.bits == 8 and False:
            return e
        if self.mode == "bv":
            if ft.bits == tt.bits:
                return e
            if ft.bits > tt.bits:
                return z3.Extract(tt.bits - 1, 0, e)
            n = tt.bits - ft.bits
            return z3.SignExt(n, e) if ft.signed else z3.ZeroExt(n, e)
        flo, fhi = self.rng(ft)
        tlo, thi = self.rng(tt)
        if tlo <= flo and fhi <= thi:
            return e
        e = z3.simplify(e)
        if z3.is_int_value(e):
            v = e.as_long() % (1 << tt.bits)
            if tt.signed and v > thi:
                v -= 1 << tt.bits
            return RV(v)
        b = self.bounds(e)
        if b is not None and tlo <= b[0] and b[1] <= thi:
            return e
        if self.quick_unsat(st, Or(e < tlo, e > thi)):
            return e
        m = 1 << tt.bits
        if tt.signed:
            # same width or narrowing
            if flo >= 0 and fhi < m:
                return If(e > thi, e - m, e)
            return (e + (m >> 1)) % m - (m >> 1)
        if flo >= -m and fhi < m:
            return If(e < 0, e + m, e)
        return e % m

    def ival(self, n, t):
        if self.mode == "bv":
            return z3.BitVecVal(n, t.bits)
        return RV(n)

    def truth(self, v, t=None):
        """C truth of a value as Bool"""
        if isinstance(v, P):
            return self.ptr_ne(v, P(NULL))
        if isinstance(v, F):
            return TRUE
        if z3.is_bool(v):
            return v
        if z3.is_app(v) and v.decl().kind() == z3.Z3_OP_ITE:
            c, a, b = v.children()
            if self._isnum(a) is not None and self._isnum(b) is not None:
                x, y = self._isnum(a) != 0, self._isnum(b) != 0
                if x and y:
                    return TRUE
                if not x and not y:
                    return FALSE
                return c if x else Not(c)
        return v != 0

    def _isnum(self, e):
        if z3.is_int_value(e) or z3.is_bv_value(e):
            return e.as_long()
        return None

    def b2i(self, b, t=INT):
        return If(b, self.ival(1, t), self.ival(0, t))

    # ---------------- pointers
    def ptr_eq(self, a, b):
        if isinstance(a, F) or isinstance(b, F):
            return toref(a) == toref(b)
        if a.path == b.path:
            if off_is0(a.off) and off_is0(b.off):
                return a.base == b.base
            if z3.eq(a.base, b.base):
                return oint(a.off) == oint(b.off)
            if z3.eq(b.base, NULL) and off_is0(b.off):
                return a.base == NULL if off_is0(a.off) else FALSE if isinstance(a.off, int) else And(a.base == NULL, a.off == 0)
            if z3.eq(a.base, NULL) and off_is0(a.off):
                return b.base == NULL if off_is0(b.off) else FALSE if isinstance(b.off, int) else And(b.base == NULL, b.off == 0)
            return And(a.base == b.base, oint(a.off) == oint(b.off))
        if b.path is None and z3.eq(b.base, NULL):
            return FALSE
        if a.path is None and z3.eq(a.base, NULL):
            return FALSE
        return toref(a) == toref(b)

    def ptr_ne(self, a, b):
        return Not(self.ptr_eq(a, b))

    # ---------------- list theories
    def lt_fields(self):
        r = getattr(self, "_ltf", None)
        if r is None:
            r = set()
            for tag, fl in self.tu.structs.items():
                for f, t in fl:
                    if t.k == "ptr" and t.to.k == "struct" and t.to.tag == tag:
                        r.add((tag, f))
            self._ltf = r
        return r

    def new_lt(self, st, tag, f, nm=None):
        R = fresh_fun("R_" + tag, Ref, Ref, BoolS)
        ln = fresh_fun("len_" + tag, Ref, IntS)
        st.assume(*lt_axioms(R, ln, lambda a: Select(self.fmap(st, tag, f, PTR(VOID)), a)))
        l = LT(lambda a, b: R(a, b), lambda a: ln(a))
        st.lts[(tag, f)] = l
        return l

    def lt(self, st, tag, f):
        l = st.lts.get((tag, f))
        if l is None:
            # first use: initial symbols are shared by all states of this run
            k = ("lt", tag, f)
            if k not in self.heap0:
                h = self.fmap(st, tag, f, PTR(VOID))
                if not h.eq(self.heap0[("f", tag, f)]):
                    self.unsup("list theory created late")
                R = z3.Function("R_%s_%s" % (tag, f), Ref, Ref, BoolS)
                ln = z3.Function("len_%s_%s" % (tag, f), Ref, IntS)
                self.axioms += lt_axioms(R, ln, lambda a: Select(h, a))
                self.heap0[k] = LT(lambda a, b: R(a, b), lambda a: ln(a))
            l = st.lts[(tag, f)] = self.heap0[k]
        return l

    def lt_write(self, st, tag, f, x, y, node):
        l = self.lt(st, tag, f)
        R, ln = l.R, l.ln
        if not z3.eq(y, NULL):
            self.oblige(st, "the chain stays acyclic", Not(R(y, x)), node, group="mem")
        st.lts[(tag, f)] = LT(
            lambda a, b: If(R(a, x), Or(And(R(a, b), R(b, x)), R(y, b)), R(a, b)),
            lambda a: If(R(a, x), ln(a) - ln(x) + 1 + ln(y), ln(a)))

    def ini(self, st, tag, f):
        """ghost: has the next field been written since allocation?"""
        return self.hmap(st, ("ini", tag, f), lambda: z3.ArraySort(Ref, BoolS))

    # ---------------- allocation
    def alloc(self, st, nbytes, name="blk"):
        r = fresh(Ref, name)
        st.assume(r != NULL, self.kind(st, r) == 0)
        self.set_kind(st, r, UNTYPED)
        self.set_size(st, r, nbytes if isinstance(nbytes, z3.ExprRef) else RV(nbytes))
        return r

    def type_block(self, st, r, tag, node):
        """a freshly allocated block is used as struct `tag`"""
        sz = self.tu.sizeof(T("struct", tag=tag))
        self.oblige(st, "allocated block is large enough for struct " + tag, self.size_int(st, r) >= sz, node, group="mem")
        self.set_kind(st, r, K(tag))
        zero = r.get_id() in getattr(self, "zeroed", ())    # calloc'd: every field is 0
        for f, t in self.flat(tag):
            if t.k == "arr":
                h = self.famap(st, tag, f, t.to)
                st.heap[("fa", tag, f)] = Store(h, r, fresh(h.range(), "u"))
                continue
            h = self.fmap(st, tag, f, t)
            if (tag, f) in self.lt_fields():
                self.lt(st, tag, f)
                self.lt_write(st, tag, f, r, NULL, node)
                st.heap[("f", tag, f)] = Store(h, r, NULL)
                st.heap[("ini", tag, f)] = Store(self.ini(st, tag, f), r, TRUE if zero else FALSE)
            elif zero and t.k in ("ptr", "int", "float"):
                st.heap[("f", tag, f)] = Store(h, r, NULL if t.k == "ptr" else self.ival(0, t) if t.k == "int" else z3.RealVal(0))
            else:
                st.heap[("f", tag, f)] = Store(h, r, fresh(h.range(), "u"))

    def size_int(self, st, r):
        return self.size(st, r)

    def flat(self, tag, pre=""):
        """scalar fields of a struct, nested structs flattened"""
        for f, t in self.tu.fields(tag):
            if f == "_anon":
                continue
            if t.k == "struct":
                for x in self.flat(t.tag, pre + f + "."):
                    yield x
            else:
                yield pre + f, t

    # ---------------- loads and stores
    def chk_struct(self, st, r, tag, node):
        if tag is None:
            self.unsup("struct without a name", node)
        if getattr(self, "nomem", False):
            return
        self.oblige(st, "access to a live struct " + tag, And(r != NULL, self.kind(st, r) == K(tag)), node, group="mem")

    def chk_raw(self, st, r, off, t, node):
        if getattr(self, "nomem", False):
            return
        n = self.tu.sizeof(t)
        o = oint(off)
        self.oblige(st, "access inside a live block", And(r != NULL, self.kind(st, r) > 0, o >= 0,
                    (o + 1) * n <= self.size_int(st, r)), node, group="mem")

    def rd(self, st, v, t):
        """a value just read from memory, typed"""
        if t.k in ("ptr", "func", "opaque", "va_list", "union"):
            if t.k == "ptr" and t.to.k == "struct":
                self.seed(st, v, t.to.tag)
            return P(v)
        if t.k == "int" and self.mode == "int":
            if not z3.is_int_value(v):
                lo, hi = self.rng(t)
                st.assume(And(v >= lo, v <= hi))
        return v

    def seed(self, st, v, tag):
        """ground instances of the list axioms for a node just read (triggers for the solver)"""
        for g, f in self.lt_fields():
            if g == tag:
                l = self.lt(st, g, f)
                st.assume(l.R(v, v), l.R(v, NULL), l.ln(v) >= 0, (l.ln(v) == 0) == (v == NULL))

    def wv(self, v, t):
        if t.k in ("ptr", "func", "opaque", "va_list", "union"):
            return toref(v)
        return v

    def load(self, st, lv, t, node):
        k = lv[0]
        if k == "var":
            v = st.env.get(lv[1])
            if v is None:
                self.unsup("read of an uninitialised or unknown variable " + str(lv[1]), node)
            if isinstance(v, str) and v == "uninit":
                self.oblige(st, "no read of an uninitialised variable", FALSE, node, group="ub")
                v = self.freshval(t, "uninit", st)
                st.env[lv[1]] = v
            return v
        if k == "glob":
            return self.gload(st, lv[1], t)
        if self.on_load is not None:
            self.on_load(self, st, lv, node)
        if k == "fld":
            r, tag, f = lv[1:4]
            self.chk_struct(st, r, tag, node)
            if (tag, f) in self.lt_fields():
                self.lt(st, tag, f)
                if not getattr(self, "noini", False):
                    self.oblige(st, "next field is initialised", Select(self.ini(st, tag, f), r), node, group="mem")
            return self.rd(st, Select(self.fmap(st, tag, f, t), r), t)
        if k == "fa":
            r, tag, f, i = lv[1:5]
            self.chk_struct(st, r, tag, node)
            self.chk_fa(st, r, tag, f, i, t, node)
            return self.rd(st, Select(Select(self.famap(st, tag, f, t), r), oint(i)), t)
        if k == "raw":
            r, i = lv[1:3]
            tab = self.ctab.get(r.get_id()) if isinstance(r, z3.ExprRef) else None
            if tab is not None and tab[0].eq(r):
                return self.rd(st, self.ctab_read(st, tab, oint(i), node), t)
            self.chk_raw(st, r, i, t, node)
            v = Select(Select(self.rmap(st, t), r), oint(i))
            if t.k == "int" and t.bits == 8:
                v = self.rd(st, v, CHAR)
                if not t.signed:
                    v = self.castint(st, v, CHAR, UCHAR)
                return v
            return self.rd(st, v, t)
        self.unsup("load " + k, node)

    def chk_fa(self, st, r, tag, f, i, t, node):
        ft = None
        for n, x in self.flat(tag):
            if n == f:
                ft = x
        lo = And(oint(i) >= 0, oint(i) < ft.n) if ft.n and ft.n > 1 else And(
            oint(i) >= 0,
            self.tu.offsetof(tag, f) + (oint(i) + 1) * self.tu.sizeof(t) <= self.size_int(st, r))
        self.oblige(st, "index inside the array field " + f, lo, node, group="mem")

    def store(self, st, lv, v, t, node):
        k = lv[0]
        if k == "var":
            st.env[lv[1]] = v
            return
        if k == "glob":
            st.heap[("g", lv[1])] = self.wv(v, t)
            return
        w = self.wv(v, t)
        if k == "fld":
            r, tag, f = lv[1:4]
            self.chk_struct(st, r, tag, node)
            h = self.fmap(st, tag, f, t)
            if (tag, f) in self.lt_fields():
                self.lt_write(st, tag, f, r, w, node)
                st.heap[("ini", tag, f)] = Store(self.ini(st, tag, f), r, TRUE)
            st.heap[("f", tag, f)] = Store(h, r, w)
            if self.on_store is not None:
                self.on_store(self, st, tag, f, r, w)
            return
        if k == "fa":
            r, tag, f, i = lv[1:5]
            self.chk_struct(st, r, tag, node)
            self.chk_fa(st, r, tag, f, i, t, node)
            h = self.famap(st, tag, f, t)
            st.heap[("fa", tag, f)] = Store(h, r, Store(Select(h, r), oint(i), w))
            return
        if k == "raw":
            r, i = lv[1:3]
            self.chk_raw(st, r, i, t, node)
            if t.k == "int" and t.bits == 8 and not t.signed:
                w = self.castint(st, w, UCHAR, CHAR)
            h = self.rmap(st, t)
            st.heap[self.rawkey(t)] = Store(h, r, Store(Select(h, r), oint(i), w))
            if self.on_raw is not None:
                self.on_raw(self, st, r, oint(i), w, t)
            return
        self.unsup("store " + k, node)

    # ---------------- globals
    def _const_globals(self):
        """global arrays with an initialiser that no function of the unit writes: read-only tables"""
        self.ctab = {}
        self.garr = {}

    def gload(self, st, name, t):
        k = ("g", name)
        v = st.heap.get(k)
        if v is None:
            v = self.heap0.get(k)
            if v is None:
                v = self.heap0[k] = z3.Const("g_" + name, self.sort(t))
            st.heap[k] = v
        return self.rd(st, v, t)

    def gref(self, name):
        return z3.Const("gref_" + name, Ref)

    def init_values(self, node, t):
        """flattened constant initialiser -> list of python ints (or None)"""
        out = []
        n = node
        while n.get("kind") in ("ImplicitCastExpr", "ParenExpr", "ConstantExpr", "CStyleCastExpr") and n.get("inner"):
            n = n["inner"][0]
        if n.get("kind") == "StringLiteral":
            s = c_unescape(n["value"])
            return list(s) + [0] * ((t.n or len(s) + 1) - len(s))
        if n.get("kind") == "InitListExpr":
            et = t.to if t.k == "arr" else t
            els = [c for c in n.get("inner", [])]
            fill = n.get("array_filler")
            if fill:
                els = [c for c in fill if c.get("kind") != "ImplicitValueInitExpr"]
            for c in els:
                if c.get("kind") == "ImplicitValueInitExpr":
                    out += [0] * (1 if et.k != "arr" else self.count(et))
                else:
                    out += self.init_values(c, et)
            tot = self.count(t)
            out += [0] * (tot - len(out))
            return out
        v = const_int(n, self.tu)
        return [v]

    def count(self, t):
        return (t.n or 0) * self.count(t.to) if t.k == "arr" else 1

    def table_of(self, st, g, node):
        """P for a global array; constant tables are registered in ctab"""
        r = self.gref(g["name"])
        if g["name"] not in self.garr:
            self.garr[g["name"]] = r
            if g["init"] is not None and not self.written(g):
                vals = None
                try:
                    vals = self.init_values(g["init"], g["type"])
                except Unsupported:
                    vals = None
                if vals is not None and all(v is not None for v in vals):
                    self.ctab[r.get_id()] = (r, vals, g)
        if r.get_id() not in self.ctab:
            et = g["type"]
            while et.k == "arr":
                et = et.to
            st.assume(r != NULL, self.kind(st, r) == (K(et.tag) if et.k == "struct" else STACKBLK))
            try:
                st.assume(self.size(st, r) == self.tu.sizeof(g["type"]))
            except Unsupported:
                pass
        return P(r)

    def written(self, g):
        """is the global array assigned anywhere in the unit (syntactically)?"""
        c = getattr(self, "_wr", None)
        if c is None:
            c = self._wr = set()

            def base(n):
                while n.get("kind") in ("ImplicitCastExpr", "ParenExpr", "ArraySubscriptExpr", "CStyleCastExpr"):
                    if not n.get("inner"):
                        return None
                    n = n["inner"][0]
                return n.get("referencedDecl", {}).get("name") if n.get("kind") == "DeclRefExpr" else None

            def walk(n):
                k = n.get("kind")
                if (k == "BinaryOperator" and n.get("opcode") == "=") or k == "CompoundAssignOperator" or (
                        k == "UnaryOperator" and n.get("opcode") in ("++", "--")):
                    t = n["inner"][0]
                    if t.get("kind") in ("ArraySubscriptExpr",):
                        b = base(t)
                        if b:
                            c.add(b)
                for x in n.get("inner", []):
                    # the array handed on as a pointer to modifiable elements
                    if x.get("kind") == "ImplicitCastExpr" and x.get("castKind") == "ArrayToPointerDecay" and k != "ArraySubscriptExpr" and not (
                            k == "ImplicitCastExpr" and "const" in n["type"]["qualType"]) and "const" not in x["type"]["qualType"]:
                        b = base(x)
                        if b:
                            c.add(b)
                    walk(x)
            for f in self.tu.funcs.values():
                walk(f["body"])
        return g["name"].split(".")[-1] in c

    def ctab_read(self, st, tab, i, node):
        r, vals, g = tab
        n = len(vals)
        self.oblige(st, "index inside the table " + g["name"], And(i >= 0, i < n), node, group="mem")
        i = z3.simplify(i)
        if z3.is_int_value(i):
            j = i.as_long()
            return self.ival(vals[j] if 0 <= j < n else 0, INT)

        # balanced tree over runs of equal values
        def tree(lo, hi):
            if all(v == vals[lo] for v in vals[lo:hi]):
                return RV(vals[lo])
            m = (lo + hi) // 2
            return If(i < m, tree(lo, m), tree(m, hi))
        if self.mode == "bv":
            self.unsup("table read in bit-vector mode", node)
        w = fresh(IntS, "tab")
        st.assume(w == tree(0, n))
        self.known[w.get_id()] = (min(vals), max(vals))
        self._keep.append(w)
        if self.ctab_hook is not None:
            self.ctab_hook(self, st, g, i, w)
        return w

    # ---------------- variables
    def freshval(self, t, name, st=None):
        if t.k == "int":
            v = fresh(self.sort(t), name)
            if st is not None and self.mode == "int":
                st.assume(self.inrange(v, t))
            return v
        if t.k == "float":
            return fresh(RealS, name)
        if t.k == "void":
            return None
        return P(fresh(Ref, name))

    def addr_taken(self, fn):
        r = self.addrtaken.get(fn["name"])
        if r is None:
            r = set()

            def walk(n):
                if n.get("kind") == "UnaryOperator" and n.get("opcode") == "&":
                    x = n["inner"][0]
                    while x.get("kind") in ("ParenExpr",):
                        x = x["inner"][0]
                    if x.get("kind") == "DeclRefExpr":
                        r.add(x["referencedDecl"]["id"])
                for c in n.get("inner", []):
                    walk(c)
            walk(fn["body"])
            self.addrtaken[fn["name"]] = r
        return r

    def vkey(self, did):
        return (self.fstack[-1][1], did)

    def decl_local(self, st, d, node):
        """VarDecl inside a function"""
        fname, fr, fn = self.fstack[-1]
        t = self.tu.ty(d)
        did = d["id"]
        if d.get("storageClass") in ("static", "extern"):
            if d.get("storageClass") == "static":
                self.statics[did] = dict(name=fname + "." + d["name"], type=t, id=did,
                                         init=[c for c in d.get("inner", []) if "Attr" not in c.get("kind", "")][0] if d.get("init") else None)
            return [st]
        init = [c for c in d.get("inner", []) if "Attr" not in c.get("kind", "") and c.get("kind") not in ("FullComment",)]
        init = init[0] if d.get("init") and init else None
        if t.k in ("arr", "struct", "va_list") or did in self.addr_taken(fn):
            r = fresh(Ref, "loc_" + d.get("name", ""))
            st.assume(r != NULL, self.kind(st, r) == 0)
            self.set_kind(st, r, K(t.tag) if t.k == "struct" else STACKBLK)
            try:
                self.set_size(st, r, RV(self.tu.sizeof(t)))
            except Unsupported:
                self.set_size(st, r, RV(1))
            st.env[self.vkey(did)] = ("mem", r, t)
            if t.k == "struct":
                for f, ft in self.flat(t.tag):
                    if ft.k == "arr":
                        h = self.famap(st, t.tag, f, ft.to)
                        st.heap[("fa", t.tag, f)] = Store(h, r, fresh(h.range(), "u"))
                    else:
                        h = self.fmap(st, t.tag, f, ft)
                        st.heap[("f", t.tag, f)] = Store(h, r, fresh(h.range(), "u"))
            if init is not None:
                if t.k in ("arr",):
                    vals = self.init_values(init, t)
                    if any(v is None for v in vals):
                        self.unsup("local array initialiser", node)
                    et = t
                    while et.k == "arr":
                        et = et.to
                    h = self.rmap(st, et)
                    a = Select(h, r)
                    for i, v in enumerate(vals):
                        a = Store(a, RV(i), self.ival(v, et))
                    st.heap[self.rawkey(et)] = Store(h, r, a)
                    return [st]
                if t.k == "struct":
                    return self.struct_init(st, r, t, init, node)
                out = []
                for s2, v in self.eval(init, st):
                    self.store(s2, ("raw", r, 0), v, t, node)
                    out.append(s2)
                return out
            return [st]
        if init is None:
            st.env[self.vkey(did)] = "uninit"
            return [st]
        out = []
        for s2, v in self.eval(init, st):
            s2.env[self.vkey(did)] = v
            out.append(s2)
        return out

    # ---------------- lvalues
    def lval(self, n, st):
        """-> [(state, lvalue, type)]"""
        k = n["kind"]
        if k == "ParenExpr":
            return self.lval(n["inner"][0], st)
        t = self.tu.ty(n)
        if k == "DeclRefExpr":
            d = n["referencedDecl"]
            did = d["id"]
            if self.fstack:
                v = st.env.get(self.vkey(did))
                if v is not None:
                    if isinstance(v, tuple) and v[0] == "mem":
                        return [(st, ("blk", v[1], v[2]), t)]
                    return [(st, ("var", self.vkey(did)), t)]
            g = self.statics.get(did) or self.tu.globals.get(did) or self.tu.gname.get(d.get("name"))
            if g is None:
                self.unsup("unknown variable " + str(d.get("name")), n)
            t = g["type"] if g["type"].k == "arr" else t
            if t.k in ("arr", "struct"):
                return [(st, ("gblk", g), t)]
            if self.gaddr(g["name"]):
                return [(st, ("raw", self.gref(g["name"]), 0), t)]
            return [(st, ("glob", g["name"]), t)]
        if k == "MemberExpr":
            f = n["name"]
            out = []
            if n.get("isArrow"):
                bt = self.tu.ty(n["inner"][0])
                if bt.k != "ptr" or bt.to.k != "struct":
                    self.unsup("-> on %r" % bt, n)
                for s2, p in self.eval(n["inner"][0], st):
                    out.append((s2, self.member(s2, p, bt.to.tag, f, n), t))
            else:
                for s2, lv, bt in self.lval(n["inner"][0], st):
                    out.append((s2, self.member(s2, self.addr_of(s2, lv, bt, n), bt.tag, f, n), t))
            return out
        if k == "ArraySubscriptExpr":
            out = []
            a, b = n["inner"]
            for s2, p in self.eval(a, st):
                for s3, i in self.eval(b, s2):
                    if isinstance(i, P):
                        p, i = i, p
                    if self.mode == "bv":
                        it = self.tu.ty(b)
                        i = self.bvindex(s3, i, it)
                    out.append((s3, self.deref(s3, self.padd(p, i, t, n), t, n), t))
            return out
        if k == "UnaryOperator" and n["opcode"] == "*":
            out = []
            for s2, p in self.eval(n["inner"][0], st):
                out.append((s2, self.deref(s2, p, t, n), t))
            return out
        if k == "UnaryOperator" and n["opcode"] == "__extension__":
            return self.lval(n["inner"][0], st)
        if k == "StringLiteral":
            return [(st, ("strlit", n), t)]
        if k == "PredefinedExpr":
            return [(st, ("strlit", n["inner"][0] if n.get("inner") else n), t)]
        if k == "ImplicitCastExpr" and n.get("castKind") == "NoOp" or k == "CStyleCastExpr" and n.get("castKind") == "NoOp":
            return self.lval(n["inner"][0], st)
        self.unsup("lvalue " + k, n)

    def bvindex(self, st, i, t):
        i = z3.simplify(i)
        if z3.is_bv_value(i):
            return RV(i.as_signed_long() if t.signed else i.as_long())
        if self.quick_unsat(st, z3.UGE(i, 16)):
            vals = [j for j in range(16) if not self.quick_unsat(st, i == j)]
            r = RV(vals[-1])
            for j in vals[-2::-1]:
                r = If(i == j, RV(j), r)
            return r
        return z3.BV2Int(i, t.signed)

    def gaddr(self, name):
        c = getattr(self, "_gaddr", None)
        if c is None:
            c = self._gaddr = set()

            def walk(n):
                if n.get("kind") == "UnaryOperator" and n.get("opcode") == "&":
                    x = n["inner"][0]
                    while x.get("kind") == "ParenExpr":
                        x = x["inner"][0]
                    if x.get("kind") == "DeclRefExpr" and x["referencedDecl"].get("id") in self.tu.globals:
                        c.add(x["referencedDecl"]["name"])
                for y in n.get("inner", []):
                    walk(y)
            for f in self.tu.funcs.values():
                walk(f["body"])
        return name in c

    def member(self, st, p, tag, f, node):
        """lvalue of field f of the struct `tag` at pointer p"""
        if isinstance(p, F):
            self.unsup("member of function", node)
        if tag in self.wrapped and p.path is None and len(self.tu.fields(tag)) == 1:
            return ("raw", p.base, p.off)       # a struct of one scalar: its array is an array of the scalar
        if p.path is not None:
            owner, pre = p.path[0], p.path[1]
            if not off_is0(p.off):
                self.unsup("array of structs inside a struct", node)
            full = pre + "." + f
            return ("fld", p.base, owner, full) if True else None
        if not off_is0(p.off):
            return ("fld", toref(p), tag, f)
        return ("fld", p.base, tag, f)

    def ftype(self, tag, f):
        t = T("struct", tag=tag)
        for x in f.split("."):
            t = self.tu.field_type(t.tag, x)
        return t

    def padd(self, p, i, t, node):
        """pointer + index, t = element type"""
        n = self.count(t) if t.k == "arr" else 1
        o = i * n if n != 1 else i
        if off_is0(p.off):
            off = o
        else:
            off = oint(p.off) + o
        if isinstance(off, z3.ExprRef):
            off = z3.simplify(off)
            if z3.is_int_value(off):
                off = off.as_long()
        return P(p.base, off, p.path)

    def deref(self, st, p, t, node):
        """lvalue for *p with pointee type t"""
        if isinstance(p, F):
            return ("fn", p)
        if p.path is not None:
            ft = self.ftype(p.path[0], p.path[1])
            if ft.k == "arr":
                return ("fa", p.base, p.path[0], p.path[1], p.off)
            if ft.k == "struct":
                if not off_is0(p.off):
                    self.unsup("offset from a struct field", node)
                return ("sub", p)
            if not off_is0(p.off):
                self.unsup("pointer arithmetic from a scalar field", node)
            return ("fld", p.base, p.path[0], p.path[1])
        if t.k == "struct":
            return ("sblk", p, t)
        if t.k == "func":
            return ("fn", p)
        if t.k == "void":
            self.unsup("dereference of void*", node)
        return ("raw", p.base, p.off)

    def addr_of(self, st, lv, t, node):
        k = lv[0]
        if k == "blk":
            return P(lv[1])
        if k == "gblk":
            g = lv[1]
            if t.k == "arr":
                return self.table_of(st, g, node)
            r = self.gref(g["name"])
            if t.k == "struct":
                st.assume(r != NULL, self.kind(st, r) == K(t.tag))
            return P(r)
        if k == "fld":
            return P(lv[1], 0, (lv[2], lv[3]))
        if k == "fa":
            return P(lv[1], lv[4], (lv[2], lv[3]))
        if k == "raw":
            return P(lv[1], lv[2])
        if k == "sblk":
            return lv[1]
        if k == "sub":
            return lv[1]
        if k == "strlit":
            return self.strlit(st, lv[1])
        if k == "fn":
            return lv[1]
        self.unsup("address of " + k, node)

    def strlit(self, st, n):
        v = n.get("value", "")
        s = c_unescape(v) if v else b""
        r = self.strlits.get(s)
        if r is None:
            r = self.strlits[s] = z3.Const("lit%d" % len(self.strlits), Ref)
            self.axioms.append(r != NULL)
            self.ctab[r.get_id()] = (r, [b - 256 if b > 127 else b for b in s] + [0], dict(name="string literal"))
        return P(r)

    # ---------------- expressions
    def eval(self, n, st):
        """-> [(state, value)]"""
        k = n["kind"]
        m = getattr(self, "e_" + k, None)
        if m is None:
            self.unsup("expression " + k, n)
        return m(n, st)

    def eval1(self, n, st):
        r = self.eval(n, st)
        if len(r) != 1:
            self.unsup("branching expression", n)
        return r[0]

    def evals(self, ns, st):
        res = [(st, [])]
        for n in ns:
            nx = []
            for s, vs in res:
                for s2, v in self.eval(n, s):
                    nx.append((s2, vs + [v]))
            res = nx
        return res

    def e_ParenExpr(self, n, st):
        return self.eval(n["inner"][0], st)

    e_ConstantExpr = e_ParenExpr

    def e_IntegerLiteral(self, n, st):
        return [(st, self.ival(int(n["value"]), self.tu.ty(n)))]

    def e_CharacterLiteral(self, n, st):
        return [(st, self.ival(int(n["value"]), self.tu.ty(n)))]

    def e_FloatingLiteral(self, n, st):
        return [(st, z3.RealVal(n["value"]))]

    def e_PredefinedExpr(self, n, st):
        return [(st, self.strlit(st, n["inner"][0]))]

    def e_StringLiteral(self, n, st):
        return [(st, self.strlit(st, n))]

    def e_StmtExpr(self, n, st):
        outs = self.exec(n["inner"][0], st)
        return [(o.st, o.v) for o in outs if o.k == "normal"]

    def e_DeclRefExpr(self, n, st):
        d = n["referencedDecl"]
        if d.get("kind") == "FunctionDecl":
            return [(st, F(d["name"]))]
        if d.get("kind") == "EnumConstantDecl":
            if d["name"] not in self.tu.enums:
                self.unsup("enum " + d["name"], n)
            return [(st, self.ival(self.tu.enums[d["name"]], INT))]
        self.unsup("bare declaration reference", n)

    def e_MemberExpr(self, n, st):
        self.unsup("rvalue member", n)

    def e_UnaryExprOrTypeTraitExpr(self, n, st):
        if n.get("name") != "sizeof":
            self.unsup("trait " + n.get("name", ""), n)
        if "argType" in n:
            a = n["argType"]
            t = self.tu.parse_type(a.get("desugaredQualType") or a["qualType"])
        else:
            t = self.tu.ty(n["inner"][0])
        if t.k == "struct" and t.tag not in self.tu.structs:
            self.unsup("sizeof incomplete", n)
        return [(st, self.ival(self.tu.sizeof(t), ULONG))]

    def e_InitListExpr(self, n, st):
        self.unsup("initialiser list", n)

    def e_ImplicitCastExpr(self, n, st):
        ck = n["castKind"]
        sub = n["inner"][0]
        t = self.tu.ty(n)
        if ck == "LValueToRValue":
            out = []
            for s2, lv, lt in self.lval(sub, st):
                if lv[0] == "blk" and lt.k not in ("arr", "struct"):
                    lv = ("raw", lv[1], 0)
                if lt.k == "struct":
                    out.append((s2, ("sval", self.addr_of(s2, lv, lt, n))))
                    continue
                out.append((s2, self.load(s2, lv, lt, n)))
            return out
        if ck == "ArrayToPointerDecay":
            out = []
            for s2, lv, lt in self.lval(sub, st):
                out.append((s2, self.addr_of(s2, lv, lt, n)))
            return out
        if ck in ("FunctionToPointerDecay", "BuiltinFnToFnPtr"):
            return self.eval(sub, st) if sub["kind"] != "UnaryOperator" else [
                (s, lv[1] if lv[0] == "fn" else self.addr_of(s, lv, lt, n)) for s, lv, lt in self.lval(sub, st)]
        return self.cast(n, sub, ck, t, st)

    def e_CStyleCastExpr(self, n, st):
        return self.cast(n, n["inner"][0], n["castKind"], self.tu.ty(n), st)

    def cast(self, n, sub, ck, t, st):
        if ck == "NullToPointer":
            return [(st, P(NULL))]
        ft = self.tu.ty(sub)
        out = []
        if ck == "ToVoid":
            x = sub
            while x.get("kind") in ("ParenExpr", "ImplicitCastExpr") and x.get("inner"):
                x = x["inner"][0]
            if x.get("kind") == "DeclRefExpr":      # (void)variable: nothing is used
                return [(st, None)]
        for s2, v in self.eval(sub, st):
            if ck == "NoOp":
                out.append((s2, v))
            elif ck == "ToVoid":
                out.append((s2, None))
            elif ck in ("IntegralCast", "IntegralToBoolean", "BooleanToSignedIntegral"):
                if z3.is_bool(v):
                    v = self.b2i(v, ft)
                out.append((s2, self.castint(s2, v, ft, t, n)))
            elif ck == "BitCast":
                out.append((s2, self.bitcast(s2, v, ft, t, n)))
            elif ck == "IntegralToPointer":
                if self.mode == "bv":
                    v = self.castint(s2, v, ft, ULONG)
                    if self._isnum(z3.simplify(v)) == 0:
                        out.append((s2, P(NULL)))
                        continue
                    r = i2p_bv(v)
                    s2.assume(p2i_bv(r) == v, (r == NULL) == (v == 0))
                    out.append((s2, P(r)))
                    continue
                nv = self._isnum(z3.simplify(v))
                if nv == 0:
                    out.append((s2, P(NULL)))
                    continue
                r = i2p(v)
                s2.assume(p2i(r) == (v if not ft.signed else If(v < 0, v + (1 << 64), v)), (r == NULL) == (v == 0))
                out.append((s2, P(r)))
            elif ck == "PointerToIntegral":
                r = toref(v)
                if self.mode == "bv":
                    e = p2i_bv(r)
                    s2.assume(i2p_bv(e) == r, (e == 0) == (r == NULL))
                    out.append((s2, self.castint(s2, e, ULONG, t, n)))
                    continue
                e = p2i(r)
                s2.assume(self.inrange(e, ULONG) if self.mode == "int" else TRUE, i2p(e) == r, (e == 0) == (r == NULL))
                out.append((s2, self.castint(s2, e, ULONG, t, n)))
            elif ck == "IntegralToFloating":
                if self.mode == "bv":
                    v = z3.BV2Int(v, ft.signed)
                out.append((s2, z3.ToReal(v)))
            elif ck == "FloatingCast":
                out.append((s2, v))
            elif ck == "LValueToRValue":
                self.unsup("cast", n)
            elif ck == "PointerToBoolean":
                out.append((s2, self.truth(v)))
            else:
                self.unsup("cast " + ck, n)
        return out

    def bitcast(self, st, v, ft, t, n):
        if isinstance(v, F) or t.k != "ptr":
            return v
        if not isinstance(v, P):
            return v
        if t.to.k == "struct" and v.path is None and off_is0(v.off) and ft.k == "ptr" and ft.to.k != "struct":
            r = v.base
            kk = z3.simplify(self.kind(st, r))
            if z3.is_int_value(kk) and kk.as_long() == UNTYPED and t.to.tag in self.tu.structs:
                self.type_block(st, r, t.to.tag, n)
        elif t.to.k in ("ptr", "int", "float") and v.path is None and off_is0(v.off):
            r = v.base
            kk = z3.simplify(self.kind(st, r))
            if z3.is_int_value(kk) and kk.as_long() == UNTYPED and not (t.to.k == "int" and t.to.bits == 8):
                self.set_kind(st, r, RAW)
        return v

    def e_UnaryOperator(self, n, st):
        op = n["opcode"]
        sub = n["inner"][0]
        t = self.tu.ty(n)
        if op in ("++", "--"):
            out = []
            for s2, lv, lt in self.lval(sub, st):
                if lv[0] == "blk":
                    lv = ("raw", lv[1], 0)
                old = self.load(s2, lv, lt, n)
                if lt.k == "ptr":
                    new = self.padd(old, 1 if op == "++" else -1, lt.to, n)
                elif lt.k == "float":
                    new = old + 1 if op == "++" else old - 1
                else:
                    one = self.ival(1, lt)
                    new = old + one if op == "++" else old - one
                    if lt.bits < 32 and self.mode == "int":
                        new = self.castint(s2, new, INT, lt)
                    else:
                        new = self.norm(s2, new, lt, n)
                self.store(s2, lv, new, lt, n)
                out.append((s2, old if n.get("isPostfix") else new))
            return out
        if op == "&":
            x = sub
            while x["kind"] == "ParenExpr":
                x = x["inner"][0]
            if x["kind"] == "DeclRefExpr" and x["referencedDecl"].get("kind") == "FunctionDecl":
                return [(st, F(x["referencedDecl"]["name"]))]
            return [(s2, self.addr_of(s2, lv, lt, n)) for s2, lv, lt in self.lval(sub, st)]
        if op == "__extension__":
            return self.eval(sub, st)
        if op == "*":
            # rvalue of a dereferenced function pointer
            return [(s2, lv[1]) for s2, lv, lt in self.lval(n, st)]
        out = []
        for s2, v in self.eval(sub, st):
            if op == "!":
                out.append((s2, self.b2i(Not(self.truth(v)))))
            elif op == "-":
                if t.k == "float":
                    out.append((s2, -v))
                else:
                    out.append((s2, self.norm(s2, -v, t, n)))
            elif op == "+":
                out.append((s2, v))
            elif op == "~":
                if self.mode == "bv":
                    out.append((s2, ~v))
                else:
                    out.append((s2, z3.simplify(-v - 1) if t.signed else z3.simplify((1 << t.bits) - 1 - v)))
            else:
                self.unsup("unary " + op, n)
        return out

    def branch(self, st, cond):
        """-> (true state or None, false state or None)"""
        c = z3.simplify(cond)
        if z3.is_true(c):
            return st, None
        if z3.is_false(c):
            return None, st
        a, b = st.copy().assume(cond), st.copy().assume(Not(cond))
        if self.quick_unsat(a):
            return None, b
        if self.quick_unsat(b):
            return a, None
        return a, b

    def same(self, a, b):
        """b differs from a only by additional path facts"""
        return (len(a.env) == len(b.env) and all(eqv(a.env[k], b.env[k]) if not isinstance(a.env[k], (tuple, str)) else a.env[k] == b.env.get(k) for k in a.env if k in b.env) and
                all(k in b.heap and a.heap[k].eq(b.heap[k]) for k in a.heap) and
                all(b.heap[k].eq(self.heap0[k]) for k in b.heap if k not in a.heap and k in self.heap0) and
                all(k in self.heap0 for k in b.heap if k not in a.heap) and
                all(a.lts.get(k) is v or k not in a.lts for k, v in b.lts.items()) and
                all(eqg(a.gh.get(k), v) for k, v in b.gh.items() if k in a.gh))

    def logical(self, n, st, isand):
        l, r = n["inner"]
        out = []
        for s1, v in self.eval(l, st):
            c = self.truth(v)
            t, f = self.branch(s1, c if isand else Not(c))
            if f is None:
                for s2, w in self.eval(r, t):
                    out.append((s2, self.b2i(self.truth(w))))
                continue
            if t is None:
                out.append((f, self.b2i(FALSE if isand else TRUE)))
                continue
            npc = len(t.pc)
            rs = self.eval(r, t.copy())
            if len(rs) == 1 and self.same(t, rs[0][0]):
                s2, w = rs[0]
                s3 = s1.copy()
                for k in s2.heap:
                    s3.heap.setdefault(k, s2.heap[k])
                for k in s2.lts:
                    s3.lts.setdefault(k, s2.lts[k])
                g = c if isand else Not(c)
                for x in s2.pc[npc:]:
                    s3.assume(Implies(g, x))
                w = self.truth(w)
                out.append((s3, self.b2i(And(c, w) if isand else Or(c, w))))
                continue
            for s2, w in rs:
                out.append((s2, self.b2i(self.truth(w))))
            out.append((f, self.b2i(FALSE if isand else TRUE)))
        return out

    def e_ConditionalOperator(self, n, st):
        c, a, b = n["inner"]
        out = []
        for s1, v in self.eval(c, st):
            cc = self.truth(v)
            t, f = self.branch(s1, cc)
            if t is None:
                out += self.eval(b, f)
                continue
            if f is None:
                out += self.eval(a, t)
                continue
            ra, rb = self.eval(a, t.copy()), self.eval(b, f.copy())
            if len(ra) == 1 and len(rb) == 1 and self.same(t, ra[0][0]) and self.same(f, rb[0][0]):
                v = self.vite(cc, ra[0][1], rb[0][1])
                if v is not None:
                    s3 = s1.copy()
                    for sx in (ra[0][0], rb[0][0]):
                        for k in sx.heap:
                            s3.heap.setdefault(k, sx.heap[k])
                        for k in sx.lts:
                            s3.lts.setdefault(k, sx.lts[k])
                    for x in ra[0][0].pc[len(t.pc):]:
                        s3.assume(Implies(cc, x))
                    for x in rb[0][0].pc[len(f.pc):]:
                        s3.assume(Implies(Not(cc), x))
                    out.append((s3, v))
                    continue
            out += ra + rb
        return out

    def vite(self, c, a, b):
        """if-then-else of two values, None if not expressible"""
        if isinstance(a, F) or isinstance(b, F):
            if isinstance(a, F) and isinstance(b, F) and a.name == b.name:
                return a
            return P(If(c, toref(a), toref(b)))
        if isinstance(a, P) and isinstance(b, P):
            if a.path != b.path:
                return None
            if z3.eq(a.base, b.base):
                if isinstance(a.off, int) and isinstance(b.off, int) and a.off == b.off:
                    return a
                return P(a.base, If(c, oint(a.off), oint(b.off)), a.path)
            if off_is0(a.off) and off_is0(b.off):
                return P(If(c, a.base, b.base), 0, a.path)
            return None
        if isinstance(a, z3.ExprRef) and isinstance(b, z3.ExprRef):
            if a.eq(b):
                return a
            if a.sort() == b.sort():
                return If(c, a, b)
        if a is None and b is None:
            return None
        return None

    def e_BinaryOperator(self, n, st):
        op = n["opcode"]
        if op == "&&":
            return self.logical(n, st, True)
        if op == "||":
            return self.logical(n, st, False)
        l, r = n["inner"]
        if op == ",":
            out = []
            for s1, _ in self.eval(l, st):
                out += self.eval(r, s1)
            return out
        t = self.tu.ty(n)
        if op == "=":
            out = []
            # value first, then the place (side-effect order is unspecified in C)
            for s1, v in self.eval(r, st):
                for s2, lv, lt in self.lval(l, s1):
                    if lv[0] == "blk" and lt.k not in ("struct", "arr"):
                        lv = ("raw", lv[1], 0)
                    if isinstance(v, tuple) and v[0] == "sval":
                        self.copy_struct(s2, self.addr_of(s2, lv, lt, n), v[1], lt, n)
                        out.append((s2, v))
                        continue
                    if z3.is_expr(v) and z3.is_bool(v):
                        v = self.b2i(v, lt)
                    self.store(s2, lv, v, lt, n)
                    out.append((s2, v))
            return out
        out = []
        for s2, (a, b) in self.evals([l, r], st):
            out.append((s2, self.binop(s2, op, a, b, self.tu.ty(l), self.tu.ty(r), t, n)))
        return out

    def struct_init(self, st, r, t, init, n):
        """initialiser of a local struct: another struct, or a list of values (the rest is zero)"""
        x = init
        while x.get("kind") in ("ParenExpr", "ConstantExpr", "ExprWithCleanups") and x.get("inner"):
            x = x["inner"][0]
        if x["kind"] != "InitListExpr":
            out = []
            for s, v in self.eval(init, st):
                if not (isinstance(v, tuple) and v[0] == "sval"):
                    self.unsup("struct initialiser", n)
                self.copy_struct(s, P(r), v[1], t, n)
                out.append(s)
            return out
        leaves = []

        def walk(y, tag, pre):
            els = list(y.get("inner", []))
            fs = self.tu.fields(tag)
            if len(els) > len(fs):
                self.unsup("struct initialiser", n)
            for i, (f, ft) in enumerate(fs):
                e = els[i] if i < len(els) and els[i].get("kind") != "ImplicitValueInitExpr" else None
                if ft.k == "struct":
                    if e is not None and e.get("kind") != "InitListExpr":
                        self.unsup("struct initialiser", n)
                    walk(e or {}, ft.tag, pre + f + ".")
                elif ft.k in ("int", "ptr", "float"):
                    leaves.append((pre + f, ft, e))
                else:
                    self.unsup("struct initialiser", n)
        walk(x, t.tag, "")
        states = [st]
        for f, ft, e in leaves:
            nxt = []
            for s in states:
                vs = self.eval(e, s) if e is not None else [(s, P(NULL) if ft.k == "ptr" else z3.RealVal(0) if ft.k == "float" else self.ival(0, ft))]
                for s2, v in vs:
                    if z3.is_expr(v) and z3.is_bool(v):
                        v = self.b2i(v, ft)
                    self.store(s2, ("fld", r, t.tag, f), v, ft, n)
                    nxt.append(s2)
            states = nxt
        return states

    def copy_struct(self, st, dst, src, t, n):
        def key(p, f):
            if p.path is None:
                return p.base, t.tag, f
            return p.base, p.path[0], p.path[1] + "." + f
        for f, ft in self.flat(t.tag):
            if ft.k == "arr":
                self.unsup("copy of a struct with arrays", n)
            b, tag, ff = key(src, f)
            v = self.load(st, ("fld", b, tag, ff), ft, n)
            b, tag, ff = key(dst, f)
            self.store(st, ("fld", b, tag, ff), v, ft, n)

    def binop(self, st, op, a, b, lt, rt, t, n):
        if isinstance(a, F):
            a = P(fnref(a.name))
        if isinstance(b, F):
            b = P(fnref(b.name))
        if isinstance(a, P) or isinstance(b, P):
            return self.ptrop(st, op, a, b, lt, rt, n)
        if z3.is_bool(a):
            a = self.b2i(a, lt)
        if z3.is_bool(b):
            b = self.b2i(b, rt)
        if lt.k == "float" or rt.k == "float":
            if z3.is_int(a):
                a = z3.ToReal(a)
            if z3.is_int(b):
                b = z3.ToReal(b)
            f = {"+": lambda: a + b, "-": lambda: a - b, "*": lambda: a * b, "/": lambda: a / b,
                 "<": lambda: self.b2i(a < b), ">": lambda: self.b2i(a > b), "<=": lambda: self.b2i(a <= b),
                 ">=": lambda: self.b2i(a >= b), "==": lambda: self.b2i(a == b), "!=": lambda: self.b2i(a != b)}.get(op)
            if f is None:
                self.unsup("float " + op, n)
            return f()
        if op in ("<", ">", "<=", ">=", "==", "!="):
            return self.b2i(self.compare(op, a, b, lt))
        if self.mode == "bv":
            return self.bvop(st, op, a, b, lt, rt, t, n)
        return self.intop(st, op, a, b, lt, rt, t, n)

    def compare(self, op, a, b, t):
        if self.mode == "bv" and not t.signed and op in ("<", ">", "<=", ">="):
            return {"<": z3.ULT, ">": z3.UGT, "<=": z3.ULE, ">=": z3.UGE}[op](a, b)
        return {"<": lambda: a < b, ">": lambda: a > b, "<=": lambda: a <= b, ">=": lambda: a >= b,
                "==": lambda: a == b, "!=": lambda: a != b}[op]()

    def bvop(self, st, op, a, b, lt, rt, t, n):
        if op in ("<<", ">>"):
            w = lt.bits
            if rt.bits < w:
                b = z3.SignExt(w - rt.bits, b) if rt.signed else z3.ZeroExt(w - rt.bits, b)
            elif rt.bits > w:
                b = z3.Extract(w - 1, 0, b)
            self.oblige(st, "shift amount inside the word", z3.ULT(b, w), n, group="ub")
            if op == "<<":
                if lt.signed:
                    self.oblige(st, "no signed shift overflow", And(a >= 0, z3.LShR(a << b, b) == a, (a << b) >= 0), n, group="ub")
                return a << b
            return (a >> b) if lt.signed else z3.LShR(a, b)
        if op == "+":
            if t.signed:
                self.oblige(st, "no signed overflow", And(z3.BVAddNoOverflow(a, b, True), z3.BVAddNoUnderflow(a, b)), n, group="ub")
            return a + b
        if op == "-":
            if t.signed:
                self.oblige(st, "no signed overflow", And(z3.BVSubNoOverflow(a, b), z3.BVSubNoUnderflow(a, b, True)), n, group="ub")
            return a - b
        if op == "*":
            if t.signed:
                self.oblige(st, "no signed overflow", And(z3.BVMulNoOverflow(a, b, True), z3.BVMulNoUnderflow(a, b)), n, group="ub")
            return a * b
        if op in ("/", "%"):
            self.oblige(st, "no division by zero", b != 0, n, group="ub")
            if t.signed:
                return a / b if op == "/" else z3.SRem(a, b)
            return z3.UDiv(a, b) if op == "/" else z3.URem(a, b)
        if op == "&":
            return a & b
        if op == "|":
            return a | b
        if op == "^":
            return a ^ b
        self.unsup("bv " + op, n)

    def intop(self, st, op, a, b, lt, rt, t, n):
        ca, cb = self._isnum(z3.simplify(a)), self._isnum(z3.simplify(b))
        if op == "+":
            return self.norm(st, a + b, t, n)
        if op == "-":
            return self.norm(st, a - b, t, n)
        if op == "*":
            if ca is None and cb is None:
                return self.mul(st, a, b, t, n)
            return self.norm(st, a * b, t, n)
        if op in ("/", "%"):
            self.oblige(st, "no division by zero", b != 0, n, group="ub")
            if cb is not None and cb > 0:
                if not t.signed or self.quick_unsat(st, a < 0):
                    return self.cdiv(a, cb) if op == "/" else self.cmod(a, cb)
                q = If(a >= 0, a / RV(cb), -((-a) / RV(cb)))
                return q if op == "/" else a - q * cb
            return self.divmod(st, op, a, b, t, n)
        if op == "<<":
            if cb is None:
                return self.pow2(st, a, b, t, n)
            return self.norm(st, a * (1 << cb), t, n)
        if op == ">>":
            if cb is None:
                self.unsup("variable shift", n)
            return self.cdiv(a, 1 << cb)
        if op == "&":
            if ca is not None:
                a, b, ca, cb = b, a, cb, ca
            if cb is not None and cb >= 0:
                if (cb & (cb + 1)) == 0:
                    return self.cmod(a, cb + 1)
                # contiguous run of ones
                lo = (cb & -cb).bit_length() - 1
                if ((cb >> lo) & ((cb >> lo) + 1)) == 0:
                    return self.cmod(self.cdiv(a, 1 << lo), (cb >> lo) + 1) * (1 << lo)
            if cb is not None and cb < 0 and t.signed and (-cb & (-cb - 1)) == 0:
                return a - a % RV(-cb)          # clears the low bits (two's complement)

            def bits(m):
                out, i = [], 0
                while m >> i:
                    if m >> i & 1:
                        j = i
                        while m >> j & 1:
                            j += 1
                        out.append(((a / RV(1 << i)) % RV(1 << (j - i))) * (1 << i))
                        i = j
                    else:
                        i += 1
                return z3.Sum(out)
            if cb is not None and cb >= 0:
                return bits(cb)
            if cb is not None and t.signed:
                return a - bits(~cb)
            self.unsup("& in integer mode", n)
        if op == "|":
            if cb == 0:
                return a
            if ca == 0:
                return b
            if ca is not None:
                a, b, ca, cb = b, a, cb, ca
            if cb is not None and cb > 0 and (cb & (cb - 1)) == 0:
                bit = (a / RV(cb)) % 2
                return If(bit == 1, a, a + cb)
            if self.quick_unsat(st, a != 0):
                return b
            if self.quick_unsat(st, b != 0):
                return a
            # operands with provably disjoint bits: a < 2^k, 2^k divides b
            for x, y in ((a, b), (b, a)):
                xb, yb = self.bounds(z3.simplify(x)), self.bounds(z3.simplify(y))
                m = self.pow2_factor(z3.simplify(y))
                if xb and yb and m and xb[0] >= 0 and yb[0] >= 0 and xb[1] < m:
                    return x + y
            for x, y in ((a, b), (b, a)):
                for k in (6, 12, 18, 24, 30, 36, 8, 16, 1):
                    if self.quick_unsat(st, Not(And(x >= 0, y >= 0, x < (1 << k), y % RV(1 << k) == 0))):
                        return x + y
        self.unsup("integer operator " + op, n)

    def cdiv(self, a, c):
        """floor(a / c), c > 0 a constant"""
        if c == 1:
            return a
        if z3.is_app(a) and a.decl().kind() == z3.Z3_OP_IDIV and z3.is_int_value(a.arg(1)) and a.arg(1).as_long() > 0:
            return self.cdiv(a.arg(0), c * a.arg(1).as_long())       # floor(floor(x/c)/d) = floor(x/(cd))
        return a / RV(c)

    def cmod(self, a, c):
        """a modulo c, c > 0 a constant"""
        x, d = a, 1
        if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_IDIV and z3.is_int_value(x.arg(1)) and x.arg(1).as_long() > 0:
            x, d = x.arg(0), x.arg(1).as_long()
        if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_MOD and z3.is_int_value(x.arg(1)):
            m = x.arg(1).as_long()
            if m > 0 and m % (c * d) == 0:
                return self.cmod(self.cdiv(x.arg(0), d), c)          # cd | m: ((x mod m) / d) mod c = (x / d) mod c
        return a % RV(c)

    def pow2_factor(self, e):
        """a power of two dividing e, from its shape"""
        if z3.is_int_value(e):
            v = e.as_long()
            return (v & -v) if v else 1 << 64
        if z3.is_app(e):
            k = e.decl().kind()
            if k == z3.Z3_OP_MUL:
                r = 1
                for c in e.children():
                    r *= self.pow2_factor(c)
                return r
            if k in (z3.Z3_OP_ADD,):
                return min(self.pow2_factor(c) for c in e.children())
            if k == z3.Z3_OP_ITE:
                return min(self.pow2_factor(e.arg(1)), self.pow2_factor(e.arg(2)))
        return 1

    def mul(self, st, a, b, t, n):
        e = a * b
        if t.signed:
            self.oblige(st, "no signed overflow", self.inrange(e, t), n, group="ub")
            return e
        if self.quick_unsat(st, Not(self.inrange(e, t))):
            return e
        return e % (1 << t.bits)

    def divmod(self, st, op, a, b, t, n):
        if op == "%":
            if t.signed:
                self.unsup("signed % by a variable", n)
            r = umod(a, b)
            st.assume(Implies(b > 0, And(r >= 0, r < b, r <= a)))
            return r
        if t.signed and not self.quick_unsat(st, Or(a < 0, b < 0)):
            self.unsup("signed / by a variable", n)
        r = udiv(a, b)
        st.assume(Implies(b > 0, And(r >= 0, r <= a)))
        return r

    def pow2(self, st, a, b, t, n):
        self.unsup("variable shift", n)

    def ptrop(self, st, op, a, b, lt, rt, n):
        if op in ("==", "!="):
            if not isinstance(a, P):
                a = P(i2p(a)) if self._isnum(z3.simplify(a)) != 0 else P(NULL)
            if not isinstance(b, P):
                b = P(i2p(b)) if self._isnum(z3.simplify(b)) != 0 else P(NULL)
            e = self.ptr_eq(a, b)
            return self.b2i(e if op == "==" else Not(e))
        if op in ("+", "-") and isinstance(a, P) and not isinstance(b, P):
            if self.mode == "bv":
                b = z3.BV2Int(b, rt.signed)
            return self.padd(a, b if op == "+" else -b, lt.to, n)
        if op == "+" and isinstance(b, P):
            return self.padd(b, a, rt.to, n)
        if op == "-":
            if z3.eq(a.base, b.base) and a.path == b.path:
                return z3.simplify(oint(a.off) - oint(b.off))
            if z3.eq(b.base, NULL) and off_is0(b.off):
                e = p2i(toref(a))
                st.assume(self.inrange(e, ULONG))
                return self.castint(st, e, ULONG, LONG)
            self.oblige(st, "pointer difference inside one block", a.base == b.base, n, group="ub")
            return oint(a.off) - oint(b.off)
        if op in ("<", ">", "<=", ">="):
            if not z3.eq(a.base, b.base) and not self.quick_unsat(st, a.base != b.base):
                x, y = p2i(toref(a)), p2i(toref(b))
                st.assume(self.inrange(x, ULONG), self.inrange(y, ULONG))
                return self.b2i(If(a.base == b.base, self.compare(op, oint(a.off), oint(b.off), LONG), self.compare(op, x, y, LONG)))
            return self.b2i(self.compare(op, oint(a.off), oint(b.off), LONG))
        self.unsup("pointer operator " + op, n)

    def e_CompoundAssignOperator(self, n, st):
        op = n["opcode"][:-1]
        l, r = n["inner"]
        out = []
        rt = self.tu.ty(r)
        c = n.get("computeLHSType", {})
        ct = self.tu.parse_type(c.get("desugaredQualType") or c["qualType"]) if c else self.tu.ty(l)
        rc = n.get("computeResultType", {})
        crt = self.tu.parse_type(rc.get("desugaredQualType") or rc["qualType"]) if rc else ct
        for s1, b in self.eval(r, st):
            for s2, lv, lt in self.lval(l, s1):
                if lv[0] == "blk":
                    lv = ("raw", lv[1], 0)
                old = self.load(s2, lv, lt, n)
                if lt.k == "ptr":
                    v = self.ptrop(s2, op, old, b, lt, rt, n)
                else:
                    a = old
                    if lt.k == "int" and ct.k == "int":
                        a = self.castint(s2, old, lt, ct, n)
                    elif lt.k == "int" and ct.k == "float":
                        a = z3.ToReal(old)
                    v = self.binop(s2, op, a, b, ct, rt, crt, n)
                    if lt.k == "int" and crt.k == "int":
                        v = self.castint(s2, v, crt, lt, n)
                self.store(s2, lv, v, lt, n)
                out.append((s2, v))
        return out

    # ---------------- calls
    def e_CallExpr(self, n, st):
        callee, args = n["inner"][0], n["inner"][1:]
        c = callee
        while c["kind"] in ("ParenExpr", "ImplicitCastExpr") and c["inner"]:
            if c["kind"] == "ImplicitCastExpr" and c.get("castKind") == "LValueToRValue":
                break
            c = c["inner"][0]
        fname = None
        if c["kind"] == "DeclRefExpr" and c["referencedDecl"].get("kind") == "FunctionDecl":
            fname = c["referencedDecl"]["name"]
        out = []
        if fname is None:
            for s1, fv in self.eval(callee, st):
                for s2, vs in self.evals(args, s1):
                    if isinstance(fv, F):
                        out += self.call(fv.name, vs, s2, n)
                    else:
                        try:
                            if self.indirect is None:
                                self.unsup("call through a pointer", n)
                            out += self.indirect(self, s2, fv, vs, n)
                        except Unsupported:
                            if not self.quick_unsat(s2):
                                raise               # (otherwise the call cannot happen)
            return out
        if fname in ("__builtin_expect",):
            return self.eval(args[0], st)
        if fname == "__builtin_va_start":
            args = args[:1]
        if fname in SIDE_FREE_OUT and fname not in self.models and fname not in self.tu.funcs:
            # formatted output: arguments are evaluated, output itself is not modelled
            for s2, vs in self.evals(args, st):
                t = self.tu.ty(n)
                out.append((s2, self.freshval(t, fname, s2)))
            return out
        for s2, vs in self.evals(args, st):
            out += self.call(fname, vs, s2, n)
        return out

    def call(self, fname, vs, st, n):
        m = self.models.get(fname)
        if m is not None:
            r = m(self, st, vs, n)
            return r
        fn = self.tu.funcs.get(fname)
        if fn is None:
            self.unsup("no contract for " + fname, n)
        return self.inline(fn, vs, st, n)

    def inline(self, fn, vs, st, n):
        if len(self.fstack) > 12 or any(x[0] == fn["name"] for x in self.fstack):
            self.unsup("recursion through " + fn["name"], n)
        if self.fstack:
            self.inlined.add(fn["name"])
        n0 = len(st.pc)
        outs = self.run_body(fn, vs, st)
        outs = self.join_returns_of(outs, n0)
        return [(o.st, o.v) for o in outs]

    join_returns = False

    def join_returns_of(self, outs, n0):
        """one outcome for the integer returns of a side-effect free function"""
        if not self.join_returns or len(outs) < 2 or any(not (isinstance(o.v, z3.ExprRef) and z3.is_int(o.v)) for o in outs):
            return outs
        a = outs[0].st
        for o in outs[1:]:
            b = o.st
            if set(a.env) != set(b.env) or any(not (a.env[k] is b.env[k] or (not isinstance(a.env[k], (tuple, str)) and eqv(a.env[k], b.env[k]))) for k in a.env):
                return outs
            if set(a.heap) != set(b.heap) or any(not a.heap[k].eq(b.heap[k]) for k in a.heap):
                return outs
            if set(a.lts) != set(b.lts) or any(a.lts[k] is not b.lts[k] for k in a.lts):
                return outs
            if set(a.gh) != set(b.gh) or any(not eqg(a.gh[k], b.gh[k]) for k in a.gh):
                return outs
            if any(not x.eq(y) for x, y in zip(a.pc[:n0], b.pc[:n0])):
                return outs
        cs = [And(*o.st.pc[n0:]) for o in outs]
        r = a.copy()
        r.pc = list(a.pc[:n0])
        v = outs[-1].v
        for o, c in list(zip(outs, cs))[-2::-1]:
            v = If(c, o.v, v)
        r.assume(Or(*cs))
        return [Out("return", r, v)]

    do_head = flip_do = saw_do = False
    wrapped = ()

    def run_body(self, fn, vs, st):
        self.frame += 1
        self.fstack.append((fn["name"], self.frame, fn))
        try:
            for p, v in zip(fn["params"], vs):
                pt = self.tu.ty(p)
                if pt.k == "arr":
                    pt = PTR(pt.to)
                if isinstance(v, tuple) and v[0] == "sval":
                    st.env[self.vkey(p["id"])] = ("mem", self.struct_copy(st, v, pt, p.get("name", ""), None), pt)
                elif p["id"] in self.addr_taken(fn):
                    r = fresh(Ref, "arg_" + p.get("name", ""))
                    st.assume(r != NULL, self.kind(st, r) == 0)
                    self.set_kind(st, r, STACKBLK)
                    self.set_size(st, r, RV(self.tu.sizeof(pt)))
                    st.env[self.vkey(p["id"])] = ("mem", r, pt)
                    self.store(st, ("raw", r, 0), v, pt, None)
                    if self.ptr_bytes is not None and pt.k == "ptr":
                        for x in range(8):
                            st.assume(Select(Select(self.rmap(st, CHAR), r), RV(x)) == self.ptr_bytes(toref(v), RV(x)))
                else:
                    st.env[self.vkey(p["id"])] = v
            outs = self.exec(fn["body"], st)
            res = []
            for o in outs:
                if o.k == "return":
                    res.append(o)
                elif o.k == "normal":
                    res.append(Out("return", o.st, None))
                else:
                    self.unsup("stray " + o.k)
            for o in res:
                fr = self.frame if False else self.fstack[-1][1]
                for kk in [x for x in o.st.env if x[0] == fr]:
                    v = o.st.env[kk]
                    if isinstance(v, tuple) and v[0] == "mem":
                        self.set_kind(o.st, v[1], 0)
                    del o.st.env[kk]
            return res
        finally:
            self.fstack.pop()

    # ---------------- statements
    def exec(self, n, st):
        """-> [Out]"""
        k = n["kind"]
        m = getattr(self, "s_" + k, None)
        if m is not None:
            r = m(n, st)
        else:
            r = [Out("normal", s, v) for s, v in self.eval(n, st)]
        if len(r) > self.maxpaths:
            self.unsup("too many paths", n)
        return r

    def seq(self, stmts, st):
        outs = [Out("normal", st)]
        labels = {}
        for i, s in enumerate(stmts):
            x = s
            while x.get("kind") == "LabelStmt":
                labels[x["declId"]] = i
                x = x["inner"][0]
        for i, s in enumerate(stmts):
            if labels:
                at = {l for l, j in labels.items() if j == i}
                if at:
                    for o in outs:
                        if o.k == "goto" and o.v in at:         # forward goto
                            o.k, o.v = "normal", None
                    outs = self.merge(outs)
                    back = at & self.goto_targets(stmts[i:])
                    if back:
                        # backward goto: the rest of the block is the body of a loop
                        tail = {"kind": "TailOfBlock", "stmts": stmts[i:], "labels": back, "range": s.get("range", {}), "inner": stmts[i:]}
                        res = []
                        for o in outs:
                            res += self.loop(tail, o.st, None, tail, None) if o.k == "normal" else [o]
                        return self.merge(res)
            nx = []
            for o in outs:
                if o.k == "normal":
                    nx += self.exec(s, o.st)
                else:
                    nx.append(o)
            outs = self.merge(nx)
        return outs

    def goto_targets(self, stmts):
        out, todo = set(), list(stmts)
        while todo:
            x = todo.pop()
            if x.get("kind") == "GotoStmt":
                out.add(x["targetLabelDeclId"])
            todo += [y for y in x.get("inner", []) if y]
        return out

    def s_TailOfBlock(self, n, st):
        out = []
        stmts = [dict(x) for x in n["stmts"]]
        while stmts[0].get("kind") == "LabelStmt":
            stmts[0] = dict(stmts[0]["inner"][0])
        for o in self.seq(stmts, st):
            if o.k in ("break", "continue"):
                self.unsup("break or continue behind a label that is jumped back to", n)
            if o.k == "normal":
                out.append(Out("break", o.st))
            elif o.k == "goto" and o.v in n["labels"]:
                out.append(Out("continue", o.st))
            else:
                out.append(o)
        return out

    def s_LabelStmt(self, n, st):
        return self.exec(n["inner"][0], st)

    def s_GotoStmt(self, n, st):
        return [Out("goto", st, n["targetLabelDeclId"])]

    def merge(self, outs):
        """join normal outcomes that part at one condition"""
        if not self.merge_heap or len(outs) < self.merge_min:
            return outs
        again = True
        while again:
            again = False
            for i in range(len(outs)):
                for j in range(i + 1, len(outs)):
                    if outs[i].k != "normal" or outs[j].k != "normal":
                        continue
                    x, y = outs[i].st, outs[j].st
                    n = 0
                    while n < len(x.pc) and n < len(y.pc) and x.pc[n].eq(y.pc[n]):
                        n += 1
                    if n >= len(x.pc) or n >= len(y.pc):
                        continue
                    c, d = x.pc[n], y.pc[n]
                    if not (z3.simplify(Not(c)).eq(z3.simplify(d)) or z3.simplify(Not(d)).eq(z3.simplify(c))):
                        continue
                    s = x.copy()
                    s.pc = list(x.pc[:n])
                    m = self.try_join(s, c, [outs[i]], [outs[j]], n + 1, n + 1)
                    if m is not None:
                        outs = [o for k, o in enumerate(outs) if k not in (i, j)] + [m]
                        again = True
                        break
                if again:
                    break
        return outs

    def s_CompoundStmt(self, n, st):
        return self.seq(n.get("inner", []), st)

    def s_NullStmt(self, n, st):
        return [Out("normal", st)]

    def s_DeclStmt(self, n, st):
        sts = [st]
        for d in n.get("inner", []):
            if d["kind"] == "VarDecl":
                nx = []
                for s in sts:
                    nx += self.decl_local(s, d, n)
                sts = nx
        return [Out("normal", s) for s in sts]

    def s_ReturnStmt(self, n, st):
        if not n.get("inner"):
            return [Out("return", st, None)]
        out = []
        for s, v in self.eval(n["inner"][0], st):
            if isinstance(v, z3.ExprRef) and z3.is_bool(v):
                v = self.b2i(v)
            if isinstance(v, tuple) and v[0] == "sval":
                t = self.tu.ty(n["inner"][0])
                v = ("sval", P(self.struct_copy(s, v, t, "ret", n)))
            out.append(Out("return", s, v))
        return out

    def struct_copy(self, st, v, t, name, n):
        """a copy of a struct value in a block of its own"""
        r = fresh(Ref, "loc_" + name)
        st.assume(r != NULL, self.kind(st, r) == 0)
        self.set_kind(st, r, K(t.tag))
        self.set_size(st, r, RV(self.tu.sizeof(t)))
        self.copy_struct(st, P(r), v[1], t, n)
        return r

    def s_BreakStmt(self, n, st):
        return [Out("break", st)]

    def s_ContinueStmt(self, n, st):
        return [Out("continue", st)]

    def s_IfStmt(self, n, st):
        inner = n["inner"]
        cond, then = inner[0], inner[1]
        els = inner[2] if len(inner) > 2 else None
        out = []
        for s, v in self.eval(cond, st):
            c = self.truth(v)
            t, f = self.branch(s, c)
            if t is not None and f is not None:
                a = self.exec(then, t.copy())
                b = self.exec(els, f.copy()) if els is not None else [Out("normal", f)]
                m = self.try_join(s, c, a, b, len(t.pc), len(f.pc))
                if m is not None:
                    out.append(m)
                else:
                    out += a + b
            elif t is not None:
                out += self.exec(then, t)
            else:
                out += self.exec(els, f) if els is not None else [Out("normal", f)]
        return out

    def try_join(self, s, c, a, b, na, nb):
        """join two normal outcomes when only scalar variables (and plain globals) differ"""
        if not self.merge_ifs or len(a) != 1 or len(b) != 1 or a[0].k != "normal" or b[0].k != "normal":
            return None
        x, y = a[0].st, b[0].st
        if set(x.env) != set(y.env):
            for k in set(x.env) ^ set(y.env):
                if k in s.env:
                    return None
        env = {}
        for k in x.env:
            if k not in y.env:
                continue
            u, w = x.env[k], y.env[k]
            if isinstance(u, (tuple, str)) or isinstance(w, (tuple, str)):
                if isinstance(u, (tuple, str)) and isinstance(w, (tuple, str)) and u == w:
                    env[k] = u
                    continue
                if self.merge_heap and any(isinstance(z, str) and z == "uninit" for z in (u, w)) and not isinstance(u, tuple) and not isinstance(w, tuple):
                    env[k] = "uninit"       # a later read is an obligation that fails
                    continue
                return None
            if eqv(u, w):
                env[k] = u
                continue
            v = self.vite(c, u, w)
            if v is None:
                return None
            if isinstance(u, P) and not self.join_ptrs:
                return None
            env[k] = v
        heap = {}
        for k in set(x.heap) | set(y.heap):
            u = x.heap.get(k)
            w = y.heap.get(k)
            if u is None:
                u = self.heap0[k]
            if w is None:
                w = self.heap0[k]
            if u.eq(w):
                heap[k] = u
            elif k[0] == "g" or self.merge_heap:
                heap[k] = If(c, u, w)
            elif k[0] in ("f",) and (k[1], k[2]) not in self.lt_fields():
                j = self.join_store(s.heap.get(k, self.heap0[k]), u, w, c)
                if j is None:
                    return None
                heap[k] = j
            else:
                return None
        for k in set(x.lts) | set(y.lts):
            if x.lts.get(k) is not None and y.lts.get(k) is not None and x.lts[k] is not y.lts[k]:
                return None
        gh = {}
        for k in set(x.gh) | set(y.gh):
            u, w = x.gh.get(k), y.gh.get(k)
            if u is None or w is None or not eqg(u, w):
                return None
            gh[k] = u
        r = s.copy()
        r.env, r.heap, r.gh = env, heap, gh
        r.lts = dict(x.lts)
        r.lts.update(y.lts)
        if self.merge_heap and not any(c.eq(x) for x in self.joins):
            self.joins.append(c)
        for f in x.pc[na:]:
            r.assume(Implies(c, f))
        for f in y.pc[nb:]:
            r.assume(Implies(Not(c), f))
        return Out("normal", r)

    join_ptrs = False

    def join_store(self, base, u, w, c):
        """both are base or one Store over base at the same index"""
        def split(h):
            if h.eq(base):
                return None
            if z3.is_app(h) and h.decl().kind() == z3.Z3_OP_STORE and h.arg(0).eq(base):
                return h.arg(1), h.arg(2)
            return False
        a, b = split(u), split(w)
        if a is False or b is False:
            return None
        if a is None and b is None:
            return base
        if a is not None and b is not None and not a[0].eq(b[0]):
            return None
        i = a[0] if a is not None else b[0]
        va = a[1] if a is not None else Select(base, i)
        vb = b[1] if b is not None else Select(base, i)
        return Store(base, i, If(c, va, vb))

    def s_SwitchStmt(self, n, st):
        inner = n["inner"]
        cond, body = inner[0], inner[-1]
        # flatten: list of (labels or None, stmt)
        items = []

        def flat(s, labels):
            if s["kind"] == "CaseStmt":
                v = const_int(s["inner"][0], self.tu)
                if v is None:
                    self.unsup("case label", s)
                flat(s["inner"][-1], labels + [v])
            elif s["kind"] == "DefaultStmt":
                flat(s["inner"][-1], labels + ["default"])
            else:
                items.append((labels, s))
        for s in body.get("inner", []):
            flat(s, [])
        allv = [v for ls, _ in items for v in ls if v != "default"]
        ct = self.tu.ty(cond)
        out = []
        for s, v in self.eval(cond, st):
            entries = []
            for i, (ls, _) in enumerate(items):
                if not ls:
                    continue
                cs = []
                for x in ls:
                    cs.append(v == self.ival(x, ct) if x != "default" else And(*[v != self.ival(y, ct) for y in allv]))
                entries.append((i, Or(*cs)))
            if not any("default" in ls for ls, _ in items):
                entries.append((len(items), And(*[v != self.ival(y, ct) for y in allv])))
            for i, c in entries:
                cc = z3.simplify(c)
                if z3.is_false(cc):
                    continue
                s2 = s.copy().assume(c)
                if self.quick_unsat(s2):
                    continue
                for o in self.seq([x for _, x in items[i:]], s2):
                    if o.k == "break":
                        out.append(Out("normal", o.st))
                    else:
                        out.append(o)
        return out

    # ---------------- loops
    def s_WhileStmt(self, n, st):
        i = n["inner"]
        return self.loop(n, st, i[0], i[-1], None)

    def s_DoStmt(self, n, st):
        body, cond = n["inner"]
        c = const_int(cond, self.tu)
        if c == 0:      # do { ... } while (0)
            out = []
            for o in self.exec(body, st):
                out.append(Out("normal", o.st) if o.k in ("break", "continue") else o)
            return out
        Exec.saw_do = True
        if self.do_head != Exec.flip_do:            # the invariant stands before the body
            return self.loop(n, st, ("after", cond), body, None)
        # first iteration, then a while loop
        out = []
        for o in self.exec(body, st):
            if o.k in ("normal", "continue"):
                out += self.loop(n, o.st, cond, body, None)
            elif o.k == "break":
                out.append(Out("normal", o.st))
            else:
                out.append(o)
        return out

    def s_ForStmt(self, n, st):
        init, _, cond, inc, body = n["inner"]
        outs = self.exec(init, st) if init.get("kind") else [Out("normal", st)]
        res = []
        for o in outs:
            res += self.loop(n, o.st, cond if cond.get("kind") else None, body, inc if inc.get("kind") else None)
        return res

    def cond_states(self, cond, st):
        """-> [(state, Bool)]"""
        if cond is None:
            return [(st, TRUE)]
        return [(s, self.truth(v)) for s, v in self.eval(cond, st)]

    def iterate_once(self, st, cond, body, inc):
        """execute one iteration from head state: (back-edge states, exit outcomes)"""
        back, exits = [], []
        if isinstance(cond, tuple):
            for o in self.exec(body, st):
                if o.k not in ("normal", "continue"):
                    exits.append(Out("normal", o.st) if o.k == "break" else o)
                    continue
                for s, c in self.cond_states(cond[1], o.st):
                    t, f = self.branch(s, c)
                    if f is not None:
                        exits.append(Out("normal", f))
                    if t is not None:
                        back.append(t)
            return back, exits
        for s, c in self.cond_states(cond, st):
            t, f = self.branch(s, c)
            if f is not None:
                exits.append(Out("normal", f))
            if t is None:
                continue
            for o in self.exec(body, t):
                if o.k in ("normal", "continue"):
                    if inc is not None:
                        for s2, _ in self.eval(inc, o.st):
                            back.append(s2)
                    else:
                        back.append(o.st)
                elif o.k == "break":
                    exits.append(Out("normal", o.st))
                else:
                    exits.append(o)
        return back, exits

    def loop(self, n, st, cond, body, inc):
        # 1. concrete unrolling while the condition is decided by simplification / the cheap solver
        out = []
        literal = cond is None or isinstance(cond, tuple) or const_int(cond, self.tu) is not None
        lim = self.unroll.get(self.fstack[-1][0], 0)
        if (self.const_unroll and not literal) or lim:
            work = [(st, 0)]
            rest = []
            few = not lim and self.counted(st, cond, body, inc)
            while work:
                s, k = work.pop()
                if few:
                    pass
                elif not lim:
                    self.mute += 1
                    try:
                        cs = self.cond_states(cond, s.copy())
                    finally:
                        self.mute -= 1
                    dec = len(cs) == 1 and (z3.is_true(z3.simplify(cs[0][1])) or z3.is_false(z3.simplify(cs[0][1])))
                    if not dec or k > 300:
                        rest.append((s, k))
                        continue
                elif k >= lim:
                    # complete unrolling is an obligation
                    if not self.mute:
                        self.obls.append(Obl("loop finishes within %d iterations" % lim, list(s.pc), FALSE, self.where(n)))
                    continue
                b, e = self.iterate_once(s, cond, body, inc)
                out += e
                work += [(x, k + 1) for x in b]
            for s, k in rest:
                out += self.cut(n, s, cond, body, inc)
            return out
        return self.cut(n, st, cond, body, inc)

    def counted(self, st, cond, body, inc):
        """a for loop whose condition has the conjunct variable < constant (or the like), the variable having a known value and being
        changed by the increment only: it can be unrolled whatever the rest of the condition says"""
        def strip(x):
            while x.get("kind") in ("ParenExpr", "ImplicitCastExpr") and x.get("inner"):
                x = x["inner"][0]
            return x

        def writes(x, d):
            k = x.get("kind")
            if k in ("UnaryOperator", "BinaryOperator", "CompoundAssignOperator") and (
                    k == "CompoundAssignOperator" or x.get("opcode") in ("++", "--", "=", "&")):
                if strip(x["inner"][0]).get("referencedDecl", {}).get("id") == d:
                    return True
            return any(writes(c, d) for c in x.get("inner", []) if c)

        def conj(x):
            x = strip(x)
            if x.get("kind") == "BinaryOperator" and x.get("opcode") == "&&":
                return conj(x["inner"][0]) + conj(x["inner"][1])
            return [x]
        if inc is None or cond is None or isinstance(cond, tuple):
            return False
        cs = conj(cond)
        if len(cs) < 2:
            return False
        i = strip(inc)
        if i.get("kind") != "UnaryOperator" or i.get("opcode") not in ("++", "--"):
            return False
        d = strip(i["inner"][0]).get("referencedDecl", {}).get("id")
        v = st.env.get(self.vkey(d)) if d else None
        if not isinstance(v, z3.ExprRef) or not z3.is_int_value(z3.simplify(v)) or writes(body, d):
            return False
        v = z3.simplify(v).as_long()
        for x in cs:
            if x.get("kind") != "BinaryOperator" or x.get("opcode") not in ("<", "<=", ">", ">="):
                continue
            l, r = x["inner"]
            b = const_int(r, self.tu)
            if b is None or strip(l).get("referencedDecl", {}).get("id") != d:
                continue
            if i["opcode"] == "++" and x["opcode"] in ("<", "<=") and b - v <= 16 or i["opcode"] == "--" and x["opcode"] in (">", ">=") and v - b <= 16:
                return True
        return False

    def cut(self, n, st, cond, body, inc, peeled=0):
        try:
            return self.cut_(n, st, cond, body, inc)
        except ShapeChange as e:
            # a pointer that points to a member after the first iteration: that iteration is taken out of the loop
            if peeled == 2:
                self.unsup("pointer to varying members: %s" % e, n)
            back, out = self.iterate_once(st, cond, body, inc)
            for b in back:
                if not self.quick_unsat(b):
                    out += self.cut(n, b, cond, body, inc, peeled + 1)
            return out

    def cut_(self, n, st, cond, body, inc):
        self.loops += 1
        entry = st.copy()
        mod = Mod()
        nexits = len(self.exits)
        # 2. modified set (dynamic fixpoint)
        self.mute += 1
        try:
            for _ in range(14):
                mark = _fresh[0]
                head = self.havoc(entry, mod)
                h0 = head.copy()
                back, _e = self.iterate_once(head, cond, body, inc)
                if not self.grow(mod, entry, h0, back, mark):
                    break
            else:
                self.unsup("modified set does not converge", n)
            # 3. candidates
            cands = [c for c in self.candidates(n, entry, mod, None if isinstance(cond, tuple) else cond) if not any(x in c.name for x in self.skip_cands)]
            ok = []
            for c in cands:
                try:
                    f = c.f(entry)
                except KeyError:
                    continue
                if f is None:
                    continue
                if self.prove_cand(c, entry, f) == "unsat":
                    ok.append(c)
                elif DBG:
                    print("  DROP entry", self.where(n), c.name)
            cands = ok
            # 4. Houdini
            rounds = 0
            while True:
                rounds += 1
                mark = _fresh[0]
                head = self.havoc(entry, mod)
                for c in cands:
                    self.assume_cand(c, head)
                h0 = head.copy()
                back, _e = self.iterate_once(head, cond, body, inc)
                if self.grow(mod, entry, h0, back, mark):
                    continue
                bad = set()
                for b in back:
                    if self.quick_unsat(b):
                        continue
                    todo = [c for c in cands if id(c) not in bad]
                    # try all at once first
                    rest = [c for c in todo if not c.slim]
                    if rest and self.prove(b.pc, And(*[c.f(b) for c in rest]), self.RL_CAND) == "unsat":
                        todo = [c for c in todo if c.slim]
                    for c in todo:
                        if self.prove_cand(c, b, c.f(b)) != "unsat":
                            bad.add(id(c))
                            if DBG:
                                print("  DROP round", rounds, self.where(n), c.name)
                                if DBG in c.name:
                                    self.dbg_fail(b, c.f(b))
                if not bad:
                    break
                cands = [c for c in cands if id(c) not in bad]
        finally:
            self.mute -= 1
            del self.exits[nexits:]
        # 5. final pass: obligations of the body are recorded
        head = self.havoc(entry, mod)
        for c in cands:
            self.assume_cand(c, head)
        if not self.mute:
            self.loop_info.append((self.where(n), [c.name for c in cands], rounds))
        back, exits = self.iterate_once(head, cond, body, inc)
        if not self.mute:
            # discharged by the last Houdini round (same formulas up to renaming)
            for c in cands:
                for what in ("holds on entry", "is kept"):
                    o = Obl("loop invariant %s: %s" % (what, c.name), [], TRUE, self.where(n), "inv")
                    o.status, o.time, o.backend = "unsat", 0.0, "z3"
                    self.obls.append(o)
        return exits

    def havoc(self, entry, mod):
        st = entry.copy()
        for k, (w, t) in mod.vars.items():
            v = st.env[k]
            if isinstance(v, P):
                b = fresh(Ref, "hv") if "base" in w else v.base
                o = fresh(IntS, "ho") if "off" in w else v.off
                st.env[k] = P(b, o, v.path)
            elif isinstance(v, str):
                continue
            elif isinstance(v, z3.ExprRef):
                x = fresh(v.sort(), "hi")
                st.env[k] = x
                if t is not None and t.k == "int" and self.mode == "int":
                    st.assume(self.inrange(x, t))
            elif isinstance(v, F):
                st.env[k] = P(fresh(Ref, "hv"))
        for k, idx in mod.heap.items():
            h = st.heap.get(k)
            if h is None:
                h = self.heap0.get(k)
                if h is None:
                    continue
            if k[0] == "g":
                x = fresh(h.sort(), "hg")
                t = self.gtype(k[1])
                st.heap[k] = x
                if t is not None and t.k == "int" and self.mode == "int":
                    st.assume(self.inrange(x, t))
                continue
            if idx is None:
                st.heap[k] = fresh(h.sort(), "hh")
            else:
                for i in idx:
                    h = Store(h, i, fresh(h.range(), "hx"))
                st.heap[k] = h
        for k in mod.lts:
            self.new_lt(st, k[0], k[1])
        for k in mod.gh:
            v = st.gh.get(k)
            if v is None:
                v = self.heap0.get(("gh", k))
            if v is None:
                continue
            if isinstance(v, z3.ExprRef):
                st.gh[k] = fresh(v.sort(), "hgh")
            elif hasattr(v, "havoc"):
                st.gh[k] = v.havoc(self, st)
        return st

    def gtype(self, name):
        g = self.tu.gname.get(name)
        if g:
            return g["type"]
        for s in self.statics.values():
            if s["name"] == name:
                return s["type"]
        return None

    def grow(self, mod, entry, head, back, mark):
        """add to the modified set whatever differs at a back edge; True when it grew"""
        ch = False
        for b in back:
            for k in entry.env:
                u, w = head.env.get(k), b.env.get(k)
                if w is None:
                    continue
                if isinstance(u, (str, tuple)) or isinstance(w, (str, tuple)):
                    if isinstance(u, str) and not isinstance(w, (str, tuple)):
                        # uninitialised before the loop, assigned inside
                        pass
                    continue
                cur = mod.vars.setdefault(k, (set(), self.vtype(k)))[0] if not eqv(u, w) else None
                if cur is None:
                    continue
                if isinstance(u, P) and isinstance(w, P):
                    if u.path != w.path:
                        raise ShapeChange(ex_varname(self, k))
                    if not z3.eq(u.base, w.base) and "base" not in cur:
                        cur.add("base")
                        ch = True
                    if not oint(u.off).eq(oint(w.off)) and "off" not in cur:
                        cur.add("off")
                        ch = True
                elif "val" not in cur:
                    cur.add("val")
                    if isinstance(u, P):
                        cur.add("base")
                    ch = True
            for k in b.heap:
                h0 = head.heap.get(k, self.heap0.get(k))
                h1 = b.heap[k]
                if h0 is None or h0.eq(h1):
                    continue
                if k in mod.heap and mod.heap[k] is None:
                    continue
                idx = None
                if k[0] != "g":
                    idx = self.store_indices(h0, h1, mark)
                if k[0] == "g":
                    if k not in mod.heap:
                        mod.heap[k] = None
                        ch = True
                    continue
                if idx is None:
                    mod.heap[k] = None
                    ch = True
                else:
                    # Stores at loop-invariant indices only
                    cur = mod.heap.get(k, [])
                    new = list(cur)
                    for i in idx:
                        if not any(i.eq(x) for x in new):
                            new.append(i)
                    if len(new) != len(cur) or k not in mod.heap:
                        mod.heap[k] = new
                        ch = True
            for k, l in b.lts.items():
                l0 = head.lts.get(k, self.heap0.get(("lt",) + k))
                if l0 is not l and k not in mod.lts:
                    mod.lts.add(k)
                    ch = True
            for k, g in b.gh.items():
                g0 = head.gh.get(k, self.heap0.get(("gh", k)))
                if g0 is None or not eqg(g0, g):
                    if k not in mod.gh:
                        mod.gh.add(k)
                        ch = True
        return ch

    def vtype(self, k):
        """static type of a local, by declaration id"""
        t = self._decl_types().get(k[1])
        return t

    def _decl_types(self):
        c = getattr(self, "_dt", None)
        if c is None:
            c = self._dt = {}

            def walk(n):
                if n.get("kind") in ("VarDecl", "ParmVarDecl"):
                    try:
                        c[n["id"]] = self.tu.ty(n)
                    except Exception:
                        pass
                for x in n.get("inner", []):
                    walk(x)
            for f in self.tu.funcs.values():
                for p in f["params"]:
                    walk(p)
                walk(f["body"])
        return c

    def store_indices(self, h0, h1, mark):
        """h1 = Store*(h0) with indices that do not depend on the loop's havoc symbols, else None"""
        idx = []
        limit = None
        h = h1
        n = 0
        while not h.eq(h0):
            if z3.is_app(h) and h.decl().kind() == z3.Z3_OP_STORE:
                idx.append(h.arg(1))
                h = h.arg(0)
            elif z3.is_app(h) and h.decl().kind() == z3.Z3_OP_ITE:
                return None
            else:
                return None
            n += 1
            if n > 60:
                return None
        for i in idx:
            if any(s_after(s, mark) for s in symbols(i)):
                return None
        return idx

    def candidates(self, n, entry, mod, cond):
        h = self.loop_hints(self, entry, mod, n, cond) if self.loop_hints is not None else []
        return generic_candidates(self, n, entry, mod, cond) + h

    # locals by type, for name-independent templates
    def locals_of(self, entry, pred):
        fr = self.fstack[-1][1]
        out = []
        for k, v in entry.env.items():
            if isinstance(v, (tuple, str)):
                continue
            t = self.vtype(k)
            if t is not None and pred(t):
                out.append(k)
        return out


class Mod:
    def __init__(s):
        s.vars, s.heap, s.lts, s.gh = {}, {}, set(), set()


class ShapeChange(Exception):
    pass


class Cand:
    """slim: to be proved from the ground facts and the other slim facts (Exec.slim) alone"""
    __slots__ = ("name", "f", "slim")

    def __init__(s, name, f, slim=False):
        s.name, s.f, s.slim = name, f, slim


def eqg(a, b):
    if a is b:
        return True
    if isinstance(a, z3.ExprRef) and isinstance(b, z3.ExprRef):
        return a.eq(b)
    return a == b if not isinstance(a, z3.ExprRef) and not isinstance(b, z3.ExprRef) else False


def symbols(e, cache={}):
    k = e.get_id()
    if k in cache and cache[k][0].eq(e):
        return cache[k][1]
    out = set()
    seen = set()
    stk = [e]
    while stk:
        x = stk.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            out.add(x.decl().name())
        if z3.is_quantifier(x):
            stk.append(x.body())
        stk.extend(x.children())
    cache[k] = (e, frozenset(out))
    return cache[k][1]


def s_after(name, mark):
    i = name.rfind("!")
    return i >= 0 and name[i + 1:].isdigit() and int(name[i + 1:]) > mark


def lt_axioms(R, ln, nx):
    a, b, c = z3.Consts("a b c", Ref)
    return [
        forall([a], R(a, a), [R(a, a)]),
        forall([a], R(a, NULL), [R(a, NULL)]),
        forall([b], Implies(R(NULL, b), b == NULL), [R(NULL, b)]),
        forall([a, b, c], Implies(And(R(a, b), R(b, c)), R(a, c)), [(R(a, b), R(b, c))]),
        forall([a, b, c], Implies(And(R(a, b), R(a, c)), Or(R(b, c), R(c, b))), [(R(a, b), R(a, c))]),
        forall([a, b], Implies(And(R(a, b), R(b, a)), a == b), [(R(a, b), R(b, a))]),
        forall([a, b], Implies(And(R(a, b), a != b), And(a != NULL, R(nx(a), b))), [(R(a, b), nx(a))]),
        forall([a], Implies(a != NULL, R(a, nx(a))), [nx(a)]),
        forall([a], Implies(a != NULL, Not(R(nx(a), a))), [nx(a)]),
        forall([a], Implies(a != NULL, ln(a) == ln(nx(a)) + 1), [(ln(a), nx(a))]),
        forall([a], And(ln(a) >= 0, (ln(a) == 0) == (a == NULL)), [ln(a)]),
        ln(NULL) == 0,
        forall([a, b], Implies(R(a, b), ln(b) <= ln(a)), [(R(a, b), ln(a), ln(b))]),
        forall([a, b], Implies(And(R(a, b), a != b), ln(b) < ln(a)), [(R(a, b), ln(a), ln(b))]),
        R(NULL, NULL),
    ]


def c_unescape(v):
    """clang prints string literals in C syntax"""
    s = v
    if s.startswith('"'):
        s = s[1:-1]
    out = bytearray()
    i = 0
    mp = {"n": 10, "t": 9, "r": 13, "v": 11, "f": 12, "a": 7, "b": 8, "\\": 92, '"': 34, "'": 39, "?": 63}
    while i < len(s):
        ch = s[i]
        if ch != "\\":
            out += ch.encode("latin-1", "replace")
            i += 1
            continue
        i += 1
        ch = s[i]
        if ch in "01234567":
            m = re.match(r"[0-7]{1,3}", s[i:])
            out.append(int(m.group(0), 8) & 255)
            i += len(m.group(0))
        elif ch == "x":
            m = re.match(r"[0-9a-fA-F]+", s[i + 1:])
            out.append(int(m.group(0), 16) & 255)
            i += 1 + len(m.group(0))
        else:
            out.append(mp.get(ch, ord(ch)))
            i += 1
    return bytes(out)


def const_int(n, tu):
    """value of a constant expression or None"""
    k = n.get("kind")
    if k == "ConstantExpr" and "value" in n:
        return int(n["value"])
    if k in ("ParenExpr", "ImplicitCastExpr", "ConstantExpr", "CStyleCastExpr"):
        if k in ("ImplicitCastExpr", "CStyleCastExpr") and n.get("castKind") not in ("IntegralCast", "NoOp", None, "LValueToRValue"):
            return None
        if n.get("castKind") == "LValueToRValue":
            return None
        v = const_int(n["inner"][0], tu)
        if v is not None and n.get("castKind") == "IntegralCast":
            t = tu.ty(n)
            v %= 1 << t.bits
            if t.signed and v >= 1 << (t.bits - 1):
                v -= 1 << t.bits
        return v
    if k in ("IntegerLiteral", "CharacterLiteral"):
        return int(n["value"])
    if k == "DeclRefExpr" and n["referencedDecl"].get("kind") == "EnumConstantDecl":
        return tu.enums.get(n["referencedDecl"]["name"])
    if k == "UnaryOperator":
        v = const_int(n["inner"][0], tu)
        if v is None:
            return None
        return {"-": -v, "+": v, "~": ~v, "!": int(not v)}.get(n["opcode"])
    if k == "BinaryOperator":
        a, b = const_int(n["inner"][0], tu), const_int(n["inner"][1], tu)
        if a is None or b is None:
            return None
        try:
            return {"+": a + b, "-": a - b, "*": a * b, "|": a | b, "&": a & b, "<<": a << b if 0 <= b < 64 else None,
                    ">>": a >> b if 0 <= b < 64 else None}.get(n["opcode"])
        except Exception:
            return None
    if k == "UnaryExprOrTypeTraitExpr" and n.get("name") == "sizeof":
        try:
            if "argType" in n:
                a = n["argType"]
                return tu.sizeof(tu.parse_type(a.get("desugaredQualType") or a["qualType"]))
            return tu.sizeof(tu.ty(n["inner"][0]))
        except Unsupported:
            return None
    return None


def generic_candidates(ex, n, entry, mod, cond):
    """name-independent invariants over integers and offsets"""
    out = []
    if ex.mode != "int":
        return out
    ints = [k for k, (w, t) in mod.vars.items() if isinstance(entry.env.get(k), z3.ExprRef) and z3.is_int(entry.env[k])]
    ptrs = [k for k, (w, t) in mod.vars.items() if isinstance(entry.env.get(k), P) and "off" in w]

    def val(k):
        return (lambda st: oint(st.env[k].off)) if isinstance(entry.env[k], P) else (lambda st: st.env[k])
    nm = lambda k: ex_varname(ex, k)
    q = [(k, val(k), val(k)(entry)) for k in ints + ptrs]
    for k, f, e in q:
        out.append(Cand("%s >= initial" % nm(k), lambda st, f=f, e=e: f(st) >= e))
        out.append(Cand("%s <= initial" % nm(k), lambda st, f=f, e=e: f(st) <= e))
        out.append(Cand("%s >= 0" % nm(k), lambda st, f=f, e=e: f(st) >= 0))
        out.append(Cand("%s > 0" % nm(k), lambda st, f=f, e=e: f(st) > 0))
    for i in range(len(q)):
        for j in range(i + 1, len(q)):
            a, b = q[i], q[j]
            out.append(Cand("%s - %s const" % (nm(a[0]), nm(b[0])), lambda st, a=a, b=b: a[1](st) - b[1](st) == a[2] - b[2]))
            out.append(Cand("%s + %s const" % (nm(a[0]), nm(b[0])), lambda st, a=a, b=b: a[1](st) + b[1](st) == a[2] + b[2]))
    # locals that cache what they were loaded from
    for k, e in cached_loads(n):
        k = ex.vkey(k)
        if k not in mod.vars or not isinstance(entry.env.get(k), (P, z3.ExprRef)):
            continue

        def cl(st, k=k, e=e):
            s = st.copy()
            ex.mute += 1
            try:
                r = ex.eval(e, s)
                v = st.env.get(k)
                if len(r) != 1 or r[0][1] is None or v is None:
                    return None
                a = r[0][1]
                if isinstance(a, P) and isinstance(v, P):
                    if a.path is not None or v.path is not None:
                        return None
                    return And(a.base == v.base, oint(a.off) == oint(v.off))
                if isinstance(a, z3.ExprRef) and isinstance(v, z3.ExprRef) and a.sort() == v.sort():
                    return a == v
                return None
            except Unsupported:
                return None
            finally:
                ex.mute -= 1
        if cl(entry) is not None:
            out.append(Cand("%s is what it was loaded from" % nm(k), lambda st, cl=cl: TRUE if cl(st) is None else cl(st)))
    # flags and results that follow the value a callback returned (ghost)
    for g in getattr(ex, "stopvals", []):
        for k in ints:
            out.append(Cand("%s is the ghost result" % nm(k), lambda st, k=k, g=g: st.env[k] == g(st)))
            out.append(Cand("%s tells a ghost result" % nm(k), lambda st, k=k, g=g: (st.env[k] != 0) == (g(st) != 0)))
            out.append(Cand("%s tells no ghost result" % nm(k), lambda st, k=k, g=g: (st.env[k] == 0) == (g(st) != 0)))
    # bounds suggested by the loop condition
    for c in cmp_nodes(cond):
        l, r = c["inner"]
        op = c["opcode"]

        def ev(st, l=l, r=r, op=op):
            s = st.copy()
            ex.mute += 1
            try:
                a = ex.eval(l, s)
                if len(a) != 1:
                    return None
                b = ex.eval(r, a[0][0])
                if len(b) != 1:
                    return None
                a, b = a[0][1], b[0][1]
                if isinstance(a, P) and isinstance(b, P):
                    if not z3.eq(a.base, b.base):
                        return None
                    a, b = oint(a.off), oint(b.off)
                if not (isinstance(a, z3.ExprRef) and isinstance(b, z3.ExprRef) and z3.is_int(a) and z3.is_int(b)):
                    return None
                return a <= b if op in ("<", "!=") else (a <= b + 1 if op == "<=" else (a >= b if op in (">",) else a >= b - 1))
            finally:
                ex.mute -= 1
        if not has_side(l) and not has_side(r) and ev(entry) is not None:
            def evt(st, ev=ev):
                r = ev(st)
                return TRUE if r is None else r
            out.append(Cand("bound of the loop condition", evt))
    # frame of wholly havoced maps
    for k, idx in mod.heap.items():
        if idx is None and k[0] != "g":
            h0 = entry.heap.get(k, ex.heap0.get(k))
            if h0 is None or h0.sort().kind() != z3.Z3_ARRAY_SORT or h0.sort().domain() != Ref:
                continue
            k0 = ex.kmap(entry)

            def fr(st, k=k, h0=h0, k0=k0):
                o = z3.Const("o", Ref)
                h = st.heap.get(k, h0)
                return forall([o], Implies(Select(k0, o) > 0, Select(h, o) == Select(h0, o)), [Select(h, o)])
            out.append(Cand("%s of blocks alive before the loop unchanged" % (k,), fr))
    return out


def ex_varname(ex, k):
    c = getattr(ex, "_vn", None)
    if c is None:
        c = ex._vn = {}

        def walk(n):
            if n.get("kind") in ("VarDecl", "ParmVarDecl"):
                c[n["id"]] = n.get("name", "?")
            for x in n.get("inner", []):
                walk(x)
        for f in ex.tu.funcs.values():
            for p in f["params"]:
                walk(p)
            walk(f["body"])
    return c.get(k[1], "?")


def cached_loads(n):
    """assignments local = side-effect-free load in a loop: (variable, expression)"""
    def strip(x):
        while x.get("kind") in ("ParenExpr", "ImplicitCastExpr", "CStyleCastExpr") and x.get("inner"):
            x = x["inner"][0]
        return x

    def has(x, kinds):
        return x.get("kind") in kinds or any(has(c, kinds) for c in x.get("inner", []))

    def mentions(x, d):
        if x.get("kind") == "DeclRefExpr" and x.get("referencedDecl", {}).get("id") == d:
            return True
        return any(mentions(c, d) for c in x.get("inner", []))

    def walk(x):
        if x.get("kind") == "BinaryOperator" and x.get("opcode") == "=":
            l, r = x["inner"]
            if l.get("kind") == "DeclRefExpr" and has(r, ("MemberExpr", "ArraySubscriptExpr")) and not has_side(r) and not has(
                    r, ("ConditionalOperator", "BinaryConditionalOperator")) and not mentions(r, l["referencedDecl"]["id"]):
                out.append((l["referencedDecl"]["id"], r))
        for c in x.get("inner", []):
            if c:
                walk(c)
    out = []
    walk(n)
    return out


def cmp_nodes(n):
    if not n:
        return
    if n.get("kind") == "BinaryOperator" and n.get("opcode") in ("<", "<=", ">", ">=", "!="):
        yield n
        return
    if n.get("kind") in ("ParenExpr", "ImplicitCastExpr") or (n.get("kind") == "BinaryOperator" and n.get("opcode") in ("&&",)):
        for c in n["inner"]:
            for x in cmp_nodes(c):
                yield x


def has_side(n):
    k = n.get("kind")
    if k == "CallExpr" or k == "CompoundAssignOperator" or (k == "BinaryOperator" and n.get("opcode") == "=") or (
            k == "UnaryOperator" and n.get("opcode") in ("++", "--")):
        return True
    return any(has_side(c) for c in n.get("inner", []))


SIDE_FREE_OUT = {"printf", "fprintf", "putchar", "putc", "fputc", "fputs", "fflush", "vfprintf", "puts", "log_error_va", "log_error"}


# ------------------------------------------------------------------ contracts of the environment
def m_exit(kind):
    def f(ex, st, vs, n):
        if not ex.mute:
            ex.exits.append((kind, st, ex.where(n)))
        return []
    return f


def m_xmalloc(ex, st, vs, n):
    ex.trusted.add("xmalloc")
    return [(st, P(ex.alloc(st, vs[0])))]


def m_malloc(ex, st, vs, n):
    ex.trusted.add("malloc")
    s2 = st.copy()
    return [(st, P(ex.alloc(st, vs[0]))), (s2, P(NULL))]


def m_free(ex, st, vs, n, null_ok=True):
    ex.trusted.add("free")
    p = vs[0]
    if not isinstance(p, P):
        ex.unsup("free", n)
    ok = And(TRUE if p.path is None and off_is0(p.off) else FALSE, ex.kind(st, p.base) > 0, ex.kind(st, p.base) != STACKBLK)
    if null_ok:
        t, f = ex.branch(st, p.base != NULL)
        out = []
        if f is not None:
            out.append((f, None))
        if t is not None:
            ex.oblige(t, "free of a live block", ok, n, group="mem")
            ex.set_kind(t, p.base, 0)
            out.append((t, None))
        return out
    ex.oblige(st, "free of a live block", And(p.base != NULL, ok), n, group="mem")
    ex.set_kind(st, p.base, 0)
    return [(st, None)]


def m_xfree(ex, st, vs, n):
    # contract of xfree (proved in C21): NULL is fatal, otherwise the block is released
    p = vs[0]
    t, f = ex.branch(st, p.base != NULL)
    if f is not None and not ex.mute:
        ex.exits.append(("fatal", f, ex.where(n)))
    if t is None:
        return []
    return m_free(ex, t, vs, n, False)


def m_assert_fail(ex, st, vs, n):
    if not ex.mute:
        ex.exits.append(("assert", st, ex.where(n)))
    return []


MODELS = {
    "err_internal": m_exit("internal"), "err_fatal": m_exit("fatal"), "err_fatal_errno": m_exit("fatal"),
    "abort": m_exit("abort"), "exit": m_exit("exit"), "_exit": m_exit("exit"),
    "xmalloc": m_xmalloc, "malloc": m_malloc, "free": m_free, "xfree": m_xfree,
    "__assert_fail": m_assert_fail, "err_warning": lambda ex, st, vs, n: [(st, None)],
}

"""maa/pr.c : children and filters.  The kernel is a model that may answer anything the manual permits: partial transfers, interruptions, refusals,
any wait status.  Ghost: what was written to and read from the child, the descriptor table, the processes."""
from spec import *
from textmod import gget, gset

from absmod import *
from core import ex_varname, contains

TU = "pr.c"
EINTR, EAGAIN, ECHILD = 4, 11, 10
SIGPIPE = 13
F_GETFL, F_SETFL, NONBLOCK = 3, 4, 0o4000
BoolArr = z3.ArraySort(IntS, BoolS)
IntArr = z3.ArraySort(IntS, IntS)
CH = z3.Function("child_output", IntS, IntS)       # what the child writes, byte by byte


def mentions(f, e):
    return contains(f, [e])


def exitmap(s):
    """the documented meaning of a wait status"""
    low = s % 128
    exited, code = low == 0, (s / 256) % 256
    signaled = And(low > 0, low < 127)
    return If(exited, code, If(And(signaled, low != SIGPIPE), 128 + low, RV(0)))


class OS:
    SC = ("w", "r", "eof", "hard", "wait_ok", "wait_st", "wait_en", "waited", "forked", "execd")     # scalar ghosts

    def __init__(self, c):
        self.c, self.ex = c, c.ex
        ex, st = c.ex, c.st
        ex.wrapped = ("_pr_Obj",)
        ex.models.update(MODELS)
        M = ex.models
        self.N = z3.Int("open_max")
        c.requires(self.N > 0, self.N < (1 << 28))
        for k in self.SC:
            c.noframe.add(("g", "@" + k))
        for k in ("fd", "nb", "fdset"):
            c.noframe.add(("G", k))
        self.fd(st), self.nb(st), self.fdset(st)
        ex.rmap(st, INT)
        ex.rmap(st, CHAR)
        # errno
        self.en = ex.gref("errno")
        c.requires(self.en != NULL, ex.kind(st, self.en) == STACKBLK, ex.size(st, self.en) == 4)
        self.errno = lambda s: Select(Select(ex.rmap(s, INT), self.en), RV(0))
        # the table of the descriptors handed out
        self.tab = lambda s: toref(ex.gload(s, "_pr_objects", PTR(VOID)))
        t = self.tab(st)
        self.T0 = t
        self.reg = lambda s, i: Select(Select(ex.rmap(s, INT), self.tab(s)), i)
        i = z3.Int("i")
        c.requires(t != self.en, Implies(t != NULL, And(Or(ex.kind(st, t) == RAW, ex.kind(st, t) == UNTYPED), ex.size(st, t) == 4 * self.N)))
        for f in c.tu.funcs.values():
            self.statics(f["body"], f["name"])
        M["__errno_location"] = lambda ex, s, vs, n: [(s, P(self.en))]
        for k in dir(self):
            if k.startswith("m_"):
                M[k[2:]] = getattr(self, k)
        c.os = self

    def statics(self, n, fname):
        if n.get("kind") == "VarDecl" and n.get("storageClass") == "static":
            t = self.c.tu.ty(n)
            if t.k == "int":
                self.cached = getattr(self, "cached", []) + [(fname + "." + n["name"], t)]
                v = self.ex.gload(self.c.st, fname + "." + n["name"], t)
                self.c.requires(Or(v == 0, v == self.N))
        for x in n.get("inner", []):
            self.statics(x, fname)

    # ghosts
    def g(self, s, k, sort=IntS):
        return self.ex.hmap(s, ("g", "@" + k), lambda: sort)

    def put(self, s, k, v):
        s.heap[("g", "@" + k)] = v

    def fd(self, s):
        return gget(self.ex, s, "fd", IntArr)

    def nb(self, s):
        return gget(self.ex, s, "nb", BoolArr)

    def setfd(self, s, t):
        """the table gets a name of its own: terms stay small"""
        n = fresh(IntArr, "fdt")
        s.assume(n == t)
        gset(s, "fd", n)

    def fdset(self, s):
        return gget(self.ex, s, "fdset", z3.ArraySort(Ref, BoolArr))

    def isopen(self, s, i):
        return Select(self.fd(s), i) != 0

    def set_errno(self, s, v=None):
        if v is None:
            v = fresh(IntS, "errno")
            s.assume(self.ex.inrange(v, INT))
        h = self.ex.rmap(s, INT)
        s.heap[self.ex.rawkey(INT)] = Store(h, self.en, Store(Select(h, self.en), RV(0), v))
        return v

    def fails(self, s):
        """a failed call: a positive errno"""
        e = self.set_errno(s)
        s.assume(e > 0)
        return e

    def any(self, s, nm="r", t=INT):
        v = fresh(IntS, nm)
        s.assume(self.ex.inrange(v, t))
        return v

    def trust(self, what):
        self.ex.trusted.add(what)

    # output and logging: errno may change
    def clobber(self, s):
        e = self.errno(s)
        if z3.is_const(e) and str(e).startswith("errno!") and sum(1 for f in s.pc if mentions(f, e)) <= 1:
            return              # arbitrary already
        self.set_errno(s)

    def _out(self, ex, s, vs, n):
        self.clobber(s)
        return [(s, self.any(s))]
    m_printf = m_puts = m_fprintf = m_fputs = m_fflush = m_fputc = m_putchar = _out

    def m_log_info(self, ex, s, vs, n):
        self.clobber(s)
        return [(s, None)]
    m_perror = m_err_warning = m_log_info

    def m_dbg_test(self, ex, s, vs, n):
        self.trust("dbg_test (proved under C19: modifies nothing)")
        self.clobber(s)         # what is printed may change errno
        return [(s, self.any(s, "dbg"))]

    def m_sysconf(self, ex, s, vs, n):
        self.trust("sysconf(_SC_OPEN_MAX) is positive and constant while the library is in use")
        return [(s, self.N)]

    def m_xcalloc(self, ex, s, vs, n):
        self.trust("xcalloc (proved for xmalloc.c in C21)")
        r = ex.alloc(s, vs[0] * vs[1], "ca")
        h = ex.rmap(s, INT)
        new = fresh(h.range(), "ca")
        i = z3.Int("i")
        s.assume(forall([i], Select(new, i) == 0, [Select(new, i)]))
        s.heap[ex.rawkey(INT)] = Store(h, r, new)
        return [(s, P(r))]

    # waiting
    def m_waitpid(self, ex, s, vs, n):
        self.trust("waitpid: reports the status of the child asked for, or fails with errno")
        pid, p, opt = vs
        ex.oblige(s, "waits for this child, until it ends", And(opt == 0), n, group="call")
        f = s.copy()
        v = self.any(s, "status")
        s.assume(v >= 0, v < 65536)
        ex.store(s, ("raw", p.base, p.off), v, INT, n)
        s.assume(pid > 0)       # any child would also do for pid <= 0; the callers pass pids of children
        for st, ok, sv in ((s, 1, v), (f, 0, RV(0))):
            self.put(st, "waited", pid)
            self.put(st, "wait_ok", RV(ok))
            self.put(st, "wait_st", sv)
        e = self.fails(f)
        self.put(f, "wait_en", e)
        r = self.any(f, "wp")
        f.assume(r < 0)
        return [(s, pid), (f, r)]

    def wait_result(self, s):
        return If(self.g(s, "wait_ok") == 1, exitmap(self.g(s, "wait_st")), If(self.g(s, "wait_en") == ECHILD, RV(0), RV(-1)))

    def c_pr_wait(self, ex, s, vs, n):
        """contract of pr_wait"""
        self.trust("pr_wait (proved in C24)")
        r = self.any(s, "status")
        self.put(s, "waited", vs[0])
        self.put(s, "wait_r", r)
        self.c.noframe.add(("g", "@wait_r"))
        self.set_errno(s)
        return [(s, r)]

    # processes
    def m_fork(self, ex, s, vs, n):
        self.trust("fork: the child starts as a copy")
        a, b = s.copy(), s.copy()
        self.fails(s)
        p = self.any(a, "pid")
        a.assume(p > 0)
        for st, f in ((a, p), (b, RV(0))):
            self.put(st, "forked", f)
        return [(a, p), (b, RV(0)), (s, RV(-1))]

    def m_execvp(self, ex, s, vs, n):
        self.trust("execvp")
        self.execed(s, vs, n)
        f = s
        self.put(f, "execd", RV(1))
        self.fails(f)
        return [(f, RV(-1))]

    def m__exit(self, ex, s, vs, n):
        ex.oblige(s, "_exit: only the child, with status 127 after the program could not be run", And(self.g(s, "forked") == 0, self.g(s, "execd") == 1, vs[0] == 127), n, group="call")
        return []

    # descriptors
    def m_close(self, ex, s, vs, n):
        self.trust("close")
        self.setfd(s, Store(self.fd(s), vs[0], RV(0)))
        self.set_errno(s)
        return [(s, self.any(s, "cl"))]

    def m_fcntl(self, ex, s, vs, n):
        self.trust("fcntl(F_GETFL, F_SETFL)")
        ex.oblige(s, "fcntl of an open descriptor", self.isopen(s, vs[0]), n, group="call")
        cmd = z3.simplify(vs[1])
        if z3.is_int_value(cmd) and cmd.as_long() == F_GETFL:
            f = s.copy()
            r = self.any(s, "fl")
            s.assume(r >= 0)
            self.fails(f)
            self.put(f, "hard", RV(1))
            return [(s, r), (f, RV(-1))]
        if z3.is_int_value(cmd) and cmd.as_long() == F_SETFL:
            fl = vs[2]
            gset(s, "nb", Store(self.nb(s), vs[0], (fl / RV(NONBLOCK)) % 2 == 1))
            return [(s, RV(0))]
        ex.unsup("fcntl", n)

    def m_vcg_fd_zero(self, ex, s, vs, n):
        gset(s, "fdset", Store(self.fdset(s), vs[0].base, z3.K(IntS, FALSE)))
        return [(s, None)]

    def _setfd(self, ex, s, vs, n, v):
        ex.oblige(s, "descriptor below FD_SETSIZE", And(vs[0] >= 0, vs[0] < 1024), n, group="mem")
        h = self.fdset(s)
        gset(s, "fdset", Store(h, vs[1].base, Store(Select(h, vs[1].base), vs[0], v)))
        return [(s, None)]

    def m_vcg_fd_set(self, ex, s, vs, n):
        return self._setfd(ex, s, vs, n, TRUE)

    def m_vcg_fd_clr(self, ex, s, vs, n):
        return self._setfd(ex, s, vs, n, FALSE)

    def m_vcg_fd_isset(self, ex, s, vs, n):
        ex.oblige(s, "descriptor below FD_SETSIZE", And(vs[0] >= 0, vs[0] < 1024), n, group="mem")
        return [(s, If(Select(Select(self.fdset(s), vs[1].base), vs[0]), RV(1), RV(0)))]

    # ---- argument lists
    def m_arg_argify(self, ex, s, vs, n):
        self.trust("arg_argify, arg_get_vector, arg_destroy (proved under C12, C13)")
        ex.oblige(s, "the command is split, with quoting", And(toref(vs[0]) == toref(self.cmd), vs[1] == 0), n, group="call")
        r = ex.alloc(s, self.any(s), "args")
        ex.set_kind(s, r, K("Arg"))
        self.put(s, "list", r)
        self.c.noframe.add(("g", "@list"))
        return [(s, P(r))]

    def m_arg_get_vector(self, ex, s, vs, n):
        ex.oblige(s, "a live argument list", ex.kind(s, vs[0].base) == K("Arg"), n, group="pre")
        k, v = fresh(IntS, "argc"), fresh(Ref, "argv")
        s.assume(k >= 0, k < (1 << 30), v != NULL, ex.kind(s, v) == RAW, ex.size(s, v) >= 8 * (k + 1), v != vs[1].base, v != vs[2].base)
        ex.store(s, ("raw", vs[1].base, vs[1].off), k, INT, n)
        ex.store(s, ("raw", vs[2].base, vs[2].off), P(v), PTR(PTR(CHAR)), n)
        s.assume(Select(Select(ex.rmap(s, PTR(VOID)), v), k) == NULL)
        self.put(s, "argv", v)
        self.c.noframe.add(("g", "@argv"))
        return [(s, RV(0))]

    def m_arg_destroy(self, ex, s, vs, n):
        ex.oblige(s, "a live argument list", ex.kind(s, vs[0].base) == K("Arg"), n, group="pre")
        ex.set_kind(s, vs[0].base, 0)
        return [(s, None)]

    def execed(self, s, vs, n):
        ex = self.ex
        v = self.g(s, "argv", Ref)
        ex.oblige(s, "the child, and only the child, runs the program named first with all its arguments", And(
            self.g(s, "forked") == 0, vs[1].base == v, oint(vs[1].off) == 0, toref(vs[0]) == Select(Select(ex.rmap(s, PTR(VOID)), v), RV(0))), n, group="call")


@contract(TU, "max_fd", ["C24", "C27"])
def _max(c):
    o = OS(c)
    r = z3.Int("limit_now")
    c.requires(c.ex.inrange(r, LONG))
    c.requires(r < (1 << 31))

    def m_sysconf(ex, s, vs, n):
        ex.trusted.add("sysconf")
        return [(s, r)]
    c.ex.models["sysconf"] = m_sysconf
    c.run()
    for st, v in c.returns:
        c.ensure(st, "a positive number of descriptors", v > 0)
    c.errors()


@contract(TU, "pr_wait", "C24")
def _wait(c):
    o = OS(c)
    pid = c.args[0]
    o.put(c.st, "wait_ok", RV(2))
    c.run()
    for st, r in c.returns:
        c.ensure(st, "waited for this child", And(o.g(st, "waited") == pid, o.g(st, "wait_ok") != 2))
        c.ensure(st, "an interrupted wait is retried", Not(And(o.g(st, "wait_ok") == 0, o.g(st, "wait_en") == EINTR)))
        c.ensure(st, "exit status; 128 plus the signal, except for SIGPIPE; 0 for a child already waited for; -1 when waiting failed", r == o.wait_result(st))
        c.frame(st, lambda x: x == o.en)
    c.errors()


@contract(TU, "pr_close_nowait", ["C24", "C27"])
def _cnw(c):
    o = OS(c)
    fd = c.args[0]
    st = c.st
    c.requires(fd >= 0, fd < o.N)
    tab, pid = o.T0, o.reg(st, fd)
    c.allow("internal", tab == NULL, name="pr_open was never called")
    c.allow("internal", And(tab != NULL, pid == 0), name="not a descriptor of pr_open")
    c.run()
    i = z3.Int("i!sk")
    for st, r in c.returns:
        c.ensure(st, "the child of the descriptor", r == pid)
        c.ensure(st, "the descriptor is closed, no other", If(i == fd, Not(o.isopen(st, i)), Select(o.fd(st), i) == Select(o.fd(c.st0), i)))
        c.ensure(st, "the descriptor is forgotten, no other", If(i == fd, o.reg(st, i) == 0, o.reg(st, i) == o.reg(c.st0, i)))
        c.frame(st, lambda x: Or(x == o.en, x == tab))
    c.errors()


@contract(TU, "pr_close", ["C24", "C27"])
def _close(c):
    o = OS(c)
    c.ex.models["pr_wait"] = o.c_pr_wait
    fd = c.args[0]
    st = c.st
    c.requires(fd >= 0, fd < o.N)
    tab, pid = o.T0, o.reg(st, fd)
    c.allow("internal", tab == NULL, name="pr_open was never called")
    c.allow("internal", And(tab != NULL, pid == 0), name="not a descriptor of pr_open")
    c.run()
    i = z3.Int("i!sk")
    for st, r in c.returns:
        c.ensure(st, "the status of the child of the descriptor", And(o.g(st, "waited") == pid, r == o.g(st, "wait_r")))
        c.ensure(st, "the descriptor is closed, no other", If(i == fd, Not(o.isopen(st, i)), Select(o.fd(st), i) == Select(o.fd(c.st0), i)))
        c.ensure(st, "the descriptor is forgotten, no other", If(i == fd, o.reg(st, i) == 0, o.reg(st, i) == o.reg(c.st0, i)))
        c.frame(st, lambda x: Or(x == o.en, x == tab))
    c.errors()


@contract(TU, "pr_readwrite", "C24", weight=4)
def _rw(c):
    o = OS(c)
    ex = c.ex
    fin, fout, ib, il, ob, om = c.args
    st = c.st
    ex.models["pr_wait"] = o.c_pr_wait
    L = z3.Int("child_output_length")
    c.requires(L >= 0, L < (1 << 31))        # resources
    c.requires(fin >= 0, fin < 1024, fout >= 0, fout < 1024, fin != fout, fin < o.N, fout < o.N, il >= 0, om >= 0, om < (1 << 31) - 1)
    c.requires(o.tab(st) != NULL, o.reg(st, fin) != 0, o.reg(st, fout) != 0, o.isopen(st, fin), o.isopen(st, fout))
    for b, n in ((ib, il), (ob, om)):
        c.requires(Implies(n > 0, And(b.base != NULL, ex.kind(st, b.base) > 0, ex.size(st, b.base) >= n)))
    c.requires(Implies(And(il > 0, om > 0), ib.base != ob.base), ib.base != o.en, ob.base != o.en, ob.base != o.T0)
    for k in ("w", "r", "eof", "hard"):
        o.put(st, k, RV(0))
    ic = lambda s, x: Select(Select(ex.rmap(s, CHAR), ib.base), x)
    oc = lambda s, x: Select(Select(ex.rmap(s, CHAR), ob.base), x)
    x = z3.Int("x!sk")

    def m_select(ex, s, vs, n):
        o.trust("select: any answer")
        nfds, rp, wp, ep, tv = vs
        y = z3.Int("y!sk")
        for p in (rp, wp, ep):
            t = toref(p)
            ex.oblige(s, "only open descriptors, below the limit given, are waited for", Implies(And(t != NULL, Select(Select(o.fdset(s), t), y)), And(o.isopen(s, y), y < nfds, Or(y == fin, y == fout))), n, group="call")
        ex.oblige(s, "the output of the child is waited for", Select(Select(o.fdset(s), rp.base), fout), n, group="call")
        ex.oblige(s, "the child sees the end of its input as soon as everything is written", Implies(o.g(s, "w") == il, Not(o.isopen(s, fin))), n)
        ex.oblige(s, "room for writing is waited for while there is something to write", Implies(o.g(s, "w") < il, Select(Select(o.fdset(s), wp.base), fin)), n, group="call")
        h = o.fdset(s)
        for p in (rp, wp, ep):
            h = Store(h, p.base, fresh(BoolArr, "ready"))
        gset(s, "fdset", h)
        f = s.copy()
        e = o.fails(f)
        o.put(f, "hard", If(e == EINTR, o.g(f, "hard"), RV(1)))
        r = o.any(s, "ready")
        s.assume(r >= 0, r <= 6)
        return [(s, r), (f, RV(-1))]

    def m_write(ex, s, vs, n):
        o.trust("write: writes any part of what it is given, or fails with errno")
        fd, p, k = vs
        w = o.g(s, "w")
        ex.oblige(s, "written to the child's input, which is open and does not block", And(fd == fin, o.isopen(s, fd), Select(o.nb(s), fd)), n)
        ex.oblige(s, "nothing but the next bytes of the input is written", And(k > 0, w + k <= il, Implies(And(x >= 0, x < k), Select(Select(ex.rmap(s, CHAR), p.base), oint(p.off) + x) == ic(c.st0, w + x))), n)
        ex.oblige(s, "the bytes written are in a live block", And(ex.kind(s, p.base) > 0, oint(p.off) >= 0, oint(p.off) + k <= ex.size(s, p.base)), n, group="mem")
        f = s.copy()
        e = o.fails(f)
        o.put(f, "hard", If(Or(e == EINTR, e == EAGAIN), o.g(f, "hard"), RV(1)))
        v = o.any(s, "written", LONG)
        s.assume(v >= 1, v <= k)
        o.put(s, "w", w + v)
        o.set_errno(s)
        return [(s, v), (f, RV(-1))]

    def m_read(ex, s, vs, n):
        o.trust("read: delivers any part of what is there, the end, or fails with errno")
        fd, p, k = vs
        r = o.g(s, "r")
        ex.oblige(s, "read from the child's output, which is open and does not block", And(fd == fout, o.isopen(s, fd), Select(o.nb(s), fd)), n)
        ex.oblige(s, "the bytes read fit", And(k > 0, ex.kind(s, p.base) > 0, oint(p.off) >= 0, oint(p.off) + k <= ex.size(s, p.base)), n, group="mem")
        ex.oblige(s, "the bytes read fit in the caller's buffer", Implies(And(om > 0, p.base == ob.base), oint(p.off) + k <= om), n, group="mem")
        ex.oblige(s, "nothing is read from the child after its end was seen", o.g(s, "eof") == 0, n)
        f, e = s.copy(), s.copy()
        en = o.fails(f)
        o.put(f, "hard", If(Or(en == EINTR, en == EAGAIN), o.g(f, "hard"), RV(1)))
        e.assume(r == L)
        o.put(e, "eof", RV(1))
        o.set_errno(e)
        v = o.any(s, "got", LONG)
        s.assume(v >= 1, v <= k, r + v <= L)
        h = ex.rmap(s, CHAR)
        old, new = Select(h, p.base), fresh(h.range(), "rd")
        j = z3.Int("j")
        po = oint(p.off)
        s.assume(forall([j], Select(new, j) == If(And(j >= po, j < po + v), CH(r + j - po), Select(old, j)), [Select(new, j)]))
        s.heap[ex.rawkey(CHAR)] = Store(h, p.base, new)
        o.put(s, "r", r + v)
        o.set_errno(s)
        return [(s, v), (e, RV(0)), (f, RV(-1))]
    ex.models.update(select=m_select, write=m_write, read=m_read)

    def hints(ex, entry, mod, nd, cond):
        out = []
        w0, r0 = (o.g(entry, k) for k in "wr")
        gs = [(k, lambda st, k=k: o.g(st, k), o.g(entry, k)) for k in "wr"]
        for k in mod.vars:
            v = entry.env.get(k)
            if isinstance(v, P):
                f, e = (lambda st, k=k: oint(st.env[k].off)), oint(v.off)
            elif isinstance(v, z3.ExprRef) and z3.is_int(v):
                f, e = (lambda st, k=k: st.env[k]), v
            else:
                continue
            for nm, g, g0 in gs:
                out.append(Cand("%s moves with what was transferred (%s)" % (ex_varname(ex, k), nm), lambda st, f=f, e=e, g=g, g0=g0: f(st) - e == g(st) - g0))
                out.append(Cand("%s shrinks by what was transferred (%s)" % (ex_varname(ex, k), nm), lambda st, f=f, e=e, g=g, g0=g0: e - f(st) == g(st) - g0))
            out.append(Cand("%s above the output" % ex_varname(ex, k), lambda st, f=f: f(st) > fout))
            out.append(Cand("%s above the input while it is open" % ex_varname(ex, k), lambda st, f=f: Implies(o.isopen(st, fin), f(st) > fin)))
        out.append(Cand("within the input", lambda st: And(o.g(st, "w") >= 0, o.g(st, "w") <= il)))
        out.append(Cand("within the output", lambda st: And(o.g(st, "r") >= 0, o.g(st, "r") <= L)))
        out.append(Cand("fits", lambda st: o.g(st, "r") <= om))
        out.append(Cand("no failure, no end seen", lambda st: And(o.g(st, "hard") == 0, o.g(st, "eof") == 0)))
        out.append(Cand("input open while there is something to write", lambda st: o.isopen(st, fin) == (o.g(st, "w") < il)))
        out.append(Cand("descriptors", lambda st: And(o.isopen(st, fout), o.tab(st) != NULL, o.reg(st, fout) == o.reg(c.st0, fout), Implies(o.g(st, "w") < il, o.reg(st, fin) == o.reg(c.st0, fin)),
                                                      Implies(o.g(st, "w") == il, o.reg(st, fin) == 0))))
        j = z3.Int("j")
        out.append(Cand("no other descriptor closed", lambda st: forall([j], Or(j == fin, j == fout, Select(o.fd(st), j) == Select(o.fd(c.st0), j)), [Select(o.fd(st), j)])))
        out.append(Cand("no other descriptor forgotten", lambda st: forall([j], Or(j == fin, j == fout, o.reg(st, j) == o.reg(c.st0, j)), [o.reg(st, j)])))
        row = lambda st, b: Select(ex.rmap(st, CHAR), b)
        h0 = ex.rmap(c.st0, CHAR)
        out.append(Cand("the output so far", lambda st: forall([j], Select(row(st, ob.base), j) == If(And(j >= 0, j < o.g(st, "r")), CH(j), Select(Select(h0, ob.base), j)), [Select(row(st, ob.base), j)])))
        out.append(Cand("the input is as it was", lambda st: Implies(il > 0, row(st, ib.base) == Select(h0, ib.base))))
        return out
    ex.loop_hints = hints
    c.run()
    for st, r in c.returns:
        c.ensure(st, "every byte of the input was written, once, in order", o.g(st, "w") == il)
        c.ensure(st, "the end of the output was seen", And(o.g(st, "eof") == 1, o.g(st, "r") == L))
        c.ensure(st, "the number of bytes the child wrote", r == L)
        c.ensure(st, "it fits", L <= om)
        c.ensure(st, "exactly the bytes the child wrote; nothing behind them", Implies(om > 0, oc(st, x) == If(And(x >= 0, x < L), CH(x), oc(c.st0, x))))
        c.ensure(st, "both descriptors are closed and forgotten, no other", If(Or(x == fin, x == fout), And(Not(o.isopen(st, x)), o.reg(st, x) == 0), And(Select(o.fd(st), x) == Select(o.fd(c.st0), x), o.reg(st, x) == o.reg(c.st0, x))))
        c.ensure(st, "the child was waited for", o.g(st, "waited") == o.reg(c.st0, fout))
        c.ensure(st, "no failure is passed over", o.g(st, "hard") == 0)
        c.frame(st, lambda b: Or(b == o.en, b == o.tab(c.st0), And(om > 0, b == ob.base)))
    for kind, st, loc in c.exits:
        c.ensure(st, "%s report at %s only when a system call failed, the child stopped reading, or its output does not fit" % (kind, loc), And(BoolVal(kind == "fatal"), Or(
            o.g(st, "hard") == 1, And(o.g(st, "eof") == 1, o.g(st, "w") < il), o.g(st, "r") > om)))


@contract(TU, "pr_spawn", "C24", weight=2)
def _spawn(c):
    o = OS(c)
    ex = c.ex
    o.cmd = c.args[0]
    c.requires(toref(o.cmd) != NULL)
    o.put(c.st, "wait_ok", RV(2))
    o.put(c.st, "execd", RV(0))
    o.put(c.st, "forked", RV(-1))
    c.run()
    m = z3.Const("m!sk", Ref)
    for st, r in c.returns:
        c.ensure(st, "only the parent returns", o.g(st, "forked") > 0)
        c.ensure(st, "waited for this child", And(o.g(st, "waited") == o.g(st, "forked"), o.g(st, "wait_ok") != 2))
        c.ensure(st, "an interrupted wait is retried", Not(And(o.g(st, "wait_ok") == 0, o.g(st, "wait_en") == EINTR)))
        c.ensure(st, "exit status; 128 plus the signal, except for SIGPIPE; 0 for a child already waited for; -1 when waiting failed", r == o.wait_result(st))
        c.ensure(st, "the argument list is released", ex.kind(st, o.g(st, "list", Ref)) == 0)
        c.frame(st, lambda x: Or(x == o.en), globs=("_pr_objects", "max_fd.maxFd"))
    for kind, st, loc in c.exits:
        c.ensure(st, "%s report at %s only when no child could be created" % (kind, loc), And(BoolVal(kind == "fatal"), o.g(st, "forked") == -1))


@contract(TU, "pr_filter", "C24")
def _filter(c):
    o = OS(c)
    ex = c.ex
    cmd, ib, il, ob, om = c.args
    CI, CO = 8, 16      # PR_CREATE_STDIN, PR_CREATE_STDOUT
    val = lambda k: c.tu.enumerators[k] if hasattr(c.tu, "enumerators") and k in c.tu.enumerators else None
    a, b, res = z3.Int("fd_in"), z3.Int("fd_out"), z3.Int("result")
    c.requires(ex.inrange(res, INT))

    def m_open(ex, s, vs, n):
        ex.trusted.add("pr_open (C27)")
        ex.oblige(s, "the command, with its input and output created and nothing else", And(toref(vs[0]) == toref(cmd), vs[1] == o_flags(c)), n, group="call")
        for p, v in ((vs[2], a), (vs[3], b)):
            ex.store(s, ("raw", p.base, p.off), v, INT, n)
        r = o.any(s, "pid")
        s.assume(r > 0)
        return [(s, r)]

    def m_rw(ex, s, vs, n):
        ex.trusted.add("pr_readwrite (proved in C24)")
        ex.oblige(s, "writes to the child's input, reads its output, with the caller's buffers", And(
            vs[0] == a, vs[1] == b, toref(vs[2]) == toref(ib), vs[3] == il, toref(vs[4]) == toref(ob), vs[5] == om), n, group="call")
        o.put(s, "execd", RV(7))
        return [(s, res)]
    ex.models.update(pr_open=m_open, pr_readwrite=m_rw)
    o.put(c.st, "execd", RV(0))
    c.run()
    for st, r in c.returns:
        c.ensure(st, "the result of the transfer", And(o.g(st, "execd") == 7, r == res))
        c.frame(st, lambda x: x == o.en)
    c.errors()


def o_flags(c):
    return RV(0x30)




# ---------------------------------------------------------------- C27: plumbing
DEVNULL = {0: z3.Int("null_for_reading"), 1: z3.Int("null_for_writing")}
USE, CREATE, TO_STDOUT = (0, 1, 2), (4, 5, 6), 8


@contract(TU, "pr_open2", "C27", weight=5)
def _open2(c):
    o = OS(c)
    ex = c.ex
    ex.merge_heap = True
    o.cmd, cb, flags, pi, po, pe = c.args
    st = c.st
    ptr = (pi, po, pe)
    bit = lambda k: (flags / RV(1 << k)) % 2 == 1
    use, create, dup = [bit(k) for k in USE], [bit(k) for k in CREATE], bit(TO_STDOUT)
    known = sum(1 << k for k in USE + CREATE + (TO_STDOUT,))
    other = flags != z3.Sum([If(bit(k), RV(1 << k), RV(0)) for k in USE + CREATE + (TO_STDOUT,)])
    c.requires(toref(o.cmd) != NULL)
    val = lambda s, p: Select(Select(ex.rmap(s, INT), p.base), RV(0))
    given = [And(use[k], ptr[k].base != NULL, val(st, ptr[k]) != 0) for k in range(3)]
    i = z3.Int("i")
    # descriptors 0, 1, 2 are open and not handed out; what is handed out are the parent's ends, of children that exist
    c.requires(*[And(o.isopen(st, RV(k)), Implies(o.T0 != NULL, o.reg(st, RV(k)) == 0)) for k in range(3)])
    c.requires(forall([i], Implies(o.T0 != NULL, o.reg(st, i) >= 0), [o.reg(st, i)]))
    c.requires(forall([i], Implies(Or(i < 0, i >= o.N), Select(o.fd(st), i) == 0), [Select(o.fd(st), i)]))
    for k, p in enumerate(ptr):
        c.requires(Implies(p.base != NULL, And(ex.kind(st, p.base) > 0, ex.size(st, p.base) >= 4, p.base != o.en, p.base != o.T0)))
        c.requires(Implies(create[k], p.base != NULL))
        c.requires(Implies(given[k], And(val(st, p) >= 3, o.isopen(st, val(st, p)))))
        c.requires(*[Implies(p.base != NULL, p.base != q.base) for q in ptr[:k]])
        c.requires(*[Implies(And(given[k], given[j]), val(st, p) != val(st, ptr[j])) for j in range(k)])
    c.allow("internal", Or(other, *[And(use[k], create[k]) for k in range(3)]), frame=False, name="contradicting or unknown flags")
    c.allow("internal", And(dup, Or(use[2], create[2])), frame=False, name="standard error requested twice")
    c.requires(DEVNULL[0] != 0, DEVNULL[1] != 0)
    o.put(st, "forked", RV(-1))
    o.put(st, "execd", RV(0))
    o.put(st, "hard", RV(0))
    pipes = []

    def m_pipe(ex, s, vs, n):
        o.trust("pipe: two closed descriptors below the limit become its ends")
        f = s.copy()
        a, b, ra, wb = fresh(IntS, "rd"), fresh(IntS, "wr"), fresh(IntS, "pipe_r"), fresh(IntS, "pipe_w")
        s.assume(a != b, a >= 0, b >= 0, a < o.N, b < o.N, Not(o.isopen(s, a)), Not(o.isopen(s, b)), ra != 0, wb != 0)
        ex.store(s, ("raw", vs[0].base, vs[0].off), a, INT, n)
        ex.store(s, ("raw", vs[0].base, ex_add(vs[0].off, 1)), b, INT, n)
        o.setfd(s, Store(Store(o.fd(s), a, ra), b, wb))
        h = gget(ex, s, "pipe", PIPES)
        gset(s, "pipe", Store(h, vs[0].base, PIPE.mk(a, b, ra, wb)))
        o.fails(f)
        o.put(f, "hard", RV(1))
        return [(s, RV(0)), (f, RV(-1))]
    c.noframe.add(("G", "pipe"))
    gget(ex, st, "pipe", PIPES)

    def m_dup2(ex, s, vs, n):
        o.trust("dup2")
        a, b = vs
        t = o.fd(s)
        o.setfd(s, Store(t, b, If(Select(t, a) != 0, Select(t, a), Select(t, b))))
        o.clobber(s)
        return [(s, If(Select(t, a) != 0, b, RV(-1)))]

    def m_open(ex, s, vs, n):
        o.trust("open(\"/dev/null\") succeeds")
        lit = ex.ctab.get(vs[0].base.get_id())
        fl = z3.simplify(vs[1])
        if lit is None or bytes(x % 256 for x in lit[1]) != b"/dev/null\0" or not z3.is_int_value(fl) or fl.as_long() not in (0, 1):
            ex.unsup("open", n)
        a = fresh(IntS, "null")
        s.assume(a >= 0, a < o.N, Not(o.isopen(s, a)))
        o.setfd(s, Store(o.fd(s), a, DEVNULL[fl.as_long()]))
        o.clobber(s)
        return [(s, a)]

    def callback(ex, s, fv, vs, n):
        ex.oblige(s, "the callback runs in the child, before its program", And(fv.base == cb.base, cb.base != NULL, o.g(s, "forked") == 0, o.g(s, "execd") == 0), n, group="call")
        o.put(s, "called", o.g(s, "called") + 1)
        o.clobber(s)
        return [(s, None)]
    ex.indirect = callback
    c.noframe.add(("g", "@called"))
    o.put(st, "called", RV(0))
    x = z3.Int("x!sk")

    t0 = o.fd(st)
    reg0 = lambda s, j: If(o.T0 != NULL, o.reg(c.st0, j), RV(0))
    programs = []

    def execed(s, vs, n):
        if not ex.mute:
            programs.append((s.copy(), n))
        v = o.g(s, "argv", Ref)
        ex.oblige(s, "the child, and only the child, runs the program named first with all its arguments", And(
            o.g(s, "forked") == 0, vs[1].base == v, oint(vs[1].off) == 0, toref(vs[0]) == Select(Select(ex.rmap(s, PTR(VOID)), v), RV(0))), n, group="call")
        ex.oblige(s, "the callback has run if there is one", o.g(s, "called") == If(cb.base != NULL, RV(1), RV(0)), n)
        gv = Or(*[And(given[k], x == val(c.st0, ptr[k])) for k in range(3)])
        ex.oblige(s, "no other descriptor reaches the child but what the parent had, less what was given and what belongs to other children",
                  Implies(x >= 3, Select(o.fd(s), x) == If(Or(gv, reg0(s, x) > 0), RV(0), Select(t0, x))), n)

    def child_post(s, n, order):
        t = o.fd(s)
        want = []
        for k in range(3):
            inh = Select(t0, RV(k))
            w = If(create[k], end(s, k, "child", order), If(use[k], If(given[k], Select(t0, val(c.st0, ptr[k])), DEVNULL[min(k, 1)]), inh))
            if k == 2:
                w = If(dup, want[1], w)
            want.append(w)
            c.ensure(s, "the child's descriptor %d is what was asked for" % k, Select(t, RV(k)) == w)
    o.execed = execed
    c.noframe.add(("g", "@pipes"))
    o.put(st, "pipes", RV(0))
    for k in range(3):
        for e in ("a", "b", "ra", "wb"):
            c.noframe.add(("g", "@pipe_%s%d" % (e, k)))
            o.put(st, "pipe_%s%d" % (e, k), RV(0 if e in ("ra", "wb") else -1))

    def m_pipe2(ex, s, vs, n):
        """the pipes are numbered in the order in which they are created"""
        outs = m_pipe(ex, s, vs, n)
        s = outs[0][0]
        p = Select(gget(ex, s, "pipe", PIPES), vs[0].base)
        np = o.g(s, "pipes")
        ex.oblige(s, "a pipe is created only for a descriptor that asks for one", np < z3.Sum([If(x, RV(1), RV(0)) for x in create]), n)
        for j in range(3):
            for nm in ("a", "b", "ra", "wb"):
                o.put(s, "pipe_%s%d" % (nm, j), If(np == j, getattr(PIPE, nm)(p), o.g(s, "pipe_%s%d" % (nm, j))))
        o.put(s, "pipes", np + 1)
        return outs

    def end(s, k, f, order):
        """end f of the pipe made for standard descriptor k (c: child's, p: parent's; fd or object), the pipes being made in the given order of descriptors"""
        idx = z3.Sum([RV(0)] + [If(create[j], RV(1), RV(0)) for j in order[:order.index(k)]])
        nm = {"child": ("ra", "wb"), "pobj": ("wb", "ra"), "pfd": ("b", "a")}[f][0 if k == 0 else 1]
        v = [o.g(s, "pipe_%s%d" % (nm, j)) for j in range(3)]
        return If(idx == 0, v[0], If(idx == 1, v[1], v[2]))
    ex.models.update(pipe=m_pipe2, dup2=m_dup2, open=m_open)

    def hints(ex, entry, mod, nd, cond):
        out = []
        j = z3.Int("j")
        te = o.fd(entry)
        for k in mod.vars:
            v = entry.env.get(k)
            if isinstance(v, z3.ExprRef) and z3.is_int(v):
                out.append(Cand("descriptors of other children closed up to here, the others as they were", lambda st, k=k: forall([j], Select(o.fd(st), j) == If(
                    And(j >= 0, j < st.env[k], o.reg(st, j) > 0), RV(0), Select(te, j)), [Select(o.fd(st), j)])))
                for nm, low in (("from here", lambda st, j, k=k: j >= st.env[k]), ("above", lambda st, j, k=k: j > st.env[k])):
                    out.append(Cand("descriptors of other children closed %s, the others as they were" % nm, lambda st, k=k, low=low: forall([j], Select(o.fd(st), j) == If(
                        And(low(st, j), j < o.N, o.reg(st, j) > 0), RV(0), Select(te, j)), [Select(o.fd(st), j)])))
                out.append(Cand("up to the limit", lambda st, k=k: st.env[k] <= o.N))
                out.append(Cand("below the limit", lambda st, k=k: And(st.env[k] >= -1, st.env[k] < o.N)))
        out.append(Cand("the table of descriptors is not written", lambda st: Select(ex.rmap(st, INT), o.tab(entry)) == Select(ex.rmap(entry, INT), o.tab(entry))))
        for nm, t in o.cached:
            out.append(Cand("%s is not known or the limit" % nm, lambda st, nm=nm, t=t: Or(ex.gload(st, nm, t) == 0, ex.gload(st, nm, t) == o.N)))
        return out
    ex.loop_hints = hints
    c.run()
    # which of the pipes made is for which descriptor: the order in which they are made is the code's choice
    gets = lambda st, k, order: Implies(create[k], val(st, ptr[k]) == end(st, k, "pfd", order))
    order = (0, 1, 2)
    for od in ((0, 1, 2), (0, 2, 1), (1, 0, 2), (1, 2, 0), (2, 0, 1), (2, 1, 0)):
        if all(ex.prove(st.pc, And(*[gets(st, k, od) for k in range(3)]), 8000000) == "unsat" for st, r in c.returns):
            order = od
            break
    for s, n in programs:
        child_post(s, n, order)
    for st, r in c.returns:
        c.ensure(st, "only the parent returns, with the child", And(o.g(st, "forked") > 0, r == o.g(st, "forked")))
        c.ensure(st, "a pipe was created for every descriptor that asks for one", o.g(st, "pipes") == z3.Sum([If(y, RV(1), RV(0)) for y in create]))
        c.ensure(st, "the callback does not run in the parent", o.g(st, "called") == 0)
        t = o.fd(st)
        e, g = RV(0), reg0(st, x)
        e = Select(t0, x)
        for k in range(3):
            mine = And(create[k], x == end(st, k, "pfd", order))
            gone = And(given[k], x == val(c.st0, ptr[k]))
            e = If(mine, end(st, k, "pobj", order), If(gone, RV(0), e))
            g = If(mine, r, If(gone, RV(0), g))
            c.ensure(st, "the caller gets its end of pipe %d" % k, gets(st, k, order))
            c.ensure(st, "a descriptor given stays named", Implies(And(ptr[k].base != NULL, Not(create[k])), val(st, ptr[k]) == val(c.st0, ptr[k])))
        c.ensure(st, "the parent keeps its own ends and loses what it gave, nothing else changes", Select(t, x) == e)
        c.ensure(st, "the ends are handed out, what was given is not any more, nothing else changes", Implies(And(x >= 0, x < o.N), And(o.tab(st) != NULL, o.reg(st, x) == g)))
        c.ensure(st, "the argument list is released", ex.kind(st, o.g(st, "list", Ref)) == 0)
        c.frame(st, lambda b: Or(b == o.en, b == o.tab(c.st0), *[And(create[k], b == ptr[k].base) for k in range(3)]), globs=("_pr_objects", "max_fd.maxFd"))
    fat = [(k, s, l) for k, s, l in c.exits if k == "fatal"]
    c.exits = [x for x in c.exits if x[0] != "fatal"]
    for kind, s, loc in fat:
        c.ensure(s, "fatal report at %s only when a pipe or the child could not be created" % loc, Or(o.g(s, "hard") == 1, o.g(s, "forked") == -1))
    c.errors()


PIPE = z3.Datatype("Pipe")
PIPE.declare("mk", ("a", IntS), ("b", IntS), ("ra", IntS), ("wb", IntS))
PIPE = PIPE.create()
PIPES = z3.ArraySort(Ref, PIPE)


def ex_add(off, k):
    return off + k if isinstance(off, int) else oint(off) + k


@contract(TU, "pr_open", "C27")
def _open1(c):
    o = OS(c)
    ex = c.ex
    res = z3.Int("result")
    c.requires(ex.inrange(res, INT))

    def m_open2(ex, s, vs, n):
        ex.trusted.add("pr_open2 (proved in C27)")
        cmd, flags, a, b, e = c.args
        ex.oblige(s, "all of the request is passed on, without a callback", And(toref(vs[0]) == toref(cmd), toref(vs[1]) == NULL, vs[2] == flags, *[toref(x) == toref(y) for x, y in zip(vs[3:], (a, b, e))]), n, group="call")
        o.put(s, "execd", o.g(s, "execd") + 1)
        return [(s, res)]
    ex.models["pr_open2"] = m_open2
    o.put(c.st, "execd", RV(0))
    c.run()
    for st, r in c.returns:
        c.ensure(st, "one child is created", And(o.g(st, "execd") == 1, r == res))
        c.unchanged(st, "nothing else is modified")
    c.errors()


@contract(TU, "_pr_shutdown", "C28", weight=2)
def _shutdown(c):
    """ghost: which processes are children of this one that nobody waited for, which of them were told to end"""
    o = OS(c)
    ex, st = c.ex, c.st
    t = o.T0
    ghosts = ("alive", "killed")
    for k in ghosts:
        c.noframe.add(("G", k))
    alive, killed = (lambda s, k=k: gget(ex, s, k, BoolArr) for k in ghosts)
    a0 = alive(st)
    killed(st)
    regrow = Select(ex.rmap(st, INT), t)
    mine = z3.Function("pid_in_table", IntS, BoolS)
    i, p = z3.Ints("i p")
    r0 = lambda i: Select(regrow, i)
    # the table holds pids; every pid in it is a child this library started
    c.requires(Implies(t != NULL, forall([i], Implies(And(i >= 0, i < o.N), r0(i) >= 0), [r0(i)])))
    ex.axioms.append(forall([i], Implies(And(i >= 0, i < o.N), mine(r0(i))), [r0(i)]))
    c.requires(forall([p], Not(Select(killed(st), p)), [Select(killed(st), p)]))

    def put(s, k, idx, v):
        n = fresh(BoolArr, k)
        s.assume(n == Store(gget(ex, s, k, BoolArr), idx, v))
        gset(s, k, n)

    def ended(s, pid, n):
        ex.oblige(s, "a child that runs is told to end before it is waited for", Implies(Select(alive(s), pid), Select(killed(s), pid)), n, group="call")
        ex.oblige(s, "only children of the table are waited for", And(pid > 0, mine(pid)), n, group="call")

    def m_kill(ex, s, vs, n):
        o.trust("kill(SIGKILL) ends a child")
        ex.oblige(s, "no process is signalled but a child of the table that has not been waited for", And(vs[0] > 0, mine(vs[0]), Select(alive(s), vs[0])), n, group="call")
        ex.oblige(s, "a signal that ends it for certain", vs[1] == 9, n, group="call")
        put(s, "killed", vs[0], TRUE)
        o.set_errno(s)
        return [(s, RV(0))]

    def m_pr_wait(ex, s, vs, n):
        o.trust("pr_wait (proved in C24)")
        ended(s, vs[0], n)
        put(s, "alive", vs[0], FALSE)
        o.set_errno(s)
        return [(s, o.any(s, "status"))]

    def m_waitpid(ex, s, vs, n):
        o.trust("waitpid: with WNOHANG, 0 for a child that runs; -1 and ECHILD for what is no child")
        pid, q, opt = vs
        k = ex._isnum(z3.simplify(opt))
        if k not in (0, 1):
            ex.unsup("waitpid options", n)
        if k == 0:
            ended(s, pid, n)
        else:
            ex.oblige(s, "only children of the table are waited for", And(pid > 0, mine(pid)), n, group="call")
        out = []
        got, none = s.copy(), s.copy()
        if k == 1:
            s.assume(Select(alive(s), pid))
            out.append((s, RV(0)))
        got.assume(Select(alive(got), pid))
        put(got, "alive", pid, FALSE)
        if not toref(q).eq(NULL):
            ex.store(got, ("raw", q.base, q.off), o.any(got, "status"), INT, n)
        out.append((got, pid))
        e = o.fails(none)
        if k == 1:
            none.assume(Not(Select(alive(none), pid)), e == ECHILD)
        else:
            none.assume(If(e == ECHILD, Not(Select(alive(none), pid)), e == EINTR))
        out.append((none, RV(-1)))
        return out

    ex.models.update(kill=m_kill, pr_wait=m_pr_wait, waitpid=m_waitpid)

    def hints(ex, entry, mod, nd, cond):
        out = [Cand("no child appears", lambda s: forall([p], Implies(Select(alive(s), p), Select(a0, p)), [Select(alive(s), p)])),
               Cand("children of others are left alone", lambda s: forall([p], Implies(Not(mine(p)), Select(alive(s), p) == Select(a0, p)), [Select(alive(s), p)])),
               Cand("the table stays", lambda s: And(o.tab(s) == t, ex.kind(s, t) == ex.kind(entry, t)))]
        for nm, ty in getattr(o, "cached", []):
            out.append(Cand("the number of descriptors remembered is right", lambda s, nm=nm, ty=ty: Or(ex.gload(s, nm, ty) == 0, ex.gload(s, nm, ty) == o.N)))
        row = lambda s, j: Select(Select(ex.rmap(s, INT), t), j)
        for k in mod.vars:
            v = entry.env.get(k)
            if isinstance(v, P) and v.path is None:
                f = lambda s, k=k: oint(s.env[k].off)
                out.append(Cand("a pointer into the table", lambda s, k=k: s.env[k].base == t))
            elif isinstance(v, z3.ExprRef) and z3.is_int(v):
                f = lambda s, k=k: s.env[k]
            else:
                continue
            out.append(Cand("up to the limit", lambda s, f=f: And(f(s) >= 0, f(s) <= o.N)))
            out.append(Cand("from the limit", lambda s, f=f: And(f(s) >= -1, f(s) < o.N)))
            for nm, done in (("below", lambda s, j, f=f: j < f(s)), ("above", lambda s, j, f=f: j > f(s)), ("from", lambda s, j, f=f: j >= f(s))):
                out.append(Cand("children in the table %s here have ended" % nm, lambda s, done=done: forall([i], Implies(And(i >= 0, i < o.N, done(s, i), r0(i) != 0), Not(Select(alive(s), r0(i)))), [r0(i)])))
                out.append(Cand("entries not %s here are as they were" % nm, lambda s, done=done: forall([i], Implies(And(i >= 0, i < o.N, Not(done(s, i))), row(s, i) == r0(i)), [row(s, i)])))
                out.append(Cand("entries %s here are as they were or cleared" % nm, lambda s, done=done: forall([i], Implies(And(i >= 0, i < o.N, done(s, i)), Or(row(s, i) == 0, row(s, i) == r0(i))), [row(s, i)])))
        return out
    ex.loop_hints = hints
    c.run()
    x, y = z3.Ints("x!sk y!sk")
    for st, r in c.returns:
        c.ensure(st, "every child of the table has ended and was waited for", Implies(And(t != NULL, x >= 0, x < o.N, r0(x) != 0), Not(Select(alive(st), r0(x)))))
        c.ensure(st, "children of others are left alone", Implies(Or(t == NULL, Not(mine(y))), Select(alive(st), y) == Select(a0, y)))
        c.ensure(st, "the table is released", And(o.tab(st) == NULL, Implies(t != NULL, ex.kind(st, t) == 0)))
        c.frame(st, lambda b: Or(b == o.en, And(b == t, t != NULL)), globs=("_pr_objects", "max_fd.maxFd"))
    c.errors()

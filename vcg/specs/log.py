"""maa/log.c : every message reaches every open log once and completely.  Ghosts: texts of strings; the files open for the log and the names they were
opened under; the entry being written and how much of it is written; what was put on each stream; what was handed to the system log."""
from spec import *
from textmod import *
from absmod import MODELS
from core import ex_varname

TU = "log.c"
EINTR = 4
WRONLY, CREAT, APPEND = 1, 0o100, 0o2000
TRUNC, EXCL = 0o1000, 0o200
LOG_PID_NOWAIT = 0x01 | 0x10
LOG_ERR, LOG_INFO = 3, 6
DATED = z3.Function("dated_name", Str, IntS, Str)      # strftime
CTIME = z3.Function("ctime_text", IntS, Str)
StrArr = z3.ArraySort(Ref, Str)
FdName = z3.ArraySort(IntS, Str)
FdOpen = z3.ArraySort(IntS, BoolS)
HOSTNAME = z3.String("short_host_name")
FP = PTR(VOID)
FULL, MAIN, PRE = 8191, 4095, 319       # documented room for a line, a message, a preamble


class L:
    SC = ("wpos", "entry", "whard", "openfail", "sys_open", "sys_n", "sys_text", "sys_fac", "sys_ident", "sys_openfac", "hostset", "fails", "wn")

    def __init__(self, c):
        self.c, self.ex = c, c.ex
        ex, st = c.ex, c.st
        ex.models.update(MODELS)
        ex.models.update(VA)
        for k in [k for k in ex.models if k in c.tu.funcs]:
            del ex.models[k]            # functions of this unit are executed themselves
        for k in self.SC:
            c.noframe.add(("g", "@" + k))
        for k in ("txt", "fdopen", "fdname", "sout", "atend", "sopen", "flushed", "tm", "va"):
            c.noframe.add(("G", k))
        self.gg = lambda k, sort: (lambda s: gget(ex, s, k, sort))
        self.txts = self.gg("txt", StrArr)
        self.fdopen, self.fdname = self.gg("fdopen", FdOpen), self.gg("fdname", FdName)
        self.sout, self.atend, self.sopen, self.flushed = self.gg("sout", StrArr), self.gg("atend", z3.ArraySort(Ref, BoolS)), self.gg("sopen", z3.ArraySort(Ref, BoolS)), self.gg("flushed", z3.ArraySort(Ref, BoolS))
        self.tm = self.gg("tm", z3.ArraySort(Ref, IntS))
        for f in (self.txts, self.fdopen, self.fdname, self.sout, self.atend, self.sopen, self.flushed, self.tm):
            f(st)
        va(ex, st)
        for k in self.SC:
            self.g(st, k)
        ex.rmap(st, INT), ex.rmap(st, CHAR), ex.rmap(st, LONG)
        self.NOW = z3.Int("now")
        self.PID = z3.Int("pid")
        c.requires(ex.inrange(self.NOW, LONG), self.PID > 0, self.PID < (1 << 31))
        self.en = ex.gref("errno")
        c.requires(self.en != NULL, ex.kind(st, self.en) == STACKBLK, ex.size(st, self.en) == 4)
        self.errno = lambda s: Select(Select(ex.rmap(s, INT), self.en), RV(0))
        self.std = [toref(ex.gload(st, g, FP)) for g in ("stdout", "stderr")]
        c.requires(self.std[0] != NULL, self.std[1] != NULL, self.std[0] != self.std[1], *[Select(self.sopen(st), x) for x in self.std])
        gl = lambda nm, t: (lambda s: ex.gload(s, nm, t))
        self.fd, self.sys, self.inhibit, self.nopen, self.fac, self.len = (gl(x, INT) for x in ("logFd", "logSyslog", "inhibitFull", "logOpen", "logFacility", "logFilenameLen"))
        self.stream, self.ident, self.orig, self.name, self.tmp = ((lambda s, x=x: toref(ex.gload(s, x, FP))) for x in ("logUserStream", "logIdent", "logFilenameOrig", "logFilename", "logFilenameTmp"))
        for f in (self.fd, self.sys, self.inhibit, self.nopen, self.fac, self.len, self.stream, self.ident, self.orig, self.name, self.tmp):
            f(st)
        self.host = ex.gref("logHostname")
        # the buffers of the functions
        self.bufs = []
        for f in c.tu.funcs.values():
            self.statics(f["body"], f["name"])
        for g in c.tu.globals.values():
            if g["type"].k == "arr" and g["type"].to.k == "int":
                self.buf(g["name"], g["type"])
        allb = self.bufs + [self.en]
        c.requires(z3.Distinct(*allb))
        for b in self.bufs:
            c.requires(*[b != f(st) for f in (self.ident, self.orig, self.name, self.tmp)])
            c.requires(*[b != toref(a) for a in c.args if isinstance(a, P)])
        c.requires(*[self.en != f(st) for f in (self.ident, self.orig, self.name, self.tmp)])
        ex.on_raw = self.on_raw
        ex.strlen_fun = lambda ex, s, p: z3.Length(self.T(s, p))
        for k in dir(self):
            if k.startswith("m_"):
                ex.models[k[2:]] = getattr(self, k)
        self.put(st, "wpos", RV(0))
        self.put(st, "whard", RV(0))
        self.put(st, "openfail", RV(0))
        ex.loop_hints = self.hints
        ex.merge_heap = True

    def statics(self, n, fname):
        if n.get("kind") == "VarDecl" and n.get("storageClass") == "static":
            t = self.c.tu.ty(n)
            if t.k == "arr" and t.to.k == "int" and t.to.bits == 8:
                self.buf(fname + "." + n["name"], t)
        for x in n.get("inner", []):
            self.statics(x, fname)

    def buf(self, name, t):
        ex, st = self.ex, self.c.st
        r = ex.gref(name)
        self.bufs.append(r)
        self.c.requires(r != NULL, ex.kind(st, r) == STACKBLK, ex.size(st, r) == self.c.tu.sizeof(t))

    # ghosts
    def g(self, s, k):
        return self.ex.hmap(s, ("g", "@" + k), lambda: Str if k in ("entry", "sys_text", "sys_ident") else IntS)

    def put(self, s, k, v):
        s.heap[("g", "@" + k)] = v

    def T(self, s, p):
        """text at p"""
        if p.path is None and not off_is0(p.off) and self.ex.ctab.get(p.base.get_id()) is None:
            o = z3.simplify(oint(p.off))
            if not (z3.is_int_value(o) and o.as_long() == 0):
                b = txt(self.ex, s, P(p.base))
                return z3.SubString(b, o, z3.Length(b) - o)
            p = P(p.base)
        return txt(self.ex, s, p)

    def setT(self, s, p, t, n, size=None):
        """the characters at p become the text t"""
        ex = self.ex
        o = z3.simplify(oint(p.off))
        ex.oblige(s, "the text and its terminator fit in a live block", And(p.base != NULL, ex.kind(s, p.base) > 0, BoolVal(p.path is None), o >= 0, o + z3.Length(t) < ex.size(s, p.base)), n, group="mem")
        if not (z3.is_int_value(o) and o.as_long() == 0):
            old = txt(ex, s, P(p.base))
            ex.oblige(s, "text behind text", o <= z3.Length(old), n, group="mem")
            t = z3.Concat(z3.SubString(old, 0, o), t)
        set_txt(ex, s, P(p.base), t)
        h = ex.rmap(s, CHAR)
        s.heap[("r", "i8")] = Store(h, p.base, fresh(h.range(), "chars"))

    def on_raw(self, ex, s, r, i, w, t):
        if t.k != "int" or t.bits != 8:
            return
        w, i = z3.simplify(w), z3.simplify(i)
        old = txt(ex, s, P(r))
        if z3.is_int_value(w) and w.as_long() == 0:
            new = SV("") if z3.is_int_value(i) and i.as_long() == 0 else z3.SubString(old, 0, i)
        else:
            new = z3.FreshConst(Str, "text")
        set_txt(ex, s, P(r), new)

    def trust(self, x):
        self.ex.trusted.add(x)

    def any(self, s, nm="r", t=INT):
        v = fresh(IntS, nm)
        s.assume(self.ex.inrange(v, t))
        return v

    def set_errno(self, s, v=None):
        if v is None:
            v = self.any(s, "errno")
        h = self.ex.rmap(s, INT)
        s.heap[self.ex.rawkey(INT)] = Store(h, self.en, Store(Select(h, self.en), RV(0), v))
        return v

    def m___errno_location(self, ex, s, vs, n):
        return [(s, P(self.en))]

    # ---- formatted text
    def m_snprintf(self, ex, s, vs, n):
        self.trust("snprintf")
        return self.sn(s, vs[0], vs[1], fmt(ex, s, vs[2], vs[3:], n), n)

    def m_vsnprintf(self, ex, s, vs, n):
        self.trust("vsnprintf: the caller's format and arguments make one text")
        return self.sn(s, vs[0], vs[1], FMT(toref(vs[2]), use_va(ex, s, vs[3], n)), n)

    def sn(self, s, p, k, t, n):
        ex = self.ex
        if ex.quick_unsat(s, k <= 0):
            ex.oblige(s, "the size given is that of the buffer or less", And(ex.kind(s, p.base) > 0, oint(p.off) >= 0, oint(p.off) + k <= ex.size(s, p.base)), n, group="mem")
        else:
            ex.unsup("snprintf with size 0", n)
        if ex.prove(s.pc, z3.Length(t) < k) != "unsat":
            t = If(z3.Length(t) < k, t, z3.SubString(t, 0, k - 1))
        self.setT(s, p, t, n)
        return [(s, self.any(s, "printed"))]

    def m_strcpy(self, ex, s, vs, n):
        self.trust("strcpy")
        self.setT(s, vs[0], self.T(s, vs[1]), n)
        return [(s, vs[0])]

    def m_strcmp(self, ex, s, vs, n):
        self.trust("strcmp")
        a, b = (self.T(s, v) for v in vs)
        for v in vs:
            ex.oblige(s, "strcmp of strings", v.base != NULL, n, group="mem")
        f = s.copy()
        s.assume(a == b)
        f.assume(a != b)
        r = self.any(f, "strcmp")
        f.assume(r != 0)
        return [(s, RV(0)), (f, r)]

    # ---- time, process, names
    def m_time(self, ex, s, vs, n):
        self.trust("time: one reading per call of a log function")
        p = vs[0]
        if not ex.quick_unsat(s, p.base != NULL):
            ex.store(s, ("raw", p.base, p.off), self.NOW, LONG, n)
        return [(s, self.NOW)]

    def tval(self, s, p, n):
        return self.ex.load(s, ("raw", p.base, p.off), LONG, n)

    def m_localtime(self, ex, s, vs, n):
        self.trust("localtime, strftime, ctime")
        p = P(fresh(Ref, "tm"))
        s.assume(p.base != NULL, *[p.base != b for b in self.bufs + [self.en]])
        gset(s, "tm", Store(self.tm(s), p.base, self.tval(s, vs[0], n)))
        return [(s, p)]

    def m_strftime(self, ex, s, vs, n):
        p, k, f, tm = vs
        t = DATED(self.T(s, f), Select(self.tm(s), tm.base))
        ex.oblige(s, "strftime stays inside the buffer", And(ex.kind(s, p.base) > 0, oint(p.off) >= 0, oint(p.off) + k <= ex.size(s, p.base), k > 0), n, group="mem")
        s.assume(z3.Length(t) < k)      # assumption: the dated name fits in three times its format and 1024 bytes
        self.setT(s, p, t, n)
        return [(s, z3.Length(t))]

    def m_ctime(self, ex, s, vs, n):
        p = P(fresh(Ref, "ct"))
        s.assume(p.base != NULL, *[p.base != f(s) for f in (self.ident, self.orig, self.name, self.tmp)], *[p.base != b for b in self.bufs], *[p.base != toref(a) for a in self.c.args if isinstance(a, P)])
        set_txt(ex, s, p, CTIME(self.tval(s, vs[0], n)))
        return [(s, p)]

    def m_getpid(self, ex, s, vs, n):
        self.trust("getpid")
        return [(s, self.PID)]

    def m_str_find(self, ex, s, vs, n):
        self.trust("str_find (proved under C11)")
        ex.oblige(s, "str_find of a string", vs[0].base != NULL, n, group="pre")
        p = P(fresh(Ref, "pooled"))
        s.assume(p.base != NULL, *[p.base != b for b in self.bufs + [self.en]])
        s.assume(p.base != self.name(s), p.base != self.tmp(s))
        s.assume(ex.kind(s, p.base) == UNTYPED)
        s.assume(Select(self.txts(s), p.base) == self.T(s, vs[0]))
        return [(s, p)]

    def c_hostname(self, ex, s, vs, n):
        """contract of _log_set_hostname"""
        self.trust("_log_set_hostname (proved under C26)")
        old = txt(ex, s, P(self.host))
        set_txt(ex, s, P(self.host), If(self.g(s, "hostset") == 0, HOSTNAME, old))
        self.put(s, "hostset", RV(1))
        return [(s, None)]

    def c_mkpath(self, ex, s, vs, n):
        """contract of log_mkpath"""
        self.trust("log_mkpath (proved under C26)")
        ex.oblige(s, "log_mkpath is given a string", vs[0].base != NULL, n, group="pre")
        self.set_errno(s)
        return [(s, None)]

    # ---- files
    def m_open(self, ex, s, vs, n):
        self.trust("open, close, write")
        fl = vs[1]
        bit = lambda b: (fl / RV(b)) % 2 == 1
        ex.oblige(s, "opened for appending, created if missing, never truncated", And(fl % 4 == WRONLY, bit(CREAT), bit(APPEND), Not(bit(TRUNC)), Not(bit(EXCL))), n)
        f = s.copy()
        r = self.any(s, "fd")
        s.assume(r >= 0, Not(Select(self.fdopen(s), r)))
        gset(s, "fdopen", Store(self.fdopen(s), r, TRUE))
        gset(s, "fdname", Store(self.fdname(s), r, self.T(s, vs[0])))
        self.put(f, "openfail", RV(1))
        f.assume(self.set_errno(f) > 0)
        return [(s, r), (f, RV(-1))]

    def m_close(self, ex, s, vs, n):
        ex.oblige(s, "close of an open descriptor of the log", Select(self.fdopen(s), vs[0]), n)
        gset(s, "fdopen", Store(self.fdopen(s), vs[0], FALSE))
        self.set_errno(s)
        return [(s, self.any(s, "closed"))]

    def m_write(self, ex, s, vs, n):
        fd, p, k = vs
        t, o = txt(ex, s, P(p.base)), oint(p.off)
        w, e = self.g(s, "wpos"), self.g(s, "entry")
        ex.oblige(s, "written to the open file of today's name", And(Select(self.fdopen(s), fd), Select(self.fdname(s), fd) == DATED(txt(ex, s, P(self.orig(s))), self.NOW), fd == self.fd(s)), n)
        ex.oblige(s, "the next bytes of the entry, nothing else", And(o == w, k >= 1, o + k <= z3.Length(t), Or(w == 0, t == e)), n)
        ex.oblige(s, "the bytes written are in a live block", And(p.base != NULL, ex.kind(s, p.base) > 0, o >= 0, o + k <= ex.size(s, p.base)), n, group="mem")
        f = s.copy()
        en = self.set_errno(f)
        f.assume(en > 0)
        self.put(f, "whard", If(en == EINTR, self.g(f, "whard"), RV(1)))
        z = s.copy()
        self.put(z, "whard", RV(1))     # nothing accepted
        self.set_errno(z)
        v = self.any(s, "written", LONG)
        s.assume(v >= 1, v <= k)
        self.put(s, "wpos", w + v)
        self.put(s, "entry", t)
        self.set_errno(s)
        return [(s, v), (f, RV(-1)), (z, RV(0))]

    # ---- streams
    def onstream(self, s, p, n):
        r = toref(p)
        self.ex.oblige(s, "an open stream", And(r != NULL, Select(self.sopen(s), r)), n)
        return r

    def m_fseek(self, ex, s, vs, n):
        self.trust("stdio: output appends exactly the text at the stream's position")
        r = self.onstream(s, vs[0], n)
        gset(s, "atend", Store(self.atend(s), r, And(vs[1] == 0, vs[2] == 2)))
        self.set_errno(s)
        return [(s, self.any(s, "fseek"))]

    def sput(self, s, stream, t, n):
        r = self.onstream(s, stream, n)
        self.ex.oblige(s, "appended at the end of the stream", Or(r == self.std[0], r == self.std[1], Select(self.atend(s), r)), n)
        gset(s, "sout", Store(self.sout(s), r, z3.Concat(Select(self.sout(s), r), t)))
        gset(s, "flushed", Store(self.flushed(s), r, FALSE))
        self.set_errno(s)
        return [(s, self.any(s, "printed"))]

    def m_fprintf(self, ex, s, vs, n):
        return self.sput(s, vs[0], fmt(ex, s, vs[1], vs[2:], n), n)

    def m_fputs(self, ex, s, vs, n):
        return self.sput(s, vs[1], self.T(s, vs[0]), n)

    def m_fflush(self, ex, s, vs, n):
        r = self.onstream(s, vs[0], n)
        gset(s, "flushed", Store(self.flushed(s), r, TRUE))
        self.set_errno(s)
        return [(s, self.any(s, "fflush"))]

    def m_fclose(self, ex, s, vs, n):
        r = self.onstream(s, vs[0], n)
        ex.oblige(s, "the standard streams stay open", And(r != self.std[0], r != self.std[1]), n)
        gset(s, "sopen", Store(self.sopen(s), r, FALSE))
        self.set_errno(s)
        return [(s, self.any(s, "fclose"))]

    # ---- system log
    def m_openlog(self, ex, s, vs, n):
        self.trust("openlog, closelog, vsyslog")
        ex.oblige(s, "opened once", self.g(s, "sys_open") == 0, n)
        ex.oblige(s, "under the name and facility asked for, with the process number", And(vs[0].base == self.c.args[0].base, (vs[1] % 2) == 1, vs[2] == self.fac(s)), n)
        self.put(s, "sys_open", RV(1))
        return [(s, None)]

    def m_closelog(self, ex, s, vs, n):
        ex.oblige(s, "closed once", self.g(s, "sys_open") == 1, n)
        self.put(s, "sys_open", RV(0))
        return [(s, None)]

    def m_vsyslog(self, ex, s, vs, n):
        ex.oblige(s, "the system log is open", self.g(s, "sys_open") == 1, n)
        self.put(s, "sys_n", self.g(s, "sys_n") + 1)
        self.put(s, "sys_fac", vs[0])
        self.put(s, "sys_text", FMT(toref(vs[1]), use_va(ex, s, vs[2], n)))
        self.set_errno(s)
        return [(s, None)]

    # ---- the state of the log
    def file_ok(self, s, opened=True):
        ex = self.ex
        nm, tp, ln = self.name(s), self.tmp(s), self.len(s)
        blk = lambda r: And(r != NULL, Or(ex.kind(s, r) == UNTYPED, ex.kind(s, r) == RAW), *[r != b for b in self.bufs + [self.en]])
        f = [ln > 0, ln < (1 << 30) + 2048, blk(nm), blk(tp), nm != tp, ex.size(s, nm) == ln + 1, ex.size(s, tp) == ln + 1, self.orig(s) != NULL, self.orig(s) != nm, self.orig(s) != tp, self.ident(s) != NULL, self.ident(s) != nm, self.ident(s) != tp]
        if opened:
            f += [Select(self.fdopen(s), self.fd(s)), Select(self.fdname(s), self.fd(s)) == txt(ex, s, P(nm))]
        return And(*f)

    def inv(self, s):
        fd, st = self.fd(s), self.stream(s)
        one = lambda b: If(b, RV(1), RV(0))
        return [("host name set or not", Or(self.g(s, "hostset") == 0, self.g(s, "hostset") == 1)), ("the count of open logs", And(fd >= -1, Or(self.sys(s) == 0, self.sys(s) == 1), self.nopen(s) == one(fd >= 0) + one(st != NULL) + self.sys(s))),
                ("the open file has the name recorded", Implies(fd >= 0, self.file_ok(s))),
                ("no file: no name recorded", Implies(fd < 0, And(self.name(s) == NULL, self.tmp(s) == NULL, self.len(s) == 0))),
                ("the stream is open", Implies(st != NULL, And(Select(self.sopen(s), st), self.ident(s) != NULL))),
                ("the host name is known", And(Implies(Or(fd >= 0, st != NULL), self.g(s, "hostset") == 1), Implies(self.g(s, "hostset") == 1, txt(self.ex, s, P(self.host)) == HOSTNAME))),
                ("the system log is open exactly when the library thinks so", self.g(s, "sys_open") == self.sys(s))]

    def assume_inv(self, s):
        for nm, f in self.inv(s):
            self.c.requires(f)

    def ensure_inv(self, s):
        for nm, f in self.inv(s):
            self.c.ensure(s, "invariant: " + nm, f)

    def mine(self, s0):
        ex = self.ex
        return lambda o: Or(o == self.en, *[o == b for b in self.bufs], o == self.name(s0), o == self.tmp(s0))

    GL = ("logFd", "logUserStream", "logSyslog", "logOpen", "logIdent", "logFilenameOrig", "logFilename", "logFilenameTmp", "logFilenameLen")

    def exits(self):
        c = self.c
        for kind, s, loc in c.exits:
            al = [cond for k, cond, _, _ in c.allowed if k == kind]
            c.ensure(s, "%s report at %s only for its documented reason" % (kind, loc), Or(*al, And(BoolVal(kind == "fatal"), self.g(s, "openfail") == 1)))
        for s, v in c.returns:
            c.ensure(s, "a log file that cannot be opened ends in the fatal report", self.g(s, "openfail") == 0)
            for k, cond, fr, nm in c.allowed:
                c.ensure(s, "refused: " + nm, Not(cond))

    def hints(self, ex, entry, mod, nd, cond):
        out = []
        w0 = self.g(entry, "wpos")
        for k in mod.vars:
            v = entry.env.get(k)
            if isinstance(v, P):
                f, e = (lambda s, k=k: oint(s.env[k].off)), oint(v.off)
            elif isinstance(v, z3.ExprRef) and z3.is_int(v):
                f, e = (lambda s, k=k: s.env[k]), v
            else:
                continue
            out.append(Cand("%s moves with what was written" % ex_varname(ex, k), lambda s, f=f, e=e: f(s) - e == self.g(s, "wpos") - w0))
            out.append(Cand("%s shrinks by what was written" % ex_varname(ex, k), lambda s, f=f, e=e: e - f(s) == self.g(s, "wpos") - w0))
            out.append(Cand("%s not negative" % ex_varname(ex, k), lambda s, f=f: f(s) >= 0))
        out.append(Cand("position in the entry", lambda s: self.g(s, "wpos") >= 0))
        out.append(Cand("no error so far", lambda s: self.g(s, "whard") == 0))
        for k, v in entry.env.items():
            b = v.base if isinstance(v, P) and v.path is None else v[1] if isinstance(v, tuple) and v[0] == "mem" else None
            if b is not None and z3.is_expr(b) and ex.ctab.get(b.get_id()) is None:
                out.append(Cand("the entry is the text of %s" % ex_varname(ex, k), lambda s, b=b: Or(self.g(s, "wpos") == 0, self.g(s, "entry") == txt(ex, s, P(b)))))
        for b in self.bufs:
            out.append(Cand("the entry is the text of the buffer", lambda s, b=b: Or(self.g(s, "wpos") == 0, self.g(s, "entry") == txt(ex, s, P(b)))))
        return out


def message(routine, facility, variadic):
    """the four ways to log, and their common core"""
    def spec(c):
        o = L(c)
        ex, st = c.ex, c.st
        names = dict((p.get("name", "?"), a) for p, a in zip(c.fn["params"], c.args))
        fmtp = c.args[dict(zip([p.get("name") for p in c.fn["params"]], range(9)))["format"]] if "format" in names else [a for a in c.args if isinstance(a, P)][-2 if not variadic else -1]
        rt = c.args[0] if routine else P(NULL)
        fac = c.args[1] if facility is None else RV(facility)
        ap = None if variadic else c.args[-1]
        if ap is not None:
            c.requires(Select(va(ex, st), ap.base) == 1, ap.base != NULL, ex.kind(st, ap.base) == STACKBLK)
        c.requires(fmtp.base != NULL)
        ex.models["_log_set_hostname"], ex.models["log_mkpath"] = o.c_hostname, o.c_mkpath
        o.assume_inv(st)
        msg = FMT(toref(fmtp), ARGS)
        T = lambda r: txt(ex, st, P(r))
        ct = z3.SubString(CTIME(o.NOW), 0, 24)
        pre = cat([If(z3.Length(ct) >= 24, ct, PAD(ct, RV(24))), SV(" "), z3.SubString(HOSTNAME, 0, 64), SV(" "), T(o.ident(st)), SV("["), NUM(o.PID, RV(ord("d"))), SV("]: ")])
        PREV = z3.String("preamble")
        c.requires(PREV == If(o.inhibit(st) != 0, SV(""), pre), z3.Length(pre) <= PRE)
        line = z3.String("line")
        c.requires(line == z3.Concat(PREV, If(rt.base != NULL, z3.Concat(SV("("), T(rt.base), SV(") "), msg, SV("\n")), z3.Concat(msg, SV("\n")))))
        c.requires(z3.Length(line) <= FULL, z3.Length(msg) <= MAIN)
        gl = {k: f(st) for k, f in dict(fd=o.fd, stream=o.stream, sys=o.sys, n=o.nopen).items()}
        so0 = o.sout(st)
        n0 = o.g(st, "sys_n")
        c.run()
        x = z3.Const("x!sk", Ref)
        for s, r in c.returns:
            open_ = gl["fd"] >= 0
            c.ensure(s, "the whole line is in the file, once, unless writing failed", Implies(open_, Or(o.g(s, "whard") == 1, And(o.g(s, "wpos") == z3.Length(line), o.g(s, "entry") == line))))
            c.ensure(s, "nothing is written without an open file", Implies(Not(open_), And(o.g(s, "wpos") == 0, o.g(s, "whard") == 0)))
            std = Or(x == o.std[0], x == o.std[1])
            on = And(x == gl["stream"], x != NULL)
            c.ensure(s, "the message is on the stream, once: bare on a standard stream", Implies(And(on, std), Select(o.sout(s), x) == z3.Concat(Select(so0, x), msg)))
            c.ensure(s, "the line is on the stream, once", Implies(And(on, Not(std)), Select(o.sout(s), x) == z3.Concat(Select(so0, x), line)))
            c.ensure(s, "the stream is flushed", Implies(on, Select(o.flushed(s), x)))
            c.ensure(s, "nothing on other streams", Implies(Not(on), Select(o.sout(s), x) == Select(so0, x)))
            c.ensure(s, "the message is in the system log, once, with its level", If(gl["sys"] == 1, And(o.g(s, "sys_n") == n0 + 1, o.g(s, "sys_text") == msg, o.g(s, "sys_fac") == fac), o.g(s, "sys_n") == n0))
            c.ensure(s, "everything that was open stays open", And((o.fd(s) >= 0) == open_, o.stream(s) == gl["stream"], o.sys(s) == gl["sys"], o.nopen(s) == gl["n"]))
            c.ensure(s, "after a change of name the old file is closed", Implies(And(open_, o.fd(s) != gl["fd"]), Not(Select(o.fdopen(s), gl["fd"]))))
            o.ensure_inv(s)
            c.frame(s, o.mine(c.st0), globs=("logFd",))
        o.exits()
    return spec


contract(TU, "_log_base_va", "C26", weight=4)(message(True, None, False))
contract(TU, "log_error_va", "C26", weight=4)(message(True, LOG_ERR, False))
contract(TU, "log_error", "C26", weight=4)(message(True, LOG_ERR, True))
contract(TU, "log_info_va", "C26", weight=4)(message(False, LOG_INFO, False))
contract(TU, "log_info", "C26", weight=4)(message(False, LOG_INFO, True))


@contract(TU, "log_option", "C26")
def _option(c):
    o = L(c)
    c.run()
    for s, r in c.returns:
        c.ensure(s, "the preamble is left out exactly on request", (o.inhibit(s) != 0) == (c.args[0] == 2))
        c.frame(s, lambda x: FALSE, globs=("inhibitFull",))
    c.errors()


@contract(TU, "log_syslog", "C26")
def _syslog(c):
    o = L(c)
    st = c.st
    o.assume_inv(st)
    on = o.sys(st)
    idn = c.args[0].base
    c.allow("internal", And(idn != NULL, on != 0), name="system log already open")
    c.run()
    for s, r in c.returns:
        c.ensure(s, "open after opening, closed after closing", o.sys(s) == If(idn != NULL, RV(1), RV(0)))
        o.ensure_inv(s)
        c.frame(s, lambda x: x == o.en, globs=("logSyslog", "logOpen"))
    o.exits()


@contract(TU, "_log_check_filename", "C26")
def _check(c):
    o = L(c)
    ex, st = c.ex, c.st
    ex.models["log_mkpath"] = o.c_mkpath
    nothing = Or(o.name(st) == NULL, o.tmp(st) == NULL, o.len(st) == 0)
    c.requires(Implies(Not(nothing), o.file_ok(st, False)), Implies(And(Not(nothing), o.fd(st) >= 0), o.file_ok(st)), Implies(And(Not(nothing), o.fd(st) < 0), txt(ex, st, P(o.name(st))) == SV("")), o.fd(st) >= -1)
    want = DATED(txt(ex, st, P(o.orig(st))), o.NOW)
    c.requires(want != SV(""))      # a file needs a name
    fd0, old = o.fd(st), txt(ex, st, P(o.name(st)))
    c.run()
    for s, r in c.returns:
        c.ensure(s, "the file of today's name is open", Implies(Not(nothing), And(o.fd(s) >= 0, Select(o.fdopen(s), o.fd(s)), Select(o.fdname(s), o.fd(s)) == want, txt(ex, s, P(o.name(s))) == want)))
        c.ensure(s, "an unchanged name keeps the file", Implies(And(Not(nothing), fd0 >= 0, old == want), And(o.fd(s) == fd0, Select(o.fdopen(s), fd0))))
        c.ensure(s, "the file of the old name is closed", Implies(And(Not(nothing), fd0 >= 0, old != want), Or(o.fd(s) == fd0, Not(Select(o.fdopen(s), fd0)))))
        c.ensure(s, "without a file nothing happens", Implies(nothing, And(o.fd(s) == fd0, o.fdopen(s) == o.fdopen(c.st0))))
        c.frame(s, o.mine(c.st0), globs=("logFd",))
    o.exits()


@contract(TU, "log_file", "C26", weight=2)
def _file(c):
    o = L(c)
    ex, st = c.ex, c.st
    ex.models["_log_set_hostname"], ex.models["log_mkpath"] = o.c_hostname, o.c_mkpath
    idn, fn = c.args
    o.assume_inv(st)
    c.requires(idn.base != o.name(st), idn.base != o.tmp(st), fn.base != o.name(st), fn.base != o.tmp(st))
    c.requires(*[Implies(a.base != NULL, ex.kind(st, a.base) > 0) for a in (idn, fn)])
    ft, it = txt(ex, st, fn), txt(ex, st, idn)
    c.requires(z3.Length(ft) < (1 << 28))
    want = DATED(ft, o.NOW)
    c.requires(want != SV(""))
    opening = And(idn.base != NULL, fn.base != NULL)
    fd0 = o.fd(st)
    c.allow("internal", And(opening, fd0 >= 0), name="a log file is open already")
    c.run()
    for s, r in c.returns:
        c.ensure(s, "the file of today's name is open for the log", Implies(opening, And(o.fd(s) >= 0, Select(o.fdname(s), o.fd(s)) == want, txt(ex, s, P(o.orig(s))) == ft, txt(ex, s, P(o.ident(s))) == it)))
        c.ensure(s, "closed: no log file, the descriptor is closed", Implies(Not(opening), And(o.fd(s) == -1, Implies(fd0 >= 0, Not(Select(o.fdopen(s), fd0))))))
        c.ensure(s, "closed: the names are released", Implies(And(Not(opening), fd0 >= 0), And(ex.kind(s, o.name(c.st0)) == 0, ex.kind(s, o.tmp(c.st0)) == 0)))
        c.ensure(s, "other logs are untouched", And(o.stream(s) == o.stream(c.st0), o.sys(s) == o.sys(c.st0)))
        o.ensure_inv(s)
        c.frame(s, o.mine(c.st0), globs=o.GL)
    o.exits()


@contract(TU, "log_stream", "C26")
def _stream(c):
    o = L(c)
    ex, st = c.ex, c.st
    ex.models["_log_set_hostname"] = o.c_hostname
    idn, fp = c.args
    o.assume_inv(st)
    c.requires(Implies(fp.base != NULL, Select(o.sopen(st), toref(fp))))
    c.requires(idn.base != o.name(st), idn.base != o.tmp(st))
    it = txt(ex, st, idn)
    opening = And(idn.base != NULL, fp.base != NULL)
    s0 = o.stream(st)
    c.allow("internal", And(opening, s0 != NULL), name="a stream is open already")
    c.run()
    for s, r in c.returns:
        c.ensure(s, "the stream is the log", Implies(opening, And(o.stream(s) == toref(fp), txt(ex, s, P(o.ident(s))) == it)))
        c.ensure(s, "closed: no stream, closed unless a standard one", Implies(Not(opening), And(o.stream(s) == NULL, Implies(And(s0 != NULL, s0 != o.std[0], s0 != o.std[1]), Not(Select(o.sopen(s), s0))))))
        c.ensure(s, "other logs are untouched", And(o.fd(s) == o.fd(c.st0), o.sys(s) == o.sys(c.st0)))
        o.ensure_inv(s)
        c.frame(s, o.mine(c.st0), globs=o.GL)
    o.exits()


@contract(TU, "log_close", "C26")
def _close(c):
    o = L(c)
    ex, st = c.ex, c.st
    ex.models["_log_set_hostname"], ex.models["log_mkpath"] = o.c_hostname, o.c_mkpath
    o.assume_inv(st)
    fd0, s0 = o.fd(st), o.stream(st)
    c.run()
    for s, r in c.returns:
        c.ensure(s, "nothing is open", And(o.nopen(s) == 0, o.fd(s) == -1, o.stream(s) == NULL, o.sys(s) == 0))
        c.ensure(s, "everything was closed", And(Implies(fd0 >= 0, Not(Select(o.fdopen(s), fd0))), Implies(And(s0 != NULL, s0 != o.std[0], s0 != o.std[1]), Not(Select(o.sopen(s), s0))), o.g(s, "sys_open") == 0))
        o.ensure_inv(s)
        c.frame(s, o.mine(c.st0), globs=o.GL)
    o.exits()


# ---------------------------------------------------------------- functions on characters
def strings(c, p, name):
    """p is a string of some length"""
    ex, st = c.ex, c.st
    n = z3.Int(name)
    ex.rmap(st, CHAR)
    c.requires(n >= 0, n < (1 << 29), p.base != NULL, ex.kind(st, p.base) > 0, ex.size(st, p.base) > n, ch(ex, st, p, n) == 0, nz_below(ex, st, p, n))
    return n


@contract(TU, "log_mkpath", "C26")
def _mkpath(c):
    ex, st = c.ex, c.st
    ex.models.update(MODELS)
    p = c.args[0]
    N = strings(c, p, "path_length")
    made = lambda s: gget(ex, s, "made", z3.ArraySort(IntS, BoolS))
    made(st)
    c.noframe.add(("G", "made"))
    i, x = z3.Int("i"), z3.Int("x!sk")
    name = lambda k: ch(ex, c.st0, p, k)
    gset(st, "made", z3.K(IntS, FALSE))
    dup = []
    ex.strlen_fun = lambda ex, s, q: N if q.base.eq(p.base) and off_is0(q.off) else None

    def m_xstrdup(ex, s, vs, n):
        from absmod import m_xstrdup as d
        [(s, r)] = d(ex, s, vs, n)
        dup.append(r.base)
        return [(s, r)]

    def m_mkdir(ex, s, vs, n):
        ex.trusted.add("mkdir")
        q = vs[0]
        ex.oblige(s, "the working copy is used", And(BoolVal(any(q.base.eq(d) for d in dup)), oint(q.off) == 0), n)
        k = fresh(IntS, "cut")
        cs = Select(ex.rmap(s, CHAR), q.base)
        # the text ends at some position: it is a proper prefix of the path that is followed by a slash
        s.assume(k >= 0, k <= N, Select(cs, k) == 0, forall([i], Implies(And(i >= 0, i < k), Select(cs, i) != 0), [Select(cs, i)]))
        ex.oblige(s, "a directory on the way to the file, by its whole name", And(k > 0, k < N, name(k) == 47, Implies(And(x >= 0, x < k), Select(cs, x) == name(x))), n)
        ex.oblige(s, "directories are made from the outside in", Implies(And(x > 0, x < k, name(x) == 47), Select(made(s), x)), n)
        ex.oblige(s, "usable by the owner", (vs[1] / RV(64)) % 8 == 7, n)
        m1 = fresh(z3.ArraySort(IntS, BoolS), "made")
        s.assume(m1 == Store(made(s), k, TRUE))
        gset(s, "made", m1)
        r = fresh(IntS, "mkdir")
        s.assume(r >= -1, r <= 0)
        return [(s, r)]
    ex.models.update(xstrdup=m_xstrdup, mkdir=m_mkdir)

    def hints(ex, entry, mod, nd, cond):
        out = []
        for d in dup:
            D = lambda s, d=d: Select(ex.rmap(s, CHAR), d)
            out.append(Cand("the copy is the path", lambda s, D=D: forall([i], Implies(And(i >= 0, i <= N), Select(D(s), i) == name(i)), [Select(D(s), i)])))
            for k, v in entry.env.items():
                if isinstance(v, P) and v.base.eq(d) and v.path is None:
                    o = lambda s, k=k: oint(s.env[k].off)
                elif isinstance(v, z3.ExprRef) and z3.is_int(v):
                    o = lambda s, k=k: s.env[k]
                else:
                    continue
                out.append(Cand("inside the path", lambda s, o=o: And(o(s) >= 0, o(s) <= N)))
                for d2 in (0, 1):
                    out.append(Cand("every directory so far is made", lambda s, o=o, d2=d2: forall([i], Implies(And(i > 0, i < o(s) + d2, name(i) == 47), Select(made(s), i)), [Select(made(s), i), name(i)])))
        return out
    ex.loop_hints = hints
    c.run()
    for s, r in c.returns:
        c.ensure(s, "every directory on the way to the file was made", Implies(And(x > 0, x < N, name(x) == 47), Select(made(s), x)))
        for d in dup:
            c.ensure(s, "the working copy is released", ex.kind(s, d) == 0)
        c.frame(s, lambda o: FALSE)
    c.errors()


@contract(TU, "_log_set_hostname", "C26")
def _hostname(c):
    ex, st = c.ex, c.st
    ex.rmap(st, CHAR)
    H = ex.gref("logHostname")
    SZ = [g for g in c.tu.globals.values() if g["name"] == "logHostname"]
    if len(SZ) != 1:
        raise Unsupported("host name buffer not found")
    SZ = c.tu.sizeof(SZ[0]["type"])
    c.requires(H != NULL, ex.kind(st, H) == STACKBLK, ex.size(st, H) == SZ)
    from specs.bits import statics_of
    fl = [n for n, t, i in statics_of(c, lambda t: t.k == "int")]
    if len(fl) != 1:
        raise Unsupported("host name flag not found")
    flag = lambda s: ex.gload(s, fl[0], INT)
    set0 = flag(st)
    c.requires(Or(set0 == 0, set0 == 1))
    hc = lambda s, k: Select(Select(ex.rmap(s, CHAR), H), k)
    hn = lambda s: ex.hmap(s, ("g", "@hn"), lambda: IntS)
    hn(st)
    st.heap[("g", "@hn")] = RV(0)
    c.noframe.add(("g", "@hn"))
    HN = z3.Function("system_host_name", IntS, IntS)
    HL = z3.Int("system_host_name_length")
    i, x = z3.Int("i"), z3.Int("x!sk")
    c.requires(HL >= 0, HL < (1 << 20), forall([i], Implies(And(i >= 0, i < HL), And(HN(i) != 0, HN(i) >= -128, HN(i) <= 127)), [HN(i)]))

    def m_gethostname(ex, s, vs, n):
        ex.trusted.add("gethostname: the name, terminated if it fits")
        p, k = vs[0], vs[1]
        ex.oblige(s, "room for the name", And(p.base != NULL, ex.kind(s, p.base) > 0, oint(p.off) == 0, k >= 0, k <= ex.size(s, p.base)), n, group="mem")
        f = s.copy()
        h = ex.rmap(s, CHAR)
        old, new = Select(h, p.base), fresh(h.range(), "host")
        s.assume(forall([i], Select(new, i) == If(And(i >= 0, i < k, i < HL), HN(i), If(And(i == HL, i < k), RV(0), Select(old, i))), [Select(new, i)]))
        s.heap[ex.rawkey(CHAR)] = Store(h, p.base, new)
        s.heap[("g", "@hn")] = RV(1)
        f.heap[("g", "@hn")] = RV(2)
        return [(s, RV(0)), (f, RV(-1))]

    def m_strchr(ex, s, vs, n):
        ex.trusted.add("strchr")
        p, w = vs
        ex.oblige(s, "strchr is given a terminated string", And(p.base == H, oint(p.off) == 0, hc(s, RV(SZ - 1)) == 0), n, group="mem")
        f = s.copy()
        k, L_ = fresh(IntS, "pos"), fresh(IntS, "len")
        s.assume(k >= 0, k < SZ - 1, hc(s, k) == w, forall([i], Implies(And(i >= 0, i < k), And(hc(s, i) != w, hc(s, i) != 0)), [hc(s, i)]))
        f.assume(L_ >= 0, L_ <= SZ - 1, hc(f, L_) == 0, forall([i], Implies(And(i >= 0, i < L_), And(hc(f, i) != w, hc(f, i) != 0)), [hc(f, i)]))
        return [(s, P(H, k)), (f, P(NULL))]
    ex.models.update(gethostname=m_gethostname, strchr=m_strchr)
    c.run()
    y = z3.Int("y!sk")
    for s, r in c.returns:
        c.ensure(s, "a name that is known is kept", Implies(set0 != 0, hc(s, x) == hc(c.st0, x)))
        c.ensure(s, "known afterwards", flag(s) == 1)
        c.ensure(s, "terminated", Implies(set0 == 0, hc(s, RV(SZ - 1)) == 0))
        # the first character that is a dot or the end of the system's name is at y: the short name ends there
        c.ensure(s, "the system is asked", Implies(set0 == 0, Or(hn(s) == 1, hn(s) == 2)))
        got = hn(s) == 1
        c.ensure(s, "the system's name up to the first dot", Implies(And(set0 == 0, got, x >= 0, x < SZ - 1, x < HL, forall([i], Implies(And(i >= 0, i <= x), HN(i) != 46), [HN(i)])), hc(s, x) == HN(x)))
        c.ensure(s, "and no further", Implies(And(set0 == 0, y >= 0, y < SZ - 1, Or(y == HL, HN(y) == 46), y <= HL, forall([i], Implies(And(i >= 0, i < y), HN(i) != 46), [HN(i)])), hc(s, y) == 0))
        c.frame(s, lambda o: o == H, globs=(fl[0],))
    c.errors()


class Fac:
    """the table of facilities"""
    def __init__(self, c):
        self.o = o = L(c)
        ex, st = c.ex, c.st
        g = [g for g in c.tu.globals.values() if g["name"] == "facilitynames"]
        if len(g) != 1 or g[0]["init"] is None:
            raise Unsupported("table of facilities not found")
        g = g[0]
        r = ex.gref("facilitynames")
        self.rows = []

        def strip(n):
            while n.get("kind") in ("ImplicitCastExpr", "ParenExpr", "ConstantExpr", "CStyleCastExpr") and n.get("inner"):
                n = n["inner"][0]
            return n
        from core import c_unescape, const_int
        tag = g["type"].to.tag
        (f1, t1), (f2, t2) = ex.flat(tag)
        n1, n2 = ex.fmap(st, tag, f1, t1), ex.fmap(st, tag, f2, t2)
        lits = []
        for i, row in enumerate(strip(g["init"])["inner"]):
            a, b = (strip(x) for x in row["inner"])
            v = const_int(b, c.tu)
            if v is None:
                raise Unsupported("table of facilities")
            p = toref(P(r, RV(i)))
            c.requires(ex.kind(st, p) == K(tag), Select(n2, p) == v, p != NULL)
            if a.get("kind") == "StringLiteral":
                l = z3.Const("facility_name_%d" % i, Ref)
                t = "".join(chr(x) for x in c_unescape(a["value"])).rstrip("\0")
                lits.append(l)
                c.requires(Select(n1, p) == l, l != NULL, txt(ex, st, P(l)) == SV(t))
                self.rows.append((t, v, l))
            else:
                c.requires(Select(n1, p) == NULL)
                if i + 1 != g["type"].n:
                    raise Unsupported("table of facilities")
        c.requires(ex.kind(st, r) == K(tag), toref(P(r)) == toref(P(r, RV(0))))
        z = z3.Int("z")
        c.requires(z3.substitute(toref(P(r, z)), (z, RV(0))) == r)
        o0, h0 = o.hints, ex.loop_hints
        N = len(self.rows)

        def hints(ex, entry, mod, nd, cond):
            out = h0(ex, entry, mod, nd, cond)
            for k in mod.vars:
                v = entry.env.get(k)
                if isinstance(v, P) and v.base.eq(r):
                    f = lambda s, k=k: oint(s.env[k].off)
                elif isinstance(v, z3.ExprRef) and z3.is_int(v):
                    f = lambda s, k=k: s.env[k]
                else:
                    continue
                out.append(Cand("a row of the table", lambda s, f=f: Or(*[f(s) == i for i in range(N + 1)])))
                out += self.cands(f)
            return out
        ex.loop_hints = hints
        self.r = r


@contract(TU, "log_set_facility", "C26")
def _setfac(c):
    f = Fac(c)
    ex, st = c.ex, c.st
    a = c.args[0]
    c.requires(a.base != NULL)
    want = txt(ex, st, a)
    f.cands = lambda g: [Cand("not among the rows seen", lambda s, g=g: And(*[Implies(g(s) > i, want != SV(t)) for i, (t, v, l) in enumerate(f.rows)]))]
    c.allow("fatal", And(*[want != SV(t) for t, v, l in f.rows]), name="not a facility")
    c.run()
    for s, r in c.returns:
        e = None
        for t, v, l in reversed(f.rows):
            e = If(want == SV(t), RV(v), e if e is not None else f.o.fac(c.st0))
        c.ensure(s, "the facility of the name", f.o.fac(s) == e)
        c.frame(s, lambda x: FALSE, globs=("logFacility",))
    c.errors()


@contract(TU, "log_get_facility", "C26")
def _getfac(c):
    f = Fac(c)
    ex, st = c.ex, c.st
    v0 = f.o.fac(st)
    f.cands = lambda g: [Cand("not among the rows seen", lambda s, g=g: And(*[Implies(g(s) > i, v0 != v) for i, (t, v, l) in enumerate(f.rows)]))]
    c.run()
    for s, r in c.returns:
        e = None
        for t, v, l in reversed(f.rows):
            e = If(v0 == v, l, e if e is not None else NULL)
        c.ensure(s, "the name of the facility, NULL if it has none", toref(r) == e)
        c.unchanged(s, "nothing is modified")
    c.errors()

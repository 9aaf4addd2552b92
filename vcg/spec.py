"""Contracts: how a specification is attached to a function of the real code and checked."""
import z3, time, os, sys, traceback, subprocess, tempfile
from core import *
import lib
from lib import ch, nz_below
import cast as _cast

TASKS = []      # (tu, function, properties, python spec, options)


class Task:
    def __init__(s, tu, fn, props, spec, name=None, mode="int", weight=1):
        s.tu, s.fn, s.props, s.spec, s.mode, s.weight = tu, fn, props, spec, mode, weight
        s.name = name or fn


def contract(tu, fn, props, name=None, mode="int", weight=1):
    def deco(f):
        TASKS.append(Task(tu, fn, props if isinstance(props, (list, tuple)) else [props], f, name, mode, weight))
        return f
    return deco


class Ctx:
    """one function under contract"""

    def __init__(self, task):
        self.task = task
        self.tu = _cast.load(task.tu)
        self.ex = Exec(self.tu, mode=task.mode)
        self.fn = self.tu.funcs.get(task.fn) if task.fn else dict(params=[])
        if self.fn is None:
            raise Unsupported("%s: function %s not found" % (task.tu, task.fn))
        self.st = State()
        self.args = []
        for p in self.fn["params"]:
            t = self.tu.ty(p)
            if t.k == "int":
                v = z3.Const("arg_" + p.get("name", "?"), self.ex.sort(t))
                if task.mode == "int":
                    self.st.assume(self.ex.inrange(v, t))
            elif t.k == "float":
                v = z3.Real("arg_" + p.get("name", "?"))
            else:
                v = P(z3.Const("arg_" + p.get("name", "?"), Ref))
            self.args.append(v)
        self.st0 = self.st
        self.returns = []
        self.exits = []
        self.allowed = []
        self.reach = []
        self.extra = []       # obligations added by the spec
        k0 = self.ex.kmap(self.st)
        m = z3.Const("m", Ref)
        self.ex.axioms.append(forall([m], Select(k0, m) >= 0, [Select(k0, m)]))
        self.ex.smap(self.st)
        self.nonvacuous = []
        self.noframe = set()

    # -- shorthands on any state
    def requires(self, *fs):
        self.st.assume(*fs)

    def run(self):
        self.st0 = self.st.copy()
        self.nonvacuous.append(("precondition satisfiable", list(self.st0.pc)))
        outs = self.ex.run_body(self.fn, list(self.args), self.st)
        self.returns = [(o.st, o.v) for o in outs if not self.ex.quick_unsat(o.st)]
        self.exits = [e for e in self.ex.exits if not self.ex.quick_unsat(e[1])]
        return self.returns

    def ensure(self, st, name, goal, group="post"):
        self.ex.obls.append(Obl(name, list(st.pc), goal, self.task.fn, group))

    def allow(self, kind, cond, frame=True, name=None):
        """this error exit happens exactly when cond (over the entry state) holds"""
        self.allowed.append((kind, cond, frame, name or kind))

    def errors(self):
        """obligations about error exits"""
        for kind, st, loc in self.exits:
            al = [(c, fr, nm) for k, c, fr, nm in self.allowed if k == kind]
            self.ensure(st, "%s report at %s only for its documented reason" % (kind, loc), Or(*[c for c, _, _ in al]))
            if al and all(fr for _, fr, _ in al):
                self.unchanged(st, "nothing modified before the %s report" % kind)
        for st, v in self.returns:
            for k, c, fr, nm in self.allowed:
                self.ensure(st, "refused: " + nm, Not(c))

    def errors_some(self, may=()):
        """like errors(); exits of the kinds in `may` need not happen whenever their condition holds"""
        keep = self.allowed
        rets = self.returns
        self.returns = []
        self.errors()
        self.returns = rets
        for st, v in rets:
            for k, cond, fr, nm in keep:
                if k not in may:
                    self.ensure(st, "refused: " + nm, Not(cond))

    def errors_only(self):
        """error exits only for the documented reasons (the state before them is not compared)"""
        for kind, st, loc in self.exits:
            al = [c for k, c, _, _ in self.allowed if k == kind]
            self.ensure(st, "%s report at %s only for its documented reason" % (kind, loc), Or(*al))

    def maps(self, st):
        for k, h in st.heap.items():
            if k in self.noframe:       # ghost chosen anew by every operation
                continue
            h0 = self.st0.heap.get(k, self.ex.heap0.get(k))
            if h0 is not None and not h0.eq(h):
                yield k, h0, h

    def unchanged(self, st, name, but=()):
        """everything alive before the call (and every global) is as it was"""
        o = z3.Const("o!frame", Ref)
        al = self.ex.kind(self.st0, o) > 0
        g = []
        for k, h0, h in self.maps(st):
            if k in but:
                continue
            if k[0] == "g":
                g.append(h == h0)
            else:
                g.append(Implies(al, Select(h, o) == Select(h0, o)))
        self.ensure(st, name, And(*g))

    def frame(self, st, fp, globs=(), name="frame: nothing outside the footprint changes"):
        o = z3.Const("o!frame", Ref)
        out = And(self.ex.kind(self.st0, o) > 0, Not(fp(o)))
        g = []
        for k, h0, h in self.maps(st):
            if k[0] == "g":
                if k[1] not in globs:
                    g.append(h == h0)
            else:
                g.append(Implies(out, Select(h, o) == Select(h0, o)))
        self.ensure(st, name, And(*g))


def second_opinion(ex, o, tmo=30):
    """obligation not discharged by the z3 library: other back ends on the same formula"""
    s = z3.Solver()
    for f in ex.axioms:
        s.add(f)
    for f in o.pc:
        s.add(f)
    s.add(Not(o.goal))
    txt = s.to_smt2()
    fd, p = tempfile.mkstemp(suffix=".smt2", prefix="vcg.")
    os.write(fd, ("(set-logic ALL)\n" + txt).encode())
    os.close(fd)
    try:
        for name, cmd in (("cvc5", ["cvc5", "--tlimit=%d" % (tmo * 1000), p]),
                          ("z3-4.8", ["z3", "smt.mbqi=false", "auto_config=false", "-T:%d" % tmo, p])):
            try:
                r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, timeout=tmo + 10)
            except (subprocess.TimeoutExpired, OSError):
                continue
            if r.stdout.decode().strip().startswith("unsat"):
                return name
    finally:
        os.unlink(p)
    return None


def model_text(ex, o):
    """what the solver says about a failed obligation (candidate model if there is one)"""
    s = ex._solver(ex.RL_OBL)
    for f in o.pc:
        if not has_quant(f):
            s.add(f)
    if not has_quant(o.goal):
        s.add(Not(o.goal))
    r = s.check()
    if r != z3.sat:
        return str(r)
    m = s.model()
    out = []
    for d in m.decls():
        if d.arity() == 0 and d.range().kind() in (z3.Z3_INT_SORT, z3.Z3_BV_SORT, z3.Z3_BOOL_SORT, z3.Z3_UNINTERPRETED_SORT):
            out.append("%s = %s" % (d.name(), m[d]))
    return "candidate state (quantified facts dropped): " + ", ".join(sorted(out)[:60])


def run_task(task, deep=True):
    """-> dict(result) ; status proved / failed / unsupported
    A do-while loop can be cut before its body or after a first pass: when one way fails, the other is tried."""
    Exec.flip_do = Exec.saw_do = False
    r = run_once(task, deep)
    if r["status"] != "proved" and Exec.saw_do:
        Exec.flip_do = True
        r2 = run_once(task, deep)
        Exec.flip_do = False
        if r2["status"] == "proved":
            r2["wall_s"] += r["wall_s"]
            return r2
    return r


def run_once(task, deep=True):
    t0 = time.time()
    r = dict(task=task.name, fn=task.fn, tu=task.tu, props=task.props, obligations=0, discharged=0, failed=[], backends={},
             solver_s=0.0, status="proved", trusted=[], inlined=[], loops=[], mode=task.mode)
    try:
        c = Ctx(task)
        task.spec(c)
        ex = c.ex
        if not c.ex.obls and not c.extra:
            raise Unsupported("no obligations generated")
        # vacuity
        for nm, pc in c.nonvacuous:
            if ex.prove(pc, FALSE, 4000000) == "unsat":
                r["failed"].append(dict(name="VACUOUS: " + nm, loc=task.fn, info="the assumptions are contradictory"))
        if task.fn and not getattr(c, "noreturn", False):
            if not c.returns or all(ex.prove(st.pc, FALSE, 4000000) == "unsat" for st, _ in c.returns):
                r["failed"].append(dict(name="VACUOUS: no return is reachable", loc=task.fn, info=""))
        for o in ex.obls:
            r["obligations"] += 1
            if o.status == "unsat":
                r["discharged"] += 1
                r["backends"][o.backend] = r["backends"].get(o.backend, 0) + 1
                continue
            t1 = time.time()
            res = ex.prove(o.pc, o.goal)
            be = "z3"
            if res != "unsat" and ex.joins:
                res = ex.prove_split(o.pc, o.goal)
            if res != "unsat" and deep:
                b = second_opinion(ex, o) if len(r["failed"]) < 3 else None
                if b:
                    res, be = "unsat", b
            o.time = time.time() - t1
            r["solver_s"] += o.time
            o.status = res
            if res == "unsat":
                r["discharged"] += 1
                r["backends"][be] = r["backends"].get(be, 0) + 1
            else:
                r["failed"].append(dict(name=o.name, loc=o.loc, info=model_text(ex, o), group=o.group, res=res))
        r["trusted"] = sorted(ex.trusted)
        r["inlined"] = sorted(ex.inlined)
        r["loops"] = [(w, cs) for w, cs, _ in ex.loop_info]
        r["paths"] = len(c.returns) + len(c.exits)
        if r["failed"]:
            r["status"] = "failed"
    except Unsupported as e:
        r["status"] = "unsupported"
        r["reason"] = str(e)
    except Exception as e:
        r["status"] = "unsupported"
        r["reason"] = "internal: %r\n%s" % (e, traceback.format_exc()[-1500:])
    r["wall_s"] = time.time() - t0
    return r

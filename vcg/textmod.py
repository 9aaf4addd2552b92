"""Output as text: what is written to a stream is a ghost string; formatted output appends pieces.  A string in memory is known by its text
(ghost map from the pointer), a formatted message with a caller's arguments is one uninterpreted text per format and argument list."""
import re
from core import *

Str = z3.StringSort()
FMT = z3.Function("formatted", Ref, IntS, Str)        # caller's format with the caller's arguments
NUM = z3.Function("number_text", IntS, IntS, Str)      # a number in a printf conversion
PAD = z3.Function("padded_text", Str, IntS, Str)
SV = z3.StringVal
ARGS = z3.Int("variadic_arguments")


def gset(st, k, v):
    st.heap[("G", k)] = v


def gget(ex, st, k, sort):
    return ex.hmap(st, ("G", k), lambda: sort)


def txt(ex, st, p):
    """text of the string at p"""
    lit = ex.ctab.get(p.base.get_id())
    if lit is not None and lit[0].eq(p.base) and p.path is None:
        o = z3.simplify(oint(p.off))
        if z3.is_int_value(o):
            b = lit[1][o.as_long():]
            return SV("".join(chr(x % 256) for x in b[:b.index(0)]))
    return Select(gget(ex, st, "txt", z3.ArraySort(Ref, Str)), toref(p))


def set_txt(ex, st, p, s):
    h = gget(ex, st, "txt", z3.ArraySort(Ref, Str))
    gset(st, "txt", Store(h, toref(p), s))


def cat(xs):
    xs = [x for x in xs if not (z3.is_string_value(x) and x.as_string() == "")]
    out = []
    for x in xs:
        if out and z3.is_string_value(x) and z3.is_string_value(out[-1]):
            out[-1] = SV(out[-1].as_string() + x.as_string())
        else:
            out.append(x)
    return SV("") if not out else out[0] if len(out) == 1 else z3.Concat(*out)


def fmt(ex, st, f, args, n):
    """text produced by a literal format"""
    lit = ex.ctab.get(f.base.get_id())
    if lit is None or not off_is0(f.off):
        ex.unsup("format that is not a literal", n)
    s = "".join(chr(x % 256) for x in lit[1][:-1])
    out, i, args = [], 0, list(args)
    while i < len(s):
        m = re.match(r"%(-?)(\d*)(?:\.(\d+))?(l|ll|h|z)?([sducxXp%])", s[i:])
        if s[i] != "%":
            j = s.find("%", i)
            j = len(s) if j < 0 else j
            out.append(SV(s[i:j]))
            i = j
            continue
        if not m:
            ex.unsup("format " + s, n)
        i += m.end()
        if m.group(5) == "%":
            out.append(SV("%"))
            continue
        if not args:
            ex.oblige(st, "as many arguments as the format asks for", FALSE, n)
            return SV("")
        a = args.pop(0)
        if m.group(5) == "s":
            if not isinstance(a, P):
                ex.oblige(st, "%s is given a string", FALSE, n)
                return SV("")
            t = txt(ex, st, a)
            if m.group(3):
                t = z3.SubString(t, 0, int(m.group(3)))
            if m.group(2):
                t = If(z3.Length(t) >= int(m.group(2)), t, PAD(t, RV(int(m.group(2)))))
            out.append(t)
        elif m.group(5) == "p":
            out.append(NUM(z3.FreshConst(IntS, "ptr"), RV(112)))
        else:
            if isinstance(a, P):
                ex.oblige(st, "a numeric conversion is given a number", FALSE, n)
                return SV("")
            out.append(NUM(a, RV(ord(m.group(5)))))
    return cat(out)


def va(ex, st):
    return gget(ex, st, "va", z3.ArraySort(Ref, IntS))


def m_va_start(ex, st, vs, n):
    gset(st, "va", Store(va(ex, st), vs[0].base, RV(1)))
    return [(st, None)]


def m_va_copy(ex, st, vs, n):
    ex.oblige(st, "the argument list copied has not been used up", Select(va(ex, st), vs[1].base) == 1, n, group="ub")
    gset(st, "va", Store(va(ex, st), vs[0].base, RV(1)))
    return [(st, None)]


def m_va_end(ex, st, vs, n):
    ex.oblige(st, "va_end of a list in use", Select(va(ex, st), vs[0].base) >= 1, n, group="ub")
    gset(st, "va", Store(va(ex, st), vs[0].base, RV(0)))
    return [(st, None)]


def use_va(ex, st, p, n):
    ex.oblige(st, "the argument list is not used twice", Select(va(ex, st), p.base) == 1, n, group="ub")
    gset(st, "va", Store(va(ex, st), p.base, RV(2)))
    return ARGS


VA = dict(__builtin_va_start=m_va_start, __builtin_va_copy=m_va_copy, __builtin_va_end=m_va_end, va_start=m_va_start, va_copy=m_va_copy, va_end=m_va_end)

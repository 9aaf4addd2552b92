"""C20: every public operation given NULL or a block whose tag is not that of a live object of the right kind ends in the internal report,
reads nothing of the block but the tag, and modifies nothing."""
from spec import *
from absmod import MAGIC

HASH = ("hash.c", "table", "HSH_MAGIC", """insert delete retrieve iterate iterate_arg get_stats print_stats init_position next_position readonly destroy""", "hsh_")
SET = ("set.c", "set", "SET_MAGIC", """get_hash get_compare insert delete member iterate iterate_arg add del union inter diff equal get_stats print_stats count
       init_position next_position readonly destroy""", "set_")
LST = ("list.c", "list", "LST_MAGIC", """append push pop top nth_get nth_set member length truncate truncate_position iterate iterate_arg init_position last_position
       nth_position destroy""", "lst_")
SL = ("sl.c", "_sl_List", "SL_LIST_MAGIC", "insert delete find iterate iterate_arg destroy", "sl_")
STR = ("memory.c", "stringInfo", "MEM_STRINGS_MAGIC", "strcpy strncpy grow finish get_string_stats print_string_stats destroy_strings", "mem_")
OBJ = ("memory.c", "objectInfo", "MEM_OBJECTS_MAGIC", "get_object get_empty_object free_object get_object_stats print_object_stats destroy_objects", "mem_")
ARG = ("arg.c", "Arg", "ARG_MAGIC", "add addn grow finish get count get_vector destroy", "arg_")

TWO = {"add", "del", "union", "inter", "diff", "equal"}
QUIET = {"lst_append", "sl_iterate", "sl_iterate_arg"}       # documented: NULL is harmless


def m_random(ex, st, vs, n):
    ex.trusted.add("random")
    v = fresh(IntS, "random")
    st.assume(v >= 0, v < (1 << 31))
    return [(st, v)]


def m_prime(ex, st, vs, n):
    ex.trusted.add("prm_next_prime: some prime")
    v = fresh(IntS, "prime")
    st.assume(v >= 3, v < (1 << 32))
    return [(st, v)]


def wide(c, tag):
    """the tag as its field holds it"""
    t = dict(c.ex.flat(tag))["magic"]
    return t


def strings(c):
    """the other arguments are in order: character pointers point to strings"""
    for p, v in zip(c.fn["params"], c.args):
        t = c.tu.ty(p)
        if t.k == "ptr" and t.to.k == "int" and t.to.bits == 8:
            n = z3.Int("len_" + p.get("name", "?"))
            c.requires(n >= 0, n < (1 << 31), v.base != NULL, c.ex.kind(c.st, v.base) > 0, c.ex.size(c.st, v.base) == n + 1, ch(c.ex, c.st, v, n) == 0, nz_below(c.ex, c.st, v, n))


def bad(tu, tag, mg, fn, which, quiet):
    def spec(c):
        ex, st = c.ex, c.st
        ex.models.setdefault("random", m_random)
        ex.models.setdefault("prm_next_prime", m_prime)
        t = wide(c, tag)
        M = MAGIC[mg] if t.signed else MAGIC[mg] % (1 << 32)
        h = c.args[which].base
        mag = lambda s, x: Select(ex.fmap(s, tag, "magic", t), x)
        c.requires(Or(h == NULL, And(ex.kind(st, h) == K(tag), mag(st, h) != M)))
        if fn.split("_", 1)[1] in TWO:
            o = c.args[1 - which].base
            c.requires(Or(o == NULL, ex.kind(st, o) == K(tag)))
            c.requires(Or(which == 1, o == NULL, mag(st, o) == M))
        strings(c)
        if quiet:
            c.requires(h != NULL)

        def ld(ex, s, lv, n):
            if lv[0] == "fld" and lv[3] == "magic":
                return
            if lv[0] in ("fld", "fa", "raw"):
                ex.oblige(s, "nothing of a refused handle but its tag is read", lv[1] != h, n, group="mem")
        ex.on_load = ld
        c.noreturn = True
        c.run()
        c.ensure(c.st0, "some path is examined", z3.BoolVal(bool(c.exits)))
        for s, r in c.returns:
            c.ensure(s, "a refused handle never returns normally", FALSE)
        for kind, s, loc in c.exits:
            c.ensure(s, "the report at %s is an internal error" % loc, z3.BoolVal(kind == "internal"))
            c.unchanged(s, "nothing modified before the report", but=[])
    return spec


def quiet(tu, fn):
    def spec(c):
        c.ex.models.setdefault("random", m_random)
        c.requires(c.args[0].base == NULL)
        c.run()
        for s, r in c.returns:
            c.unchanged(s, "NULL is a harmless no-op")
            if z3.is_expr(r):
                c.ensure(s, "returns 0", r == 0)
        c.errors()
    return spec


for tu, tag, mg, fns, pre in (HASH, SET, LST, SL, STR, OBJ, ARG):
    for f in fns.split():
        fn = pre + f
        for w in ((0, 1) if pre == "set_" and f in TWO else (0,)):
            contract(tu, fn, "C20", name="bad handle: %s%s" % (fn, " (second operand)" if w else ""))(bad(tu, tag, mg, fn, w, fn in QUIET))
        if fn in QUIET:
            contract(tu, fn, "C20", name="NULL handle: " + fn)(quiet(tu, fn))


@contract("hash.c", None, "C20", name="tags are pairwise different")
def _tags(c):
    names = [x[2] for x in (HASH, SET, LST, SL, STR, OBJ, ARG)]
    names += [n + "_FREED" for n in names]
    c.ensure(c.st, "the tags of live and destroyed objects of all kinds differ", z3.Distinct(*[RV(MAGIC[n]) for n in names]))

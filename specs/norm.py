"""Normalization: recognising frames and rewriting names.
Texts are compared through their ranks (content); Contains(r, s) is the trusted strstr."""
from spec import *
from engine import Engine
from lists import GList, fun, pats
from trusted import CONTAINS
from cmp import FRAMES
from lst import CONT, STR_ALL, frames, register

R, B = z3.RealSort(), z3.BoolSort()
lit = lambda t: z3.RealVal(Engine.lit_rank(t.encode()))
NULLR = z3.RealVal(-1)
MAXVA = 6
LIMS = 1 << 30

GDB_EXIT = [("__run_exit_handlers", ["exit.c"]), ("raise", ["pt-raise.c", "libc.so", "libc-", "libpthread.so", "raise.c"]), ("__GI_raise", ["raise.c"]), ("exit", ["exit.c"]),
            ("abort", ["abort.c", "libc.so", "libc-"]), ("__GI_abort", ["abort.c"]), ("__chk_fail", ["chk_fail.c", "libc.so"]), ("__stack_chk_fail", ["stack_chk_fail.c", "libc.so"]),
            ("do_exit", ["exit.c"]), ("kill", ["syscall-template.S"])]
CORE_EXIT = [("__run_exit_handlers", []), ("raise", ["libc.so", "libc-", "libpthread.so"]), ("__GI_raise", []), ("exit", []), ("abort", ["libc.so", "libc-"]), ("__GI_abort", []),
             ("__chk_fail", ["libc.so"]), ("__stack_chk_fail", ["libc.so"]), ("kill", [])]
ABOVE = [(n, [""]) for n in "__assert_fail __assert_fail_base __chk_fail __longjmp_chk __malloc_assert __strcat_chk __strcpy_chk __strncpy_chk __vsnprintf_chk ___vsnprintf_chk __snprintf_chk "
         "___snprintf_chk __vasprintf_chk __vsprintf_chk ___sprintf_chk __fwprintf_chk __asprintf_chk ___printf_chk ___fprintf_chk __vswprintf_chk".split()] + \
        [(n, ["malloc.c", "libc"]) for n in "malloc_consolidate malloc_printerr _int_malloc _int_free _int_realloc".split()] + \
        [(n, ["malloc.c"]) for n in "_int_memalign __libc_free __libc_malloc __libc_memalign __libc_realloc __posix_memalign __libc_calloc".split()] + [("__libc_fatal", ["libc"])]
ARCH = "memchr memcmp memcpy memmove memset rawmemchr strcasecmp strcasecmp_l strcat strchr strchrnul strcmp strcpy strcspn strlen strncmp strncpy strpbrk strrchr strspn strstr strtok".split()
SUFFIX = "_sse2 _sse2_bsf _ssse3 _ssse3_rep _ssse3_back _sse42 _ia32".split()


def comes_from(rf, files):
    return z3.And(rf != NULLR, z3.Or([CONTAINS(rf, lit(f)) for f in files]))


def in_table(rn, rf, table, empty_any=False):
    return z3.Or([z3.And(rn == lit(n), z3.BoolVal(True) if empty_any and not fs else comes_from(rf, fs)) for n, fs in table])


def text_or_null(k, p, what):
    k.requires(Or(eq(p.o, 0), k.valid_str(p)), "%s is NULL or a string" % what)
    return k.rank0(p)


# ---------------------------------------------------------------- variadic matchers
def variadic(k, va):
    """list of (present, rank) of the variadic strings up to the NULL"""
    if k.mode == "call":
        k.requires(any(is_c(v.o) and v.o == 0 for v in va) and len(va) <= MAXVA, "the arguments end with NULL")
        out = []
        for v in va:
            if is_c(v.o) and v.o == 0:
                break
            k.requires(k.valid_str(v), "variadic argument is a string")
            out.append((z3.BoolVal(True), k.rank(v)))
        return len(out), out
    va = [k.eng.fresh_val(k.st, "ptr", "va%d" % i) for i in range(MAXVA)]
    k.data["va"] = va
    nv = fresh_int("nva")
    k.st.fact(z3.And(0 <= nv, nv < MAXVA))
    out = []
    for i, v in enumerate(va):
        k.st.fact(z3.Implies(nv == i, Z(v.o) == 0))
        k.st.fact(Implies(nv > i, And(ne(v.o, 0), k.valid_str(v))))
        out.append((nv > i, k.rank0(v)))
    k.data["nva"] = nv
    return nv, out


def mk_match(name, file, frame=None, empty=False):
    def c(k, *a):
        if frame:
            fr, exp, va = a[0], a[1], a[2:]
            sname, fn, ff = frame
            k.requires(And(k.valid(fr, k.sizeof(sname)), eq(fr.p, 0)), "a frame")
            n, s = k.fld(fr, sname, fn), k.fld(fr, sname, ff)
        else:
            n, s, exp, va = a[0], a[1], a[2], a[3:]
        rn = text_or_null(k, n, "function name")
        rs = text_or_null(k, s, "source file")
        k.requires(k.valid_str(exp), "the expected name is a string")
        re = k.rank(exp)
        nv, args = variadic(k, va)
        if k.mode == "verify":
            k.data["match"] = (nv, rs, args)

        def post(res):
            hit = z3.And(rs != NULLR, z3.Or([z3.And(p, CONTAINS(rs, r)) for p, r in args]))
            if empty:
                hit = z3.Or(hit, Z(nv) == 0)
            k.ensures(Iff(k.eng.tobool(res), z3.And(rn == re, hit)), "the name is equal and the file is one of those expected" + (" or none is" if empty else ""))
        return post
    register(name, c, file)

    @loops(name)
    def _(eng, L):
        k = eng.k_main
        if "match" not in k.data or "va_ap" not in k.data:
            return
        nv, rs, args = k.data["match"]
        ap, (reg, ovf) = k.data["va_ap"], k.data["va_ids"]
        nf = 2 if frame else 3

        def place(lv):
            it = Z(lv.it)
            g = Z(lv.cell("i32", ap.o, ap.p))
            o = lv.cell("ptr", ap.o, add(ap.p, 8))
            r = lv.cell("ptr", ap.o, add(ap.p, 16))
            return z3.And(0 <= it, it <= Z(nv), g == z3.If(it < 6 - nf, 8 * nf + 8 * it, z3.IntVal(48)), Z(o.o) == ovf, Z(o.p) == z3.If(it < 6 - nf, 0, 8 * (it - (6 - nf))), Z(r.o) == reg, Z(r.p) == 0)
        yield "the next argument", place
        yield "no match so far", lambda lv: z3.Or(rs == NULLR, z3.And([z3.Implies(z3.And(Z(lv.it) > i, p), z3.Not(CONTAINS(rs, r))) for i, (p, r) in enumerate(args)]))
        for a, t in L.locals:
            yield "%s tells whether there were any" % a, lambda lv, a=a: (Z(lv.it) == 0) == Z(k.eng.tobool(lv.var(a)))
            yield "%s is unset" % a, lambda lv, a=a: z3.Not(Z(k.eng.tobool(lv.var(a))))


mk_match("call_match", "normalize.c")
mk_match("sr_gdb_frame_calls_func", "gdb_frame.c", ("sr_gdb_frame", "function_name", "source_file"))
mk_match("sr_core_frame_calls_func", "core_frame.c", ("sr_core_frame", "function_name", "file_name"), True)


# ---------------------------------------------------------------- recognising frames
@contract("is_removable_glibc_with_above", file="normalize.c")
def _(k, n, s):
    rn, rs = text_or_null(k, n, "function name"), text_or_null(k, s, "source file")

    def post(res):
        t = FAILS(rn, rs)
        if k.mode == "verify":
            k.st.fact(t == in_table(rn, rs, ABOVE))
        k.ensures(Iff(k.eng.tobool(res), t), "exactly the failing functions of the C library")
    return post


FAILS = z3.Function("FailsInLibc", R, R, B)
EXITS = {"gdb": z3.Function("ExitsGdb", R, R, B), "core": z3.Function("ExitsCore", R, R, B)}
NAMES = {"gdb": ("sr_gdb_frame", "function_name", "source_file"), "core": ("sr_core_frame", "function_name", "file_name")}


def mk_is_exit(t, name, file, table):
    def c(k, fr):
        sname, fn, ff = NAMES[t]
        k.requires(And(k.valid(fr, k.sizeof(sname)), eq(fr.p, 0)), "a frame")
        rn = text_or_null(k, k.fld(fr, sname, fn), "function name")
        rs = text_or_null(k, k.fld(fr, sname, ff), "source file")

        def post(res):
            e = EXITS[t](rn, rs)
            if k.mode == "verify":
                k.st.fact(e == in_table(rn, rs, table, t == "core"))
            k.ensures(Iff(k.eng.tobool(res), e), "exactly the exit functions")
        return post
    register(name, c, file)


mk_is_exit("gdb", "sr_gdb_is_exit_frame", "normalize.c", GDB_EXIT)
mk_is_exit("core", "sr_core_thread_is_exit_frame", "core_thread.c", CORE_EXIT)


def mk_find_exit(t, name, file):
    sname, fn, ff = NAMES[t]

    def c(k, th):
        k.requires(And(k.valid(th, k.sizeof(CONT[t])), eq(th.p, 0)), "a thread")
        g = GList(k, sname, th.o, strs=STR_ALL[t])
        g.require(head=k.fld(th, CONT[t], "frames"))
        if k.mode == "verify":
            k.data["exit"] = g
        st = k.st

        def post(res):
            j = z3.Int("j!ex")
            found = z3.And(Z(res.p) == 0, 0 <= g.pos(res.o), g.pos(res.o) < g.n, g.at(g.pos(res.o)) == Z(res.o), exit_at(k, g, t, g.pos(res.o), st))
            k.ensures(Or(eq(res.o, 0), found), "an exit frame or none")
            lo = z3.If(Z(res.o) == 0, -1, g.pos(res.o))
            k.ensures(z3.ForAll([j], z3.Implies(z3.And(lo < j, j < g.n), z3.Not(exit_at(k, g, t, j, st))), patterns=[g.at(j)]), "no exit frame further down")
        return post
    register(name, c, file)

    @loops(name)
    def _(eng, L):
        k = eng.k_main
        if "exit" not in k.data:
            return
        g = k.data["exit"]
        j = z3.Int("j!ex")
        for a, ty in L.locals:
            def inv(lv, a=a):
                v = lv.var(a)
                if not isinstance(v, Ptr):
                    raise Skip()
                p = g.pos(v.o)
                found = z3.And(Z(v.o) != 0, Z(v.p) == 0, 0 <= p, p < Z(lv.it), p < g.n, g.at(p) == Z(v.o), exit_at(k, g, t, p, lv.s))
                lo = z3.If(Z(v.o) == 0, -1, p)
                return z3.And(z3.Or(z3.And(Z(v.o) == 0, Z(v.p) == 0), found),
                              z3.ForAll([j], z3.Implies(z3.And(lo < j, j < Z(lv.it), j < g.n), z3.Not(exit_at(k, g, t, j, lv.s))), patterns=[g.at(j)]))
            yield "%s is the lowest exit frame so far" % a, inv


def rank_q(k, g, f, nd, st):
    """content of a string field of the element nd (possibly bound)"""
    p = g.fread(f, nd, st)
    b = st.mem["i8"]
    while not isinstance(b, Base):
        b = b.prev
    return z3.If(Z(p.o) == 0, NULLR, b.rank(Z(p.o), Z(p.p)))


def exit_at(k, g, t, i, st):
    sname, fn, ff = NAMES[t]
    nd = g.at(i)
    return EXITS[t](rank_q(k, g, fn, nd, st), rank_q(k, g, ff, nd, st))


mk_find_exit("gdb", "sr_glibc_thread_find_exit_frame", "normalize.c")
mk_find_exit("core", "sr_core_thread_find_exit_frame", "core_thread.c")

# the generated table: which entry a name has (-1: none), how many file names it lists and their contents
ENTRY = z3.Function("TableEntry", R, I)
NFILES = z3.Function("TableFiles", I, I)
TFILE = z3.Function("TableFile", I, I, R)
REMOVABLE = z3.Function("Removable", R, R, B)


@contract("in_word_set", file="normalize.c")
def _(k, s, n):
    """assumed (generated by gperf): the entry of the name or NULL; the entry lists up to three texts, closed by NULL"""
    k.requires(k.valid_str(s), "a string")
    k.requires(eq(n, sub(k.nul(s), s.p)), "its length")
    e = ENTRY(k.rank(s))

    def post(res):
        k.ensures(z3.And((Z(res.o) == 0) == (e < 0), Z(res.p) == 0, e >= -1), "the entry of the name")
        k.ensures(Or(eq(res.o, 0), k.valid(res, 40)), "entry")
        for i in range(4):
            p = k.ld("ptr", res, 8 + 8 * i)
            k.ensures(z3.Implies(Z(res.o) != 0, z3.If(i < NFILES(e), Z(Implies(True, k.valid_str(p))), Z(p.o) == 0) if i else Z(k.valid_str(p))), "listed file")
            k.ensures(Implies(And(ne(res.o, 0), lt(i, NFILES(e))), eq_r(k.rank0(p), TFILE(e, i))), "listed file")
        k.ensures(z3.And(1 <= NFILES(e), NFILES(e) <= 3), "one to three files are listed")
        if k.eng.k_main is not None:
            k.eng.k_main.data["entry"] = (res, e)
    return post


def eq_r(a, b):
    return a == b


@contract("sr_gdb_frame_is_removable", file="normalize.c")
def _(k, n, s):
    rn, rs = text_or_null(k, n, "function name"), text_or_null(k, s, "source file")
    k.data["rem"] = rs

    def post(res):
        t = REMOVABLE(rn, rs)
        if k.mode == "verify":
            e = ENTRY(rn)
            k.st.fact(t == z3.And(rn != NULLR, rs != NULLR, e >= 0, z3.Or([z3.And(i < NFILES(e), CONTAINS(rs, TFILE(e, i))) for i in range(3)])))
        k.ensures(Iff(k.eng.tobool(res), t), "the name has an entry and the file contains one of the entry's")
    return post


@loops("sr_gdb_frame_is_removable")
def _(eng, L):
    k = eng.k_main
    if "entry" not in k.data:
        return
    res, e = k.data["entry"]
    rs = k.data["rem"]
    for a, t in L.locals:
        def at(lv, a=a):
            v = lv.var(a)
            if not isinstance(v, Ptr):
                raise Skip()
            return z3.And(Z(v.o) == Z(res.o), Z(v.p) == 8 + 8 * Z(lv.it), 0 <= Z(lv.it), Z(lv.it) <= NFILES(e))
        yield "%s: the next listed file" % a, at
    yield "no match so far", lambda lv: z3.And([z3.Implies(z3.And(Z(lv.it) > i, i < NFILES(e)), z3.Not(CONTAINS(rs, TFILE(e, i)))) for i in range(3)])


# ---------------------------------------------------------------- rewriting names
@contract("find_new_function_name_glibc", file="normalize.c")
def _(k, n, s):
    rn, rs = text_or_null(k, n, "function name"), text_or_null(k, s, "source file")
    k.may_alloc()

    def post(res):
        if k.mode == "verify":
            new = NULLR
            for f in reversed(ARCH):
                new = z3.If(in_table(rn, rs, [("__" + f + x, [f, "/sysdeps" if x == "_ia32" else "/sysdeps/", "libc.so"]) for x in SUFFIX]), lit(f), new)
            if k.case(eq(res.o, 0)):
                k.ensures(new == NULLR, "no plain name")
            else:
                k.ensures(And(lt(k.eng.entry_wm, res.o), eq(res.p, 0), alive(k.st.al, res.o), k.valid_str(res)), "a new string")
                k.ensures(k.rank(res) == new, "the plain name of the function")
        elif not k.case(eq(res.o, 0)):
            k.newstr(res, fresh_nat(k), PLAIN(rn, rs), None)
            k.st.fact(PLAIN(rn, rs) != NULLR)
        else:
            k.st.fact(PLAIN(rn, rs) == NULLR)
    return post


PLAIN = z3.Function("PlainName", R, R, R)
STRIP = z3.Function("StripPrefix", R, I, R, R)


def fresh_nat(k):
    v = fresh_int("len")
    k.st.fact(z3.And(0 <= v, v < LIMS))
    return v


@contract("remove_func_prefix", file="normalize.c")
def _(k, fn, prefix, num):
    k.requires(Or(eq(fn.o, 0), And(eq(fn.p, 0), k.valid_str(fn), lt(0, fn.o))), "name")
    k.requires(k.valid_str(prefix), "prefix")
    k.requires(And(le(0, num), lt(num, LIMS)), "count")
    if k.case(eq(fn.o, 0)):
        return lambda res: None
    n, m = k.nul(fn), sub(k.nul(prefix), prefix.p)
    k.requires(And(lt(n, LIMS), lt(m, LIMS), ne(fn.o, prefix.o)), "shorter than 2^30")
    r0, rp = k.rank(fn), k.rank(prefix)
    j = z3.Int("j!pre")
    e8 = k.entry.mem["i8"]
    ch = lambda i: Z(k.eng._read(k.st, e8, "i8", fn.o, S(i), False))
    pc = lambda i: Z(k.eng.char_q(k.entry, prefix, i))
    match = z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < Z(m)), z3.And(ch(j) == pc(j), j < Z(n))))
    k.modifies("*", fn, S(Z(n) + 1))

    def post(res):
        st = k.st
        if k.mode == "verify":
            new = lambda i: Z(k.eng._read(st, st.mem["i8"], "i8", fn.o, S(i), False))
            c = z3.If(Z(num) < Z(n), Z(num), Z(n))
            i = fresh_int("i")
            k.ensures(Implies(And(match, le(0, i), le(i, S(Z(n) - c))), new(i) == ch(i + c)), "the first characters are dropped")
            k.ensures(Implies(And(z3.Not(match), le(0, i), le(i, n)), new(i) == ch(i)), "other names are left alone")
        else:
            k.ensures(And(k.valid_str(fn), le(k.nul(fn), n)), "still a string")
            k.ensures(k.rank(fn) == STRIP(rp, Z(num), r0), "the prefix is removed")
    return post


PREFIXES = [("IA__gdk", 4), ("IA__g_", 4), ("IA__gtk", 4), ("__GI_", 5)]


def stripped(r):
    for p, n in PREFIXES:
        r = STRIP(lit(p), z3.IntVal(n), r)
    return r


@contract("sr_normalize_gdb_frame", file="normalize.c")
def _(k, fr):
    if k.case(eq(fr.o, 0)):
        return lambda res: None
    sname = "sr_gdb_frame"
    k.requires(And(k.valid(fr, k.sizeof(sname)), eq(fr.p, 0)), "a frame")
    fn, sf = k.fld(fr, sname, "function_name"), k.fld(fr, sname, "source_file")
    k.requires(Or(eq(fn.o, 0), And(eq(fn.p, 0), k.valid_str(fn), lt(0, fn.o), ne(fn.o, fr.o))), "name")
    if k.case(Or(eq(fn.o, 0), eq(sf.o, 0))):
        return lambda res: None
    n = k.nul(fn)
    k.requires(lt(n, LIMS), "shorter than 2^30")
    r0 = k.rank(fn)
    k.modifies("*", fn, S(Z(n) + 1))

    def post(res):
        k.ensures(And(k.valid_str(fn), le(k.nul(fn), n)), "still a string")
        k.ensures(k.rank(fn) == stripped(r0), "the known prefixes are removed, in their order")
    return post


@contract("next_functions_similar", file="normalize.c")
def _(k, f1, f2):
    s = "sr_gdb_frame"
    nx = []
    for f in (f1, f2):
        k.requires(And(k.valid(f, k.sizeof(s)), eq(f.p, 0)), "a frame")
        n = k.fld(f, s, "next")
        k.requires(Or(eq(n.o, 0), And(k.valid(n, k.sizeof(s)), eq(n.p, 0))), "the next frame")
        nx.append(n)
    a, b = nx
    if k.case(Or(eq(a.o, 0), eq(b.o, 0))):
        def post(res):
            k.ensures(Iff(k.eng.tobool(res), eq(a.o, b.o)), "similar if neither has a next frame")
        return post
    fa, fb = [text_or_null(k, k.fld(n, s, "function_name"), "function name") for n in nx]
    la, lb = [text_or_null(k, k.fld(n, s, "library_name"), "library name") for n in nx]

    def post(res):
        k.ensures(Iff(k.eng.tobool(res), z3.And(fa == fb, fa != lit("??"), z3.Or(la == NULLR, lb == NULLR, la == lb))), "the same known function, of libraries that do not differ")
    return post

"""Contracts of the lookups: addresses in library and mapping lists, exit frames, the crash thread"""
from spec import *
from engine import Skip
from lists import GList, fun, pats
from cmp import FRAMES, CODES, STRS, rnk
import cmp
from lst import CONT, STR_ALL, register

UM = (1 << 64) - 1


def first(k, name, args, n, pred, lo=0):
    """the first i in [lo,n) with pred(i), n when there is none: a function of args defined here"""
    f = fun(name, *([I] * (len(args) + 1)))(*[Z(a) for a in args])
    j = z3.Int("j!" + name)
    p = pred(j)
    pt = {"patterns": [k.data["pat"](j)]} if "pat" in k.data else {}
    k.st.fact(z3.And(Z(lo) <= f, f <= Z(n), z3.Implies(f < Z(n), pred(f)), z3.ForAll([j], z3.Implies(z3.And(Z(lo) <= j, j < f), z3.Not(p)), **pt)))
    return f


# ---------------------------------------------------------------- addresses
def mk_find(name, sname, file, contains, special=False):
    def c(k, head, a):
        g = GList(k, sname, fun("Owner." + sname, I, I)(Z(head.o)))
        g.require(head=head)
        A = Z(u(a, 64))

        def num(f, i):
            return Z(u(g.fread(f, g.at(i)), 64))
        j = z3.Int("j!find")
        hit = lambda i: contains(lambda f: num(f, i), A)
        k.data["pat"] = g.at
        k.st.fact(g.n >= 0)
        i = first(k, "FirstHit." + sname, [g.owner, A], g.n, hit)
        k.bounds.append(("the first entry that contains the address", i))

        def post(res):
            k.ensures(g.is_at(res, z3.If(A == UM, g.n, i) if special else i), "the first entry whose range contains the address, NULL when none does")
        return post
    register(name, c, file)


mk_find("sr_gdb_sharedlib_find_address", "sr_gdb_sharedlib", "gdb_sharedlib.c", lambda f, a: z3.And(f("from") <= a, a <= f("to")), True)
mk_find("sr_unstrip_find_address", "sr_unstrip_entry", "unstrip.c", lambda f, a: z3.And(f("start") <= a, a < f("start") + f("length")))


# ---------------------------------------------------------------- exit frames
def isexit(t):
    return fun("IsExit." + t, I, z3.BoolSort())


def lastexit(t):
    return fun("LastExit." + t, I, I)


def mk_isexit(name, t):
    def c(k, fr):
        k.requires(k.valid(fr, k.sizeof(FRAMES[t][0])), "a frame")

        def post(res):
            k.ensures(Iff(k.eng.tobool(res), isexit(t)(Z(fr.o))), "assumed: a function of the frame")
        return post
    register(name, c, "")


mk_isexit("sr_core_thread_is_exit_frame", "core")
mk_isexit("sr_gdb_is_exit_frame", "gdb")


def mk_findexit(name, t, file):
    def c(k, th):
        g = GList(k, FRAMES[t][0], th.o, strs=STRS[t])
        k.requires(And(k.valid(th, k.sizeof(CONT[t])), eq(th.p, 0)), "a thread")
        g.require(head=k.fld(th, CONT[t], "frames"))
        le_ = lastexit(t)(Z(th.o))
        j = z3.Int("j!exit")
        ex = isexit(t)
        k.st.fact(z3.And(-1 <= le_, le_ < g.n, z3.Implies(le_ >= 0, ex(g.at(le_))), z3.ForAll([j], z3.Implies(z3.And(le_ < j, j < g.n), z3.Not(ex(g.at(j)))), patterns=[g.at(j)])))

        def post(res):
            k.ensures(g.is_at(res, z3.If(le_ >= 0, le_, g.n)), "the last frame that ends the program, NULL when there is none")
        return post
    register(name, c, file)


mk_findexit("sr_core_thread_find_exit_frame", "core", "core_thread.c")
mk_findexit("sr_glibc_thread_find_exit_frame", "gdb", "normalize.c")


@loops("sr_core_thread_find_exit_frame", "sr_glibc_thread_find_exit_frame")
def _(eng, L):
    k = eng.k_main
    g = k.lists[0]
    t = "core" if "core" in eng.fnname else "gdb"
    ex = isexit(t)
    j = z3.Int("j!inv")
    for n, cls, cur, old in items(eng, L):
        if cls == "ptr":
            def inv(lv, cur=cur):
                p = cur(lv)
                r = z3.If(Z(p.o) == 0, -1, g.pos(p.o))
                return z3.And(Z(p.p) == 0, z3.Implies(Z(p.o) != 0, z3.And(0 <= r, r < Z(lv.it), r < g.n, g.at(r) == Z(p.o), ex(g.at(r)))),
                              z3.ForAll([j], z3.Implies(z3.And(r < j, j < Z(lv.it)), z3.Not(ex(g.at(j)))), patterns=[g.at(j)]))
            yield "%s is the last exit frame seen" % n, inv


# ---------------------------------------------------------------- crash thread
def threads(k, t, s):
    """the list of threads of a stack trace, with their frames"""
    sn = "sr_%s_stacktrace" % t
    k.requires(And(k.valid(s, k.sizeof(sn)), eq(s.p, 0)), "stack trace")
    g = GList(k, CONT[t], s.o)
    g.require(head=k.fld(s, sn, "threads"))
    i = z3.Int("i!t")
    inr = z3.And(0 <= i, i < g.n)
    fr = GList(k, FRAMES[t][0], g.at(i), strs=STRS[t])
    k.lists.remove(fr)
    fr.require([i], inr, head=g.fread("frames", g.at(i)))
    return g


def frames_of(k, t, g, i):
    fr = GList(k, FRAMES[t][0], g.at(i), strs=STRS[t])
    k.lists.remove(fr)
    return fr


@contract("sr_core_stacktrace_find_crash_thread", file="core_stacktrace.c")
def _(k, s):
    g = threads(k, "core", s)
    ct = k.fld(s, "sr_core_stacktrace", "crash_thread")
    k.data["pat"] = g.at
    f = first(k, "FirstExitThread", [s.o], g.n, lambda i: lastexit("core")(g.at(i)) >= 0)
    k.bounds.append(("the first thread with an exit frame", f))

    def post(res):
        r = z3.If(g.n == 1, 0, f)
        k.ensures(z3.If(Z(ct.o) != 0, z3.And(Z(res.o) == Z(ct.o), Z(res.p) == Z(ct.p)), g.is_at(res, r)),
                  "the designated thread, else the only one, else the first one that ended the program, else none")
    return post


def crash_matches(k, s, g):
    """per requirement, which threads have the crash frame on top"""
    cr = k.fld(s, "sr_gdb_stacktrace", "crash")
    k.requires(Or(eq(cr.o, 0), k.valid(cr, k.sizeof("sr_gdb_frame"))), "crash frame")
    if k.case(eq(cr.o, 0)):
        return None
    fn = k.fld(cr, "sr_gdb_frame", "function_name")
    k.requires(Or(eq(fn.o, 0), k.valid_str(fn)), "name of the crash frame")
    if k.case(eq(fn.o, 0)):
        return None
    rk = k.rank(fn)

    def match(i, req):
        fr = frames_of(k, "gdb", g, i)
        top = fr.fread("function_name", fr.at(0))
        m = z3.And(fr.n > 0, Z(top.o) != 0, rnk(k, k.st, top) == rk)
        return z3.And(m, z3.Implies(Z(req) == 1, lastexit("gdb")(g.at(i)) >= 0))
    return match


def firsts(k, s, g, match, req):
    k.data["pat"] = g.at
    f1 = first(k, "FirstMatch", [s.o, req], g.n, lambda i: match(i, req))
    f2 = first(k, "SecondMatch", [s.o, req], g.n, lambda i: match(i, req), z3.If(f1 < g.n, f1 + 1, g.n))
    return f1, f2


def weak_thread_cmp(k, t1, t2):
    """what P09 proves of thread_cmp_dont_compare_number, without the value of the result"""
    for p in (t1, t2):
        k.requires(And(k.valid(p, k.sizeof("sr_gdb_thread")), eq(p.p, 0)))
        g = GList(k, "sr_gdb_frame", p.o, strs=STRS["gdb"])
        k.lists.pop()
        g.require(head=k.fld(p, "sr_gdb_thread", "frames"))
    return lambda res: None


@contract("find_crash_thread_from_crash_frame", file="gdb_stacktrace.c")
def _(k, s, req):
    k.requires(And(le(0, req), le(req, 2)), "a requirement")
    g = threads(k, "gdb", s)
    k.requires(g.n > 0, "there are threads")
    match = crash_matches(k, s, g)
    if match is None:
        def post(res):
            k.ensures(eq(res.o, 0), "no crash frame, no thread")
        return post
    f1, f2 = firsts(k, s, g, match, req)
    k.data["cm"] = (g, match, req, f1, f2)

    def post(res):
        one = z3.If(z3.And(f1 < g.n, f2 == g.n), f1, g.n)
        pos = g.pos(res.o)
        guess = z3.If(f1 == g.n, Z(res.o) == 0, z3.And(Z(res.p) == 0, 0 <= pos, pos < g.n, g.at(pos) == Z(res.o), match(pos, req)))
        k.ensures(z3.If(Z(req) != 2, g.is_at(res, one), guess), "the only matching thread; for the last resort some matching thread")
    return post


@loops("find_crash_thread_from_crash_frame")
def _(eng, L):
    k = eng.k_main
    if "cm" not in k.data:
        return
    g, match, req, f1, f2 = k.data["cm"]
    for n, cls, cur, old in items(eng, L):
        if cls == "ptr":
            def inv(lv, cur=cur):
                p = cur(lv)
                pos = g.pos(p.o)
                seen = f1 < Z(lv.it)
                return z3.If(z3.Not(seen), Z(p.o) == 0, z3.And(Z(p.p) == 0, z3.If(Z(req) != 2, z3.And(Z(p.o) == g.at(f1), f2 >= Z(lv.it)),
                             z3.And(0 <= pos, pos < g.n, g.at(pos) == Z(p.o), match(pos, req)))))
            yield "%s is the thread found so far" % n, inv


@contract("sr_gdb_stacktrace_find_crash_thread", file="gdb_stacktrace.c")
def _(k, s):
    g = threads(k, "gdb", s)
    match = crash_matches(k, s, g)
    tid = Z(u(k.fld(s, "sr_gdb_stacktrace", "crash_tid"), 32))
    k.data["pat"] = g.at
    ft = first(k, "FirstTid", [s.o], g.n, lambda i: Z(u(g.fread("tid", g.at(i)), 32)) == tid)
    k.bounds.append(("the thread with the crash tid", ft))
    fs = [firsts(k, s, g, match, r) for r in range(3)] if match else None

    def post(res):
        pos = g.pos(res.o)
        one = lambda q: z3.And(fs[q][0] < g.n, fs[q][1] == g.n)
        if fs:
            guess = z3.If(fs[2][0] == g.n, Z(res.o) == 0, z3.And(Z(res.p) == 0, 0 <= pos, pos < g.n, g.at(pos) == Z(res.o), match(pos, 2)))
            rest = z3.If(one(0), g.is_at(res, fs[0][0]), z3.If(one(1), g.is_at(res, fs[1][0]), guess))
        else:
            rest = Z(res.o) == 0
        k.ensures(z3.If(g.n == 0, Z(res.o) == 0, z3.If(g.n == 1, g.is_at(res, 0), z3.If(z3.And(tid != 0xffffffff, ft < g.n), g.is_at(res, ft), rest))),
                  "the only thread, else the one with the crash tid, else the only one with the crash frame on top, else the only such that ended the program, else one of them")
    return post


@contract("sr_java_find_crash_thread", file="java_stacktrace.c")
def _(k, s):
    k.requires(k.valid(s, k.sizeof("sr_java_stacktrace")))

    def post(res):
        k.ensures(eq(res, k.fld(s, "sr_java_stacktrace", "threads")), "the first thread")
    return post


def mk_generic(t):
    def c(k, s):
        k.requires(And(k.valid(s, 4), eq(k.ld("i32", s), CODES[t])), "type %s" % t)
        f = {"core": "sr_core_stacktrace_find_crash_thread", "gdb": "sr_gdb_stacktrace_find_crash_thread", "java": "sr_java_find_crash_thread"}.get(t)
        if f:
            return CONTRACTS[f](k, s)

        def post(res):
            k.ensures(eq(res, s), "a stack trace with one thread is that thread")
        return post
    return c

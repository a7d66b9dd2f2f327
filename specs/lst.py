"""Contracts of the list operations on frames and threads: append, count, remove, free"""
from spec import *
from engine import Skip
from lists import GList, fun, pats, slot
from cmp import FRAMES, CODES, STRS

STR_ALL = {t: list(v) for t, v in STRS.items()}
STR_ALL["java"] = STRS["java"] + ["message"]
CONT = {"core": "sr_core_thread", "gdb": "sr_gdb_thread", "java": "sr_java_thread", "koops": "sr_koops_stacktrace", "python": "sr_python_stacktrace",
        "ruby": "sr_ruby_stacktrace", "js": "sr_js_stacktrace"}
TSTRS = {"core": [], "gdb": [], "java": ["name"]}


def register(name, c, file, **opts):
    CONTRACTS[name] = c
    INFO[name] = {"file": file, "opts": opts}


# ---------------------------------------------------------------- append / count / last
def mk_append(name, sname, file):
    def c(k, dest, item):
        g = GList(k, sname, fun("Owner." + sname, I, I)(Z(dest.o)))
        g.require(head=dest)
        k.requires(Or(eq(item.o, 0), k.valid(item, k.sizeof(sname))), "item")
        if k.case(eq(dest.o, 0)):
            def post(res):
                k.ensures(eq(res, item), "appending to nothing gives the item")
            return post
        off, _ = k.foff(sname, "next")
        last = Ptr(g.at(g.n - 1), 0)
        k.modifies("ptr", Ptr(last.o, off), 8)

        def post(res):
            k.ensures(eq(res, dest), "the head stays")
            k.ensures(eq(k.fld(last, sname, "next"), item), "the item follows the last element")
        return post
    register(name, c, file)


def mk_count(name, sname, file, strs=()):
    def c(k, head):
        g = GList(k, sname, fun("Owner." + sname, I, I)(Z(head.o)))
        g.require(head=head)
        k.terms.append(("length", g.n))

        def post(res):
            k.ensures(eq(res, g.n), "the number of elements")
        return post
    register(name, c, file)


for _t, (_s, _) in FRAMES.items():
    mk_append("sr_%s_frame_append" % _t, _s, "%s_frame.c" % _t)
for _t in TSTRS:
    mk_append("sr_%s_thread_append" % _t, CONT[_t], "%s_thread.c" % _t)
mk_append("sr_gdb_sharedlib_append", "sr_gdb_sharedlib", "gdb_sharedlib.c")
mk_append("sr_rpm_package_append", "sr_rpm_package", "rpm.c")
mk_append("sr_rpm_consistency_append", "sr_rpm_consistency", "rpm.c")
mk_count("sr_gdb_sharedlib_count", "sr_gdb_sharedlib", "gdb_sharedlib.c")
mk_count("sr_rpm_package_count", "sr_rpm_package", "rpm.c")


@contract("sr_java_frame_get_last", file="java_frame.c")
def _(k, head):
    g = GList(k, "sr_java_frame", fun("Owner.sr_java_frame", I, I)(Z(head.o)))
    g.require(head=head)

    def post(res):
        k.ensures(g.is_at(res, g.n - 1), "the last element, NULL for no frames")
    return post


def mk_tcount(t):
    sname = "sr_%s_stacktrace" % t

    def c(k, s):
        k.requires(k.valid(s, k.sizeof(sname)))
        g = GList(k, CONT[t], s.o)
        g.require(head=k.fld(s, sname, "threads"))
        k.terms.append(("length", g.n))

        def post(res):
            k.ensures(eq(res, g.n), "the number of threads")
        return post
    register("sr_%s_stacktrace_get_thread_count" % t, c, "%s_stacktrace.c" % t)


mk_tcount("gdb")
mk_tcount("core")


# ---------------------------------------------------------------- free
def mk_free(name, sname, strs, file):
    def c(k, p):
        if k.case(eq(p.o, 0)):
            return lambda res: None
        k.requires(And(k.valid(p, k.sizeof(sname)), eq(p.p, 0)), "an element")
        ss = [k.fld(p, sname, f) for f in strs]
        for f, s in zip(strs, ss):
            k.requires(Or(eq(s.o, 0), And(alive(k.st.al, s.o), eq(s.p, 0), ne(s.o, p.o), lt(0, s.o))), "%s is NULL or an owned string" % f)
        for i, a in enumerate(ss):
            for b in ss[:i]:
                k.requires(Or(eq(a.o, 0), ne(a.o, b.o)), "strings are not shared")
        objs = [p.o] + [s.o for s in ss]
        k.frees_all(lambda x: And(ne(x, 0), Or(*[eq(x, o) for o in objs])))

        def post(res):
            for o in objs:
                k.ensures(Or(eq(o, 0), Not(alive(k.st.al, o))), "the element and its strings are freed")
        return post
    register(name, c, file)


for _t, (_s, _) in FRAMES.items():
    mk_free("sr_%s_frame_free" % _t, _s, STR_ALL[_t], "%s_frame.c" % _t)
mk_free("sr_gdb_sharedlib_free", "sr_gdb_sharedlib", ["soname"], "gdb_sharedlib.c")


def frames(k, t, th, types=False):
    g = GList(k, FRAMES[t][0], th.o, strs=STR_ALL[t])
    k.requires(And(k.valid(th, k.sizeof(CONT[t])), eq(th.p, 0)), "container of the frames")
    g.require(head=k.fld(th, CONT[t], "frames"), own=True, container=th.o, type=CODES[t] if types else None)
    if types:
        k.requires(eq(k.fld(th, CONT[t], "type"), CODES[t]), "type tag of the container")
    return g


def mk_thread_free(t):
    def c(k, th):
        if k.case(eq(th.o, 0)):
            return lambda res: None
        g = frames(k, t, th)
        ss = []
        for m, f in enumerate(TSTRS[t]):
            s = k.fld(th, CONT[t], f)
            k.requires(Or(eq(s.o, 0), And(alive(k.st.al, s.o), eq(s.p, 0), lt(0, s.o), ne(s.o, th.o), g.own(s.o) == -1)), "%s is an owned string" % f)
            ss.append(s.o)
        k.frees_all(lambda x: And(lt(0, x), Or(eq(x, th.o), *[eq(x, s) for s in ss])))
        k.frees_all(g.owned(0, g.n))

        def post(res):
            k.ensures(Not(alive(k.st.al, th.o)), "the thread is freed")
        return post
    register("sr_%s_thread_free" % t, c, "%s_thread.c" % t)


for _t in ("core", "gdb", "java"):
    mk_thread_free(_t)


@contract("sr_java_frame_free_full", file="java_frame.c")
def _(k, head):
    if k.mode == "call" and k.eng.fnname == "sr_java_thread_free":
        g = k.eng.k_main.lists[0]
        k.requires(g.is_at(head, 0), "head of the list")
    else:
        g = GList(k, "sr_java_frame", fun("Owner.sr_java_frame", I, I)(Z(head.o)), strs=STR_ALL["java"])
        g.require(head=head, own=True)
    k.frees_all(g.owned(0, g.n))

    return lambda res: None


# ---------------------------------------------------------------- removal
def member(g, fr):
    p = g.pos(fr.o)
    return z3.And(Z(fr.o) != 0, Z(fr.p) == 0, 0 <= p, p < g.n, g.at(p) == Z(fr.o)), p


def mk_remove(t, types):
    def c(k, th, fr):
        g = frames(k, t, th, types)
        mem, K = member(g, fr)
        if types:
            k.requires(And(k.valid(fr, 4), eq(k.ld("i32", fr), CODES[t])), "frame of the same type")
        k.bounds.append(("position of the frame", z3.If(mem, K, g.n)))
        if not k.case(mem):
            def post(res):
                k.ensures(Not(k.eng.tobool(res)), "not found")
            return post
        noff, _ = k.foff(FRAMES[t][0], "next")
        foff, _ = k.foff(CONT[t], "frames")
        cell = Ptr(th.o, foff) if k.case(eq(K, 0)) else Ptr(g.at(K - 1), noff)
        k.modifies("ptr", cell, 8)
        k.frees_all(g.owned(K, K + 1))

        def post(res):
            k.ensures(k.eng.tobool(res), "found")
            k.ensures(g.is_at(k.ld("ptr", cell), K + 1), "the predecessor is linked to the successor")
            k.ensures(Not(alive(k.st.al, fr.o)), "the frame is freed")
        return post
    return c


def mk_above(t, types):
    def c(k, th, fr):
        g = frames(k, t, th, types)
        mem, K = member(g, fr)
        if types:
            k.requires(And(k.valid(fr, 4), eq(k.ld("i32", fr), CODES[t])), "frame of the same type")
        k.bounds.append(("position of the frame", z3.If(mem, K, g.n)))
        if not k.case(mem):
            def post(res):
                k.ensures(Not(k.eng.tobool(res)), "not found")
            return post
        foff, _ = k.foff(CONT[t], "frames")
        k.modifies("ptr", Ptr(th.o, foff), 8)
        k.frees_all(g.owned(0, K))

        def post(res):
            k.ensures(k.eng.tobool(res), "found")
            k.ensures(eq(k.fld(th, CONT[t], "frames"), fr), "the frame is now the first one")
        return post
    return c


for _t in ("gdb", "java"):
    register("sr_%s_thread_remove_frame" % _t, mk_remove(_t, False), "%s_thread.c" % _t)
    register("sr_%s_thread_remove_frames_above" % _t, mk_above(_t, False), "%s_thread.c" % _t)
register("sr_koops_stacktrace_remove_frame", mk_remove("koops", False), "koops_stacktrace.c")


def mk_below(t):
    def c(k, th, n):
        g = frames(k, t, th)
        k.requires(le(0, n), "documented: n is not negative")
        noff, _ = k.foff(FRAMES[t][0], "next")
        foff, _ = k.foff(CONT[t], "frames")
        m = z3.If(Z(n) < g.n, Z(n), g.n)
        k.bounds.append(("kept", m))
        cell = Ptr(th.o, foff) if k.case(Or(eq(n, 0), eq(g.n, 0))) else Ptr(g.at(m - 1), noff)
        k.modifies("ptr", cell, 8)
        k.frees_all(g.owned(m, g.n))

        def post(res):
            k.ensures(eq(k.ld("ptr", cell).o, 0), "the list ends after the first n frames")
        return post
    register("sr_%s_thread_remove_frames_below_n" % t, c, "%s_thread.c" % t)


for _t in ("gdb", "java"):
    mk_below(_t)


@contract("sr_gdb_stacktrace_remove_threads_except_one", file="gdb_stacktrace.c")
def _(k, s, th):
    T, FR = "sr_gdb_thread", "sr_gdb_frame"
    k.requires(And(k.valid(s, k.sizeof("sr_gdb_stacktrace")), eq(s.p, 0)), "stack trace")
    g = GList(k, T, s.o)
    g.require(head=k.fld(s, "sr_gdb_stacktrace", "threads"))
    i, j, o = z3.Int("i!t"), z3.Int("j!t"), z3.Int("o!t")
    nd = g.at(i)
    inr = z3.And(0 <= i, i < g.n)
    fr = GList(k, FR, nd, strs=STR_ALL["gdb"])
    fr.require([i], inr, own=True, head=Ptr(g.fread("frames", nd).o, g.fread("frames", nd).p), container=nd)
    k.lists.remove(fr)
    town = fun("ThreadOwn", I, I)
    k.requires(z3.ForAll([i], z3.Implies(inr, town(nd) == i), patterns=[nd]), "every thread is its own")
    w = fr.own(o)
    k.requires(z3.ForAll([i, o], z3.Implies(z3.And(inr, 0 <= w, w < fr.n), town(o) == i), patterns=[w]), "what a frame owns belongs to its thread, no frame is shared")
    ti = town(o)
    w2 = fr.own_of(g.at(ti), o)
    k.requires(z3.ForAll([o], z3.Implies(z3.And(0 <= ti, ti < g.n), z3.Or(o == g.at(ti), z3.And(0 <= w2, w2 < fr.length(g.at(ti))))), patterns=[ti]), "nothing else belongs to a thread")
    k.requires(town(Z(s.o)) == -1, "the stack trace belongs to no thread")
    mem, K = member(g, th)
    k.requires(mem, "documented: the thread belongs to the stack trace")
    k.freed_sets.append(("all but the kept thread", lambda it: (lambda x: z3.And(Z(x) > 0, 0 <= town(Z(x)), town(Z(x)) < Z(it), town(Z(x)) != K))))
    k.modifies("ptr", Ptr(s.o, k.foff("sr_gdb_stacktrace", "threads")[0]), 8)
    k.modifies("ptr", Ptr(th.o, k.foff(T, "next")[0]), 8)
    k.frees_all(lambda x: z3.And(Z(x) > 0, 0 <= town(Z(x)), town(Z(x)) < g.n, town(Z(x)) != K))

    def post(res):
        k.ensures(eq(k.fld(s, "sr_gdb_stacktrace", "threads"), th), "the thread is the only one left")
        k.ensures(eq(k.fld(th, T, "next").o, 0), "the thread is the only one left")
        k.ensures(k.valid(th, k.sizeof(T)), "the thread stays")
    return post


def mk_gcount(t):
    """the generic frame count of a thread of type t"""
    def c(k, th):
        g = frames(k, t, th, True)
        k.terms.append(("length", g.n))

        def post(res):
            k.ensures(eq(res, g.n), "the number of frames")
        return post
    return c

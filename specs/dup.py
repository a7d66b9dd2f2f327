"""Duplicating frames, threads, stack traces and library lists.
Every field of the struct is covered (the list of fields comes from the debug information): scalars are equal, strings are NULL
with the original's or freshly allocated with equal content, sub-lists are the result of the callee's contract for the original's
sub-list, `next` is the result of the contract for the rest of the list.  The frame condition is empty: nothing that existed is written."""
from spec import *
from engine import Skip
from lists import GList, fun, pats
from cmp import FRAMES, CODES
from lst import CONT, TSTRS, STR_ALL, register

STRUCTS = {s: STR_ALL[t] for t, (s, _) in FRAMES.items()}
STRUCTS.update({CONT[t]: TSTRS[t] for t in TSTRS})
STRUCTS.update({"sr_gdb_sharedlib": ["soname"], "sr_core_stacktrace": ["executable"], "sr_gdb_stacktrace": [], "sr_java_stacktrace": [],
                "sr_koops_stacktrace": ["version", "raw_oops", "reason"], "sr_python_stacktrace": ["exception_name"],
                "sr_ruby_stacktrace": ["exception_name"], "sr_js_stacktrace": ["exception_name"]})
FD = {t: "sr_%s_frame_dup" % t for t in FRAMES}
SUBS = {"sr_%s_thread" % t: {"frames": (FD[t], FRAMES[t][0], 1)} for t in TSTRS}
SUBS.update({"sr_%s_stacktrace" % t: {"frames": (FD[t], FRAMES[t][0], 1)} for t in ("koops", "python", "ruby", "js")})
SUBS.update({"sr_%s_stacktrace" % t: {"threads": ("sr_%s_thread_dup" % t, CONT[t], 1)} for t in TSTRS})
SUBS["sr_gdb_stacktrace"].update({"crash": ("sr_gdb_frame_dup", "sr_gdb_frame", 0), "libs": ("sr_gdb_sharedlib_dup", "sr_gdb_sharedlib", 1)})


def others(k, sname):
    """the remaining fields: compared as values"""
    subs = SUBS.get(sname, {})
    return [f for f, d in k.struct(sname)[1].items() if f not in STRUCTS[sname] and f not in subs and f not in ("next", "modules", "crash_thread")]


def is_elem(g, p):
    """p is an element of g"""
    i = g.pos(p.o)
    return z3.And(Z(p.o) != 0, Z(p.p) == 0, 0 <= i, i < g.n, g.at(i) == Z(p.o))


def listinv(k, sname, owner, head, regs, bound=(), guard=True):
    g = GList(k, sname, owner, tag=sname, strs=STRUCTS[sname])
    g.require(bound, guard, head=head)
    if bound:
        k.lists.remove(g)
    else:
        regs.setdefault(sname, []).append(g)
    sub = SUBS.get(sname)
    if sub:
        (f, (_, fs, _)), = sub.items()
        i = z3.Int("i!sub")
        nd = g.at(i)
        h = g.fread(f, nd)
        listinv(k, fs, nd, h, regs, [i], z3.And(0 <= i, i < g.n))
    return g


def chain(k, g, st, w0, w1, emit):
    """g is a chain of distinct objects allocated between the two marks"""
    i = z3.Int("i!c")
    nd = g.at(i)
    inr = z3.And(0 <= i, i < g.n)
    size = k.sizeof(g.sname)
    nx = g.fread("next", nd, st)
    emit(z3.ForAll([i], z3.Implies(inr, z3.And(Z(w0) < nd, nd <= Z(w1), Z(alive(st.al, nd)), Size(nd) == size, g.pos(nd) == i)), patterns=[nd]), "the copies are distinct new objects")
    emit(z3.ForAll([i], z3.Implies(inr, g.is_at(nx, i + 1)), patterns=[nd]), "the copies are chained in the order of the originals")


def elem_pre(k, x, sname):
    k.requires(And(k.valid(x, k.sizeof(sname)), eq(x.p, 0)), "an object")
    for f in STRUCTS[sname]:
        v = k.fld(x, sname, f)
        k.requires(Or(eq(v.o, 0), k.valid_str(v)), "%s is a string or NULL" % f)


def kept(k, rec, name):
    """nothing allocated by the call has been written or freed since"""
    w0, w1, mem, al = rec["w0"], rec["w1"], rec["mem"], rec["al"]
    x, j = fresh_int("cx"), fresh_int("cj")
    inr = z3.And(Z(w0) < x, x <= Z(w1))
    for cls in k.st.mem:
        if k.st.mem[cls] is mem[cls]:
            continue
        a, b = k.eng._read(k.st, k.st.mem[cls], cls, x, j, False), k.eng._read(k.st, mem[cls], cls, x, j, False)
        k.ensures(Implies(inr, eq(a, b)), "%s is left as it was returned" % name)
    k.ensures(Implies(inr, Z(alive(k.st.al, x)) == Z(alive(al, x))), "%s is left as it was returned" % name)


def body_post(k, x, sname, res, siblings, name):
    """what is proved about the copy res of x"""
    old = lambda f: k.fld(x, sname, f, k.entry)
    for f in others(k, sname):
        k.ensures(eq(k.fld(res, sname, f), old(f)), "equal %s" % f)
    strs = []
    for f in STRUCTS[sname]:
        o, r = old(f), k.fld(res, sname, f)
        strs.append(r)
        if k.case(eq(o.o, 0)):
            k.ensures(eq(r.o, 0), "absent %s" % f)
        else:
            k.newstr(r, sub(k.eng.nul(k.entry, o.o, o.p), o.p), k.eng.rank(k.entry, o), None, f)
    for i, a in enumerate(strs):
        k.ensures(Or(eq(a.o, 0), ne(a.o, res.o)), "the copy's strings are its own")
        for b in strs[:i]:
            k.ensures(Or(eq(a.o, 0), ne(a.o, b.o)), "the copy's strings are its own")
    recs = k.st.ghost.get("dups", ())
    todo = dict(SUBS.get(sname, {}))
    if siblings is not None:
        todo["next"] = (name, sname, 1)
    for f, (fn, fs, sib) in todo.items():
        o, r = old(f), k.fld(res, sname, f)
        if f == "next" and k.case(Not(siblings)):
            k.ensures(eq(r.o, 0), "the copy is not linked to the original's siblings")
        elif k.case(eq(o.o, 0)):
            k.ensures(eq(r.o, 0), "no %s" % f)
        else:
            k.ensures(Or(*[And(eq(c["arg"], o), eq(c["res"], r), c["sib"] if sib else Not(c["sib"])) for c in recs if c["fn"] == fn]), "%s is the copy of the original's %s" % (f, f))
    for c in recs:
        kept(k, c, c["fn"])


def mk_dup(name, sname, file, has_sib, nullable=False, typ=None, **opts):
    def c(k, x, siblings=None):
        if nullable and k.case(eq(x.o, 0)):
            def post(res):
                k.ensures(eq(res.o, 0), "nothing to copy")
            return post
        sib = k.eng.tobool(siblings) if siblings is not None else None
        if has_sib and sib is None:
            sib = False
        if typ is not None:
            k.requires(And(k.valid(x, 4), eq(k.ld("i32", x), typ)), "type tag")
        if k.mode == "verify":
            regs = k.data["dup"] = {}
            elem_pre(k, x, sname)
            if has_sib:
                g = listinv(k, sname, fun("Owner." + sname, I, I)(Z(x.o)), x, regs)
            subs = {f: v for f, v in SUBS.get(sname, {}).items()}
            for f, (_, fs, s) in subs.items():
                if sname.endswith("thread") or sname == "sr_gdb_stacktrace":
                    own = x.o if s else fun("Owner.crash", I, I)(Z(x.o))
                else:
                    own = x.o
                if has_sib and f == "frames":
                    gg = GList(k, fs, x.o, tag=fs, strs=STRUCTS[fs])
                    k.lists.remove(gg)
                    regs.setdefault(fs, []).append(gg)
                    k.st.fact(gg.is_at(k.fld(x, sname, f), 0))
                else:
                    listinv(k, fs, own, k.fld(x, sname, f), regs)
            if sname == "sr_core_stacktrace":
                ct = k.fld(x, sname, "crash_thread")
                k.requires(Or(eq(ct.o, 0), S(is_elem(regs["sr_core_thread"][0], ct))), "the crash thread is NULL or one of the threads")
            if sname == "sr_koops_stacktrace":
                pass
        else:
            gs = k.eng.k_main.data.get("dup", {}).get(sname, [])
            if has_sib:
                k.requires(S(z3.Or(False, *[is_elem(g, x) for g in gs])), "an element of a well-formed list")
            elem_pre(k, x, sname)
        k.may_alloc()

        def post(res):
            st = k.st
            if k.mode == "call":
                k.ensures(ne(res.o, 0))
                k.fresh(res, k.sizeof(sname))
                for f in others(k, sname):
                    k.ensures(eq(k.fld(res, sname, f), k.fld(x, sname, f, k.entry)), f)
                st.ghost["dups"] = st.ghost.get("dups", ()) + ({"fn": name, "arg": x, "res": res, "sib": sib, "w0": k.wm0, "w1": st.wm, "mem": dict(st.mem), "al": st.al},)
                if has_sib and sib is not False:
                    g2 = GList(k.eng.k_main, sname, res.o)
                    k.eng.k_main.lists.remove(g2)
                    k.eng.k_main.data.setdefault("copies", {})[res.o.get_id()] = g2
                    if sname == "sr_core_thread" and k.eng.k_main.name == "sr_core_stacktrace_dup":
                        k.eng.k_main.lists.append(g2)
                    for g in gs:
                        k.ensures(Implies(And(sib, S(is_elem(g, x))), g2.n == g.n - g.pos(x.o)))
                    k.ensures(Implies(sib, eq(g2.at(0), res.o)))
                    chain(k, g2, st, k.wm0, st.wm, lambda c, n: k.ensures(Implies(sib, c), n))
                return
            k.fresh(res, k.sizeof(sname))
            body_post(k, x, sname, res, sib, name)
            if has_sib and siblings is not None and k.case(sib):
                g2 = GList(k, sname, res.o)
                k.lists.remove(g2)
                nx = k.fld(x, sname, "next", k.entry)
                i, o = z3.Int("i!d"), z3.Int("o!d")
                if k.case(eq(nx.o, 0)):
                    st.fact(z3.And(g2.n == 1, g2.at(0) == Z(res.o)))
                    st.fact(z3.ForAll([o], g2.pos(o) == z3.If(o == Z(res.o), 0, -1), patterns=[g2.pos(o)]))
                else:
                    # definition of the ghost sequence of the copies (its owner, the new object, occurs nowhere else)
                    r = k.fld(res, sname, "next")
                    g3 = GList(k, sname, r.o)
                    k.lists.remove(g3)
                    st.fact(z3.And(g2.n == 1 + g3.n, g2.at(0) == Z(res.o)))
                    st.fact(z3.ForAll([i], z3.Implies(i >= 1, g2.at(i) == g3.at(i - 1)), patterns=[g2.at(i)]))
                    st.fact(z3.ForAll([o], g2.pos(o) == z3.If(o == Z(res.o), 0, 1 + g3.pos(o)), patterns=[g2.pos(o)]))
                k.ensures(g2.n == k.data["dup"][sname][0].n, "as many copies as originals")
                chain(k, g2, st, k.eng.entry_wm, st.wm, k.ensures)
            if sname == "sr_koops_stacktrace":
                o, r = k.fld(x, sname, "modules", k.entry), k.fld(res, sname, "modules")
                cs = k.st.ghost.get("strdupv", ())
                k.ensures(Or(*[And(eq(c[0], o), eq(c[1], r)) for c in cs]), "the module list is the copy of the original's")
            if sname == "sr_core_stacktrace":
                o, r = k.fld(x, sname, "crash_thread", k.entry), k.fld(res, sname, "crash_thread")
                if k.case(eq(o.o, 0)):
                    k.ensures(eq(r.o, 0), "no crash thread")
                else:
                    g = k.data["dup"]["sr_core_thread"][0]
                    g2 = GList(k, "sr_core_thread", k.fld(res, sname, "threads").o)
                    k.lists.remove(g2)
                    k.ensures(And(eq(r.p, 0), eq(r.o, g2.at(g.pos(o.o)))), "the crash thread is the copy of the original's crash thread")
        return post
    register(name, c, file, **opts)
    return c


GEN = {}
for _t, (_s, _) in FRAMES.items():
    mk_dup(FD[_t], _s, "%s_frame.c" % _t, True, nullable=_t == "gdb")
for _t in TSTRS:
    mk_dup("sr_%s_thread_dup" % _t, CONT[_t], "%s_thread.c" % _t, True)
    GEN[_t] = mk_dup("gen", CONT[_t], "", True, typ=CODES[_t])
    del CONTRACTS["gen"]
mk_dup("sr_gdb_sharedlib_dup", "sr_gdb_sharedlib", "gdb_sharedlib.c", True)
for _t in ("core", "gdb", "java", "koops", "python", "ruby", "js"):
    mk_dup("sr_%s_stacktrace_dup" % _t, "sr_%s_stacktrace" % _t, "%s_stacktrace.c" % _t, False)
    if _t not in GEN:
        GEN[_t] = mk_dup("gen", "sr_%s_stacktrace" % _t, "", False, typ=CODES[_t])
        del CONTRACTS["gen"]


def mk_gen(t):
    """sr_thread_dup on a thread of type t: the result is the one of the type's own function, for exactly this thread"""
    own = "sr_%s_thread_dup" % t if t in TSTRS else "sr_%s_stacktrace_dup" % t
    sname = CONT[t]

    def c(k, x):
        k.requires(And(k.valid(x, 4), eq(k.ld("i32", x), CODES[t])), "type tag")
        regs = k.data["dup"] = {}
        elem_pre(k, x, sname)
        if t in TSTRS:
            listinv(k, sname, fun("Owner." + sname, I, I)(Z(x.o)), x, regs)
        k.may_alloc()

        def post(res):
            recs = k.st.ghost.get("dups", ())
            k.fresh(res, k.sizeof(sname))
            k.ensures(Or(*[And(eq(c["arg"], x), eq(c["res"], res), Not(c["sib"]) if c["sib"] is not None else True) for c in recs if c["fn"] == own]), "the type's own copy of this thread")
            for c in recs:
                kept(k, c, c["fn"])
        return post
    return c


@loops("sr_core_stacktrace_dup")
def _(eng, L):
    k = eng.k_main
    regs = k.data.get("dup", {})
    if not regs.get("sr_core_thread"):
        return
    g = regs["sr_core_thread"][0]
    x = k.vals[0]
    off, _ = k.foff("sr_core_stacktrace", "crash_thread")
    toff, _ = k.foff("sr_core_stacktrace", "threads")
    ct = k.fld(x, "sr_core_stacktrace", "crash_thread", k.entry)
    for n, v in sorted(L.entry.frames[L.depth - 1].loc.items()):
        if not isinstance(v, Ptr):
            continue

        def inv(lv, n=n):
            r = lv.var(n)
            if not isinstance(r, Ptr):
                raise Skip()
            rd = lambda o: k.eng._read(lv.s, lv.s.mem["ptr"], "ptr", r.o, o, False)
            c, h = rd(off), rd(toff)
            g2 = GList(k, "sr_core_thread", h.o)
            k.lists.remove(g2)
            j = g.pos(ct.o)
            return z3.If(z3.And(Z(ct.o) != 0, j < Z(lv.it)), z3.And(Z(c.o) == g2.at(j), Z(c.p) == 0), Z(c.o) == 0)
        yield "crash thread of %s found so far" % n, inv

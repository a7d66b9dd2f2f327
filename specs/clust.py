"""Growing index lists of the clustering, dendrograms and cutting them"""
from spec import *
from engine import Skip
from lists import pats
from sym import lt

F = "cluster.c"
C, D, SC = "cluster", "sr_dendrogram", "sr_cluster"
MAXN = 1 << 28
j = z3.Int("j!cl")
AT = z3.Function("AtPosition", I, z3.BoolSort())
TT = z3.Function("Group", I, z3.BoolSort())
QQ = z3.Function("Member", I, z3.BoolSort())


def i32(k, st, o, i):
    return Z(k.eng._read(st, st.mem["i32"], "i32", o, S(4 * Z(i)), False))


def idxlist(k, c, name="cluster"):
    k.requires(And(eq(c.p, 0), k.valid(c, k.sizeof(C))), name)
    s, a, o = k.fld(c, C, "size"), k.fld(c, C, "alloced"), k.fld(c, C, "objects")
    k.requires(And(le(0, s), le(s, a), lt(a, MAXN)), "%s: size within the allocation" % name)
    k.requires(Or(And(eq(o.o, 0), eq(a, 0)), And(lt(0, o.o), eq(o.p, 0), lt(0, a), ne(o.o, c.o), k.valid(o, S(4 * Z(a))), eq(Size(Z(o.o)), S(4 * Z(a))))), "%s: array" % name)
    return s, a, o


def idxpost(k, c, name="list"):
    """c is a well-formed list again; returns (size, array object)"""
    s, a, o = k.fld(c, C, "size"), k.fld(c, C, "alloced"), k.fld(c, C, "objects")
    return s, a, o, And(le(0, s), le(s, a), Or(And(eq(o.o, 0), eq(a, 0)), And(lt(0, o.o), eq(o.p, 0), lt(0, a), ne(o.o, c.o), k.valid(o, S(4 * Z(a))), eq(Size(Z(o.o)), S(4 * Z(a))))))


def mods(k, c):
    for f in ("size", "alloced", "objects"):
        off, cls = k.foff(C, f)
        k.modifies(cls, Ptr(c.o, off), 8 if f == "objects" else 4)


@contract("cluster_add_index", file=F)
def _(k, c, index):
    s, a, o = idxlist(k, c)
    k.requires(lt(a, MAXN // 2), "room to grow")
    mods(k, c)
    k.modifies("i32", Ptr(o.o, 0), None)
    k.may_alloc()
    k.may_free(lambda x: eq(x, o.o))
    ent = k.st.copy() if k.mode == "call" else k.entry
    old = lambda i: i32(k, ent, o.o, i)

    def post(res):
        s2, a2, o2, ok = idxpost(k, c)
        k.ensures(ok, "a list again")
        k.ensures(eq(s2, add(s, 1)), "one longer")
        k.ensures(le(a2, S(z3.If(Z(s) < Z(a), Z(a), z3.If(Z(s) > 0, 2 * Z(s), 1)))), "grows by at most the double")
        k.ensures(Or(eq(o2.o, o.o), lt(k.eng.entry_wm if k.mode == "verify" else k.wm0, o2.o)), "the same array or a new one")
        new = i32(k, k.st, o2.o, j)
        k.ensures(z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < Z(s)), new == old(j)), **pats(new)), "what was there stays")
        k.ensures(eq(i32(k, k.st, o2.o, s), index), "the index is last")
    return post


@contract("cluster_merge", file=F)
def _(k, d, c):
    s, a, o = idxlist(k, d, "destination")
    s1, a1, o1 = idxlist(k, c, "source")
    k.requires(And(ne(c.o, d.o), ne(o.o, c.o), ne(o1.o, d.o), Or(ne(o.o, o1.o), eq(o.o, 0))), "separate lists")
    k.requires(And(lt(add(s, s1), MAXN // 8), lt(a, MAXN // 4)), "room to grow")
    mods(k, d)
    k.modifies("i32", Ptr(o.o, 0), None)
    k.may_alloc()
    k.may_free(lambda x: eq(x, o.o))
    ent = k.st.copy() if k.mode == "call" else k.entry
    k.data["merge"] = (d, c, s, a, o, s1, o1, ent)

    def post(res):
        s2, a2, o2, ok = idxpost(k, d)
        k.ensures(ok, "a list again")
        k.ensures(eq(s2, add(s, s1)), "both lengths")
        k.ensures(merged(k, k.st, k.data["merge"], s1), "its own indices, then the others in order")
    return post


def merged(k, st, m, n):
    d, c, s, a, o, s1, o1, ent = m
    o2 = k.fld(d, C, "objects", st)
    new = i32(k, st, o2.o, j)
    q = S(j - Z(s))
    return z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < Z(s) + Z(n)), new == z3.If(j < Z(s), i32(k, ent, o.o, j), i32(k, ent, o1.o, q))), **pats(new))


@loops("cluster_merge")
def _(eng, L):
    k = eng.k_main
    if "merge" not in k.data:
        return
    d, c, s, a, o, s1, o1, ent = k.data["merge"]

    def inv(lv):
        st0 = k.st
        k.st = lv.s
        try:
            s2, a2, o2, ok = idxpost(k, d)
        finally:
            k.st = st0
        return And(ok, Or(eq(o2.o, o.o), lt(eng.entry_wm, o2.o)), merged(k, lv.s, k.data["merge"], lv.it),
                   Or(le(Z(a2), Z(a)), le(Z(a2), 2 * (Z(s2))), le(Z(a2), 1)), alive(lv.s.al, c.o), alive(lv.s.al, d.o), Or(eq(o1.o, 0), alive(lv.s.al, o1.o)))
    yield "merged so far", inv
    for f in ("size", "objects"):
        yield "source %s" % f, lambda lv, f=f: eq(k.fld(c, C, f, lv.s), k.fld(c, C, f, ent))
    yield "size so far", lambda lv: And(le(0, lv.it), le(lv.it, s1), eq(k.fld(d, C, "size", lv.s), S(Z(s) + Z(lv.it))))
    same = lambda lv: i32(k, lv.s, o1.o, j)
    yield "the source stays", lambda lv: z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < Z(s1)), same(lv) == i32(k, ent, o1.o, j)), **pats(same(lv)))
    for n, t in L.locals:
        yield "%s counts" % n, lambda lv, n=n: eq(lv.var(n), lv.it)


@contract("cluster_reverse", file=F)
def _(k, c):
    s, a, o = idxlist(k, c)
    k.modifies("i32", Ptr(o.o, 0), S(4 * Z(s)))
    ent = k.st.copy() if k.mode == "call" else k.entry
    k.data["rev"] = (c, s, o, ent)
    k.st.fact(z3.ForAll([j], QQ(j), patterns=[QQ(j)]))

    def post(res):
        new = i32(k, k.st, o.o, j)
        k.ensures(z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < Z(s), QQ(j)), new == i32(k, ent, o.o, S(Z(s) - 1 - j))), patterns=[QQ(j)]), "in reverse order")
    return post


@loops("cluster_reverse")
def _(eng, L):
    k = eng.k_main
    if "rev" not in k.data:
        return
    c, s, o, ent = k.data["rev"]

    def inv(lv):
        new = i32(k, lv.s, o.o, j)
        it = Z(lv.it)
        return z3.And(it >= 0, 2 * it <= Z(s), QQ(it), QQ(Z(s) - 1 - it), z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < Z(s), QQ(j)), new == z3.If(z3.Or(j < it, j > Z(s) - 1 - it), i32(k, ent, o.o, S(Z(s) - 1 - j)), i32(k, ent, o.o, j))), patterns=[QQ(j)]))
    yield "outer part reversed", inv
    for n, t in L.locals:
        yield "%s counts" % n, lambda lv, n=n: eq(lv.var(n), lv.it)


# ---------------------------------------------------------------- new objects
@contract("sr_dendrogram_new", file=F)
def _(k, size):
    k.requires(And(lt(1, size), lt(size, MAXN)), "two objects or more")
    k.may_alloc()

    def post(res):
        k.fresh(res, k.sizeof(D))
        k.ensures(eq(k.fld(res, D, "size"), size), "size")
        o, m = k.fld(res, D, "order"), k.fld(res, D, "merge_levels")
        k.fresh(o, S(4 * Z(size)), "order is new")
        k.fresh(m, S(4 * Z(size) - 4), "merge levels are new")
        k.ensures(And(ne(o.o, m.o), ne(o.o, res.o), ne(m.o, res.o)), "distinct")
    return post


LOG = -950001       # ghost: the groups made so far, in order
CNT = -950002


@contract("sr_cluster_new", file=F)
def _(k, size):
    k.requires(And(lt(0, size), lt(size, MAXN)), "one object or more")
    k.may_alloc()

    def post(res):
        k.fresh(res, k.sizeof(SC))
        k.ensures(eq(k.fld(res, SC, "size"), size), "size")
        o = k.fld(res, SC, "objects")
        k.fresh(o, S(4 * Z(size)), "objects are new")
        k.ensures(ne(o.o, res.o), "distinct")
        k.ensures(eq(k.fld(res, SC, "next").o, 0), "not in a list")
        if k.mode == "call" and "cut" in k.eng.k_main.data:
            # ghost: append to the log
            st = k.st
            n0 = k.eng._read(st, st.mem["i64"], "i64", CNT, 0, False)
            st.mem["ptr"] = Store(st.mem["ptr"], LOG, S(8 * Z(n0)), res)
            st.mem["i64"] = Store(st.mem["i64"], CNT, 0, S(Z(n0) + 1))
            for d in k.eng.dryloops:
                d.writes.append(("ptr", LOG, None, st))
                d.writes.append(("i64", CNT, 0, st))
    return post


# ---------------------------------------------------------------- cutting
FIRST = z3.Function("GroupStart", I, I)     # first position of the group that position i belongs to (or would start)
CN = z3.Function("GroupsBefore", I, I)      # number of large enough groups that end before i
GE = z3.Function("GroupEnd", I, I)          # last position of the t-th of them
t_, q_ = z3.Ints("t!cl q!cl")


def count(k, st):
    return Z(k.eng._read(st, st.mem["i64"], "i64", CNT, 0, False))


def entry(k, st, t):
    return k.eng._read(st, st.mem["ptr"], "ptr", LOG, S(8 * Z(t)), False)


def head(k, st, p):
    n = count(k, st)
    h = entry(k, st, n - 1)
    return z3.If(n > 0, z3.And(Z(p.o) == Z(h.o), Z(p.p) == 0), Z(p.o) == 0)


def groups(k, st, n):
    """the groups in the log are right and linked, last first"""
    ordr = k.data["cut"]
    rd = lambda cls, o, f: k.eng._read(st, st.mem[cls], cls, o, k.foff(SC, f)[0], False)
    nd = entry(k, st, t_)
    pv = entry(k, st, t_ - 1)
    arr, nx, sz = rd("ptr", nd.o, "objects"), rd("ptr", nd.o, "next"), rd("i32", nd.o, "size")
    w0 = Z(k.eng.entry_wm)
    size = GE(t_) - FIRST(GE(t_)) + 1
    own = lambda p: z3.And(Z(p.p) == 0, Z(p.o) > w0, Z(p.o) <= Z(st.wm), Z(alive(st.al, p.o)))
    return z3.And(
        z3.ForAll([t_], z3.Implies(z3.And(0 <= t_, t_ < Z(n), TT(t_)), z3.And(own(nd), own(arr), Z(nd.o) != Z(arr.o), Z(sz) == size,
            z3.If(t_ == 0, Z(nx.o) == 0, z3.And(Z(nx.o) == Z(pv.o), Z(nx.p) == 0)))), patterns=[TT(t_)]),
        z3.ForAll([t_, q_], z3.Implies(z3.And(0 <= t_, t_ < Z(n), TT(t_), QQ(q_), 0 <= q_, q_ < size), i32(k, st, arr.o, q_) == ordr(FIRST(GE(t_)) + q_)), patterns=[z3.MultiPattern(TT(t_), QQ(q_))]))


@contract("sr_dendrogram_cut", file=F)
def _(k, d, level, minsize):
    k.requires(And(eq(d.p, 0), k.valid(d, k.sizeof(D))), "dendrogram")
    n, o, m = k.fld(d, D, "size"), k.fld(d, D, "order"), k.fld(d, D, "merge_levels")
    k.requires(And(lt(0, n), lt(n, MAXN)), "size")
    k.requires(And(lt(0, o.o), eq(o.p, 0), k.valid(o, S(4 * Z(n)))), "order")
    k.requires(Or(eq(n, 1), And(lt(0, m.o), eq(m.p, 0), k.valid(m, S(4 * Z(n) - 4)))), "merge levels")
    k.requires(count(k, k.st) == 0, "no groups yet (ghost)")
    ent = k.entry
    N = Z(n)
    ml = lambda i: Z(k.eng._read(k.st, ent.mem["f32"], "f32", m.o, S(4 * Z(i)), False))
    ordr = lambda i: i32(k, ent, o.o, i)
    i = z3.Int("i!cut")
    end = z3.Not(z3.And(i + 1 < N, ml(i) <= Z(level)))
    emits = z3.And(end, i - FIRST(i) + 1 >= Z(minsize))
    for M in (AT, TT, QQ):
        k.st.fact(z3.ForAll([i], M(i), patterns=[M(i)]))
    k.st.fact(z3.And(FIRST(0) == 0, CN(0) == 0))
    k.st.fact(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < N, AT(i)), z3.And(
        FIRST(i + 1) == z3.If(end, i + 1, FIRST(i)), CN(i + 1) == CN(i) + z3.If(emits, 1, 0), z3.Implies(emits, GE(CN(i)) == i))), patterns=[AT(i)]))
    k.data["cut"] = ordr
    k.data["cutargs"] = (n, d, o, m)
    k.may_alloc()

    def post(res):
        k.ensures(count(k, k.st) == CN(N), "every large enough group appears")
        k.ensures(z3.And(TT(CN(N) - 1), head(k, k.st, res)), "the list starts with the last group")
        k.ensures(groups(k, k.st, CN(N)), "each group consists of consecutive objects between levels above the cut")
    return post


@loops("sr_dendrogram_cut")
def _(eng, L):
    k = eng.k_main
    if "cut" not in k.data:
        return
    n, d, o, m = k.data["cutargs"]
    ordr = k.data["cut"]
    N = Z(n)
    ints = [x for x, t in L.locals if cls_of(t) == "i32"]
    ptrs = [x for x, t in L.locals if cls_of(t) == "ptr"]
    fr = L.entry.frames[L.depth - 1].loc
    every = z3.ForAll([t_], TT(t_), patterns=[TT(t_)])
    for a in ints:
        i = lambda lv, a=a: Z(lv.var(a))
        yield "%s: position" % a, lambda lv, i=i: z3.And(0 <= i(lv), i(lv) <= N, AT(i(lv)), count(k, lv.s) == CN(i(lv)), count(k, lv.s) >= 0, every)
        for b in ints:
            if a != b:
                yield "%s/%s: group start" % (a, b), lambda lv, i=i, b=b: z3.And(AT(i(lv)), Z(lv.var(b)) == FIRST(i(lv)), 0 <= Z(lv.var(b)), Z(lv.var(b)) <= i(lv), every)
    yield "groups so far", lambda lv: z3.And(count(k, lv.s) >= 0, groups(k, lv.s, count(k, lv.s)))
    for p in ptrs:
        yield "%s: head of the list" % p, lambda lv, p=p: z3.And(head(k, lv.s, lv.var(p)), TT(count(k, lv.s) - 1), every)
    # copying a group
    for x, v in sorted(fr.items()):
        if not isinstance(v, Ptr) or x in ptrs:
            continue
        for y, w in sorted(fr.items()):
            if isinstance(w, Ptr) or isinstance(w, bool) or y in ints or not (is_c(w) or z3.is_int(w)):
                continue

            def copied(lv, v=v, w=w):
                if is_c(v.o) and v.o <= 0:
                    raise Skip()
                arr = k.eng._read(lv.s, lv.s.mem["ptr"], "ptr", v.o, k.foff(SC, "objects")[0], False)
                return z3.ForAll([q_], z3.Implies(z3.And(0 <= q_, q_ < Z(lv.it), QQ(q_)), i32(k, lv.s, arr.o, q_) == ordr(Z(w) + q_)), patterns=[QQ(q_)])
            yield "%s/%s: members so far" % (x, y), copied

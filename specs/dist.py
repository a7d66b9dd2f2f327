"""Contracts of the distance matrix: positions, element access, splitting into parts, computing and merging them"""
from spec import *
from engine import Skip
from lists import GList, fun, pats
from cmp import CODES

F = "distance.c"
NMAX = 46340                    # largest n for which n*n fits an int
M, PT = "sr_distances", "sr_distances_part"
RS = z3.Function("RowStart", I, I, I)       # RowStart(n,i): number of pairs in the rows before i
ROW = z3.Function("RowOf", I, I, I)         # RowOf(n,x): row of the x-th pair in row-major order
DIST = z3.Function("Dist", I, I, I, z3.RealSort())      # distance of two threads (objects) in a metric


def rs_axioms(n):
    """RowStart by its recurrence; consequences are proved in ghost.LEMMAS['pairs']"""
    i, j, x = z3.Ints("i!rs j!rs x!rs")
    n = Z(n)
    return z3.And(
        RS(n, 0) == 0,
        z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < n), z3.And(RS(n, i + 1) == RS(n, i) + n - i - 1, RS(n, i) >= 0)), patterns=[RS(n, i)]),
        z3.ForAll([i, j], z3.Implies(z3.And(0 <= i, i < j, j < n), RS(n, j) >= RS(n, i) + n - i - 1), patterns=[z3.MultiPattern(RS(n, i), RS(n, j))]),
        z3.ForAll([x], z3.Implies(z3.And(0 <= x, x < RS(n, n - 1)), z3.And(0 <= ROW(n, x), ROW(n, x) < n - 1, RS(n, ROW(n, x)) <= x, x < RS(n, ROW(n, x) + 1))), patterns=[ROW(n, x)]),
        z3.ForAll([i, j], z3.Implies(z3.And(0 <= i, i <= j, j < RS(n, n - 1)), ROW(n, i) <= ROW(n, j)), patterns=[z3.MultiPattern(ROW(n, i), ROW(n, j))]))


def closed(n, i):
    """closed form of RowStart (lemma 'closed form', by induction)"""
    n, i = Z(n), Z(i)
    return z3.Implies(z3.And(0 <= i, i < n), 2 * RS(n, i) == 2 * i * n - i * i - i)


def lin(n, i, j):
    return RS(Z(n), Z(i)) + Z(j) - Z(i) - 1


def col(n, x):
    return Z(x) - RS(Z(n), ROW(Z(n), Z(x))) + ROW(Z(n), Z(x)) + 1


def pos(n, i, j):
    return RS(Z(n), Z(i)) + Z(j) - 1


def dims(k, m, n):
    k.requires(And(le(1, m), lt(m, n), le(n, NMAX)), "1 <= m < n, n at most %d" % NMAX)
    k.st.fact(rs_axioms(n))
    k.data["n"], k.data["m"] = n, m


def products(k, m, n):
    k.st.fact(closed(n, m))
    a, b = z3.Ints("a b")
    k.lemma(z3.ForAll([a, b], z3.Implies(z3.And(0 <= a, a < b, b <= NMAX), z3.And(a * b <= NMAX * NMAX, a * a <= NMAX * NMAX, b * b <= NMAX * NMAX, a * (b - a) >= 0, a * b >= a * a, a * b >= 0))), "products of dimensions fit")
    m, n = Z(m), Z(n)
    k.st.fact(z3.And(m * n <= NMAX * NMAX, m * m <= NMAX * NMAX, n * n <= NMAX * NMAX, m * (n - m) >= 0, m * n >= m * m, m * m >= 0))


def matrix(k, d):
    k.requires(And(k.valid(d, k.sizeof(M)), eq(d.p, 0)), "a distance matrix")
    m, n, a = k.fld(d, M, "m"), k.fld(d, M, "n"), k.fld(d, M, "distances")
    dims(k, m, n)
    k.requires(And(lt(0, a.o), eq(a.p, 0), ne(a.o, d.o), k.valid(a, S(4 * (pos(n, Z(m) - 1, Z(n) - 1) + 1)))), "the matrix has room for every pair")
    return m, n, a


@contract("get_distance_position_mn", file=F)
def _(k, m, n, i, j):
    k.requires(And(le(0, i), lt(i, j), lt(i, m), lt(j, n), le(n, NMAX)), "a pair above the diagonal")
    k.st.fact(rs_axioms(n))
    a, b = z3.Ints("a b")
    k.lemma(z3.ForAll([a, b], z3.Implies(z3.And(0 <= a, a < b, b <= NMAX), z3.And(a * b <= NMAX * NMAX, a * b >= a * a + a, a * a >= 0, b * b <= NMAX * NMAX))), "products of indices fit")
    zi, zn = Z(i), Z(n)
    k.st.fact(closed(n, i))
    k.st.fact(z3.And(zi * zn <= NMAX * NMAX, zi * zn >= zi * zi + zi, zi * zi >= 0, zn * zn <= NMAX * NMAX))

    def post(res):
        k.ensures(eq(res, S(pos(n, i, j))), "row-major position")
    return post


@contract("sr_distances_new", file=F)
def _(k, m, n):
    k.requires(And(le(1, m), le(2, n), le(n, NMAX)), "documented: positive dimensions")
    mm = S(z3.If(Z(m) >= Z(n), Z(n) - 1, Z(m)))
    dims(k, mm, n)
    k.may_alloc()

    def post(res):
        k.fresh(res, k.sizeof(M))
        res = k.result if k.mode == "call" else res
        a = k.fld(res, M, "distances")
        k.ensures(And(eq(k.fld(res, M, "m"), mm), eq(k.fld(res, M, "n"), n)), "dimensions")
        k.fresh(a, S(4 * (pos(n, Z(mm) - 1, Z(n) - 1) + 1)), "storage for every pair")
        k.ensures(ne(a.o, res.o), "storage is separate")
    return post


@contract("sr_distances_dup", file=F)
def _(k, d):
    m, n, a = matrix(k, d)
    k.may_alloc()

    def post(res):
        k.fresh(res, k.sizeof(M))
        k.ensures(And(eq(k.fld(res, M, "m"), m), eq(k.fld(res, M, "n"), n)), "same dimensions")
        b = k.fld(res, M, "distances")
        k.fresh(b, S(4 * (pos(n, Z(m) - 1, Z(n) - 1) + 1)), "own storage")
        if k.mode == "verify":
            x = fresh_int("x")
            k.ensures(Implies(And(le(0, x), le(x, S(pos(n, Z(m) - 1, Z(n) - 1)))), eq(k.eng.read(k.st, "f32", b.o, S(4 * x)), k.eng.read(k.entry, "f32", a.o, S(4 * x)))), "same values")
    return post


@contract("sr_distances_free", file=F)
def _(k, d):
    if k.case(eq(d.o, 0)):
        return lambda res: None
    k.requires(And(k.valid(d, k.sizeof(M)), eq(d.p, 0)), "a matrix")
    a = k.fld(d, M, "distances")
    k.requires(And(lt(0, a.o), eq(a.p, 0), ne(a.o, d.o), alive(k.st.al, a.o)), "its storage")
    k.frees_all(lambda x: And(lt(0, x), Or(eq(x, d.o), eq(x, a.o))))
    return lambda res: None


def pair(k, d, i, j):
    m, n, a = matrix(k, d)
    lo, hi = S(z3.If(Z(i) < Z(j), Z(i), Z(j))), S(z3.If(Z(i) < Z(j), Z(j), Z(i)))
    k.requires(Or(eq(i, j), And(le(0, lo), lt(lo, m), lt(hi, n))), "a pair of the matrix")
    k.st.fact(z3.Implies(z3.And(0 <= Z(lo), Z(lo) < Z(m), Z(lo) < Z(hi), Z(hi) < Z(n)), z3.And(RS(Z(n), Z(lo)) >= 0, RS(Z(n), Z(lo)) <= RS(Z(n), Z(m) - 1))))
    return Ptr(a.o, S(4 * pos(n, lo, hi)))


@contract("sr_distances_get_distance", file=F)
def _(k, d, i, j):
    c = pair(k, d, i, j)
    if k.case(eq(i, j)):
        def post(res):
            k.ensures(eq(res, z3.RealVal(0)), "distance to itself")
        return post
    v = k.ld("f32", c)

    def post(res):
        k.ensures(eq(res, v), "the value stored for the pair")
    return post


@contract("sr_distances_set_distance", file=F)
def _(k, d, i, j, v):
    c = pair(k, d, i, j)
    if k.case(eq(i, j)):
        return lambda res: None
    k.modifies("f32", c, 4)

    def post(res):
        k.ensures(eq(k.ld("f32", c), v), "the value is stored for the pair")
    return post


@contract("normalize_and_compare", file=F)
def _(k, t1, t2, ty):
    """assumed: a deterministic function of both threads and the metric that leaves them unchanged"""
    k.requires(And(k.valid(t1, 4), k.valid(t2, 4)), "two threads")

    def post(res):
        k.ensures(eq(res, DIST(Z(t1.o), Z(t2.o), Z(ty))), "the distance")
    return post


@contract("thread_list_checksum", file=F)
def _(k, threads, n):
    """assumed: has no side effects"""
    return lambda res: None


def threads_ok(k, th, n, types=False):
    k.requires(And(k.valid(th, S(8 * Z(n)))), "array of threads")
    st = k.st
    o = z3.Int("o!th")
    p = k.eng._read(st, st.mem["ptr"], "ptr", th.o, o, False)
    t = Z(k.eng._read(st, st.mem["i32"], "i32", p.o, p.p, False))
    t0 = k.ld("ptr", th)
    ty = Z(k.ld("i32", t0))
    k.requires(z3.ForAll([o], z3.Implies(z3.And(Z(th.p) <= o, o < Z(th.p) + 8 * Z(n), (o - Z(th.p)) % 8 == 0),
                                         z3.And(Z(k.valid(p, 4)), t == ty if types else True)), patterns=[Z(p.o)]), "threads of one type")

    def at(i):
        return k.eng._read(k.entry, k.entry.mem["ptr"], "ptr", th.o, S(Z(th.p) + 8 * Z(i)), False)
    return at


def done(k, st, a, n, lo, hi, value):
    """the pairs lo <= x < hi have their value"""
    x = z3.Int("x!done")
    c = k.eng._read(st, st.mem["f32"], "f32", a.o, S(4 * (x + ROW(Z(n), x))), False)
    return z3.ForAll([x], z3.Implies(z3.And(Z(lo) <= x, x < Z(hi)), Z(c) == value(x)), patterns=[ROW(Z(n), x)])


@contract("sr_threads_compare", file=F, opts={"fast_dry": True})
def _(k, th, m, n, ty):
    k.requires(And(le(1, m), le(2, n), le(n, NMAX)), "documented: positive dimensions")
    at = threads_ok(k, th, n, True)
    mm = S(z3.If(Z(m) >= Z(n), Z(n) - 1, Z(m)))
    dims(k, mm, n)
    k.may_alloc()
    k.data["value"] = lambda x: DIST(Z(at(ROW(Z(n), x)).o), Z(at(col(n, x)).o), Z(ty))
    k.data["start"] = lambda lv: 0

    def post(res):
        a = k.fld(res, M, "distances")
        k.ensures(And(eq(k.fld(res, M, "m"), mm), eq(k.fld(res, M, "n"), n)), "dimensions")
        k.ensures(done(k, k.st, a, n, 0, RS(Z(n), Z(mm)), k.data["value"]), "every pair has its distance")
    return post


def ints(lv):
    """32-bit local variables of the frame"""
    fr = lv.s.frames[lv.L.depth - 1]
    tys = {}
    for b in fr.fn.blocks.values() if isinstance(fr.fn.blocks, dict) else fr.fn.blocks:
        for ins in b:
            if ins.op == "store" and ins.a[2][0] == "reg":
                tys[ins.a[2][1]] = ins.a[0]
    out = []
    for n, v in fr.loc.items():
        t = tys.get(n)
        if t is not None and t.k == "int" and t.w == 32:
            out.append(n)
    return out


def vals(lv, *ns):
    r = []
    for n in ns:
        v = lv.var(n)
        if v.__class__.__name__ == "_Undef" or isinstance(v, Ptr):
            raise Skip()
        r.append(Z(v))
    return r


def array_of(lv):
    """the arrays of floats reachable from the local matrix pointers"""
    fr = lv.s.frames[lv.L.depth - 1]
    k = lv.k
    for n, v in sorted(fr.loc.items()):
        if isinstance(v, Ptr) and "distances" in n.lower():
            yield n


def ptrs(lv):
    fr = lv.s.frames[lv.L.depth - 1]
    return [n for n, v in sorted(fr.loc.items()) if isinstance(v, Ptr)]


def split(eng, L):
    """32-bit locals the loop changes / leaves alone"""
    lv0 = LV(eng, L, L.entry, L.entry, 0)
    I32 = ints(lv0)
    mod = [x[0] for x in L.locals]
    return [x for x in I32 if x in mod], [x for x in I32 if x not in mod], ptrs(lv0)


def field_array(k, d, sname):
    def arr(lv):
        v = lv.var(d)
        if not isinstance(v, Ptr):
            raise Skip()
        return lv.eng.read(lv.s, "ptr", v.o, add(v.p, k.foff(sname, "distances")[0]))
    return arr


def cheap(lv, *cs):
    """at loop entry, drop a candidate quickly when its quantifier-free part does not hold"""
    if lv.s is lv.e and not all(lv.eng.must(lv.s, c, 300) for c in cs):
        raise Skip()


@loops("sr_threads_compare")
def _(eng, L):
    k = eng.k_main
    n = k.data["n"]
    mod, unmod, pp = split(eng, L)
    clamp = lambda t: z3.If(Z(t) < Z(n), Z(t), Z(n) - 1)
    for d in pp:
        arr = field_array(k, d, M)

        def is_matrix(lv, d=d):
            v = lv.var(d)
            if not isinstance(v, Ptr):
                raise Skip()
            return And(lt(k.eng.entry_wm, v.o), eq(lv.eng.read(lv.s, "i32", v.o, add(v.p, k.foff(M, "n")[0])), n))

        def rows(lv, arr=arr, is_matrix=is_matrix):
            cheap(lv, is_matrix(lv))
            return done(k, lv.s, arr(lv), n, 0, RS(Z(n), clamp(lv.it)), k.data["value"])

        def upto(lv, a, b, arr=arr, is_matrix=is_matrix):
            x, y = vals(lv, a, b)
            ok = z3.And(0 <= x, x < y, z3.Implies(x < Z(n), y <= Z(n)))
            cheap(lv, y == x + 1, is_matrix(lv))
            return z3.And(ok, done(k, lv.s, arr(lv), n, 0, z3.If(x < Z(n), lin(n, x, y), RS(Z(n), Z(n) - 1)), k.data["value"]))
        if len(mod) > 1:
            yield "%s: rows done" % d, rows
        for a in unmod:
            for b in mod:
                yield "%s: pairs before (%s,%s) done" % (d, a, b), lambda lv, a=a, b=b, upto=upto: upto(lv, a, b)


# ---------------------------------------------------------------- parts
@contract("sr_distances_part_new", file=F)
def _(k, m, n, ty, mb, nb, ln):
    k.may_alloc()
    def post(res):
        k.fresh(res, k.sizeof(PT))
        for f, v in (("m", m), ("n", n), ("m_begin", mb), ("n_begin", nb), ("len", ln), ("dist_type", ty)):
            k.ensures(eq(k.fld(res, PT, f), v), "field %s" % f)
        k.ensures(And(eq(k.fld(res, PT, "distances").o, 0), eq(k.fld(res, PT, "next").o, 0)), "nothing computed, no successor")
    return post


def part_floats(k, p, field="distances"):
    return k.fld(p, PT, field)


@contract("sr_distances_part_compute", file=F, opts={"fast_dry": True, "relations": False})
def _(k, p, th):
    k.requires(And(k.valid(p, k.sizeof(PT)), eq(p.p, 0)), "a part")
    m, n, mb, nb, ty = (k.fld(p, PT, f) for f in ("m", "n", "m_begin", "n_begin", "dist_type"))
    ln = k.fldu(p, PT, "len")
    dims(k, m, n)
    products(k, m, n)
    at = threads_ok(k, th, n)
    k.requires(ne(th.o, p.o), "the array of threads is not the part")
    k.requires(And(le(0, mb), lt(mb, nb), lt(nb, n), lt(mb, m)), "the part begins at a pair")
    base = S(lin(n, mb, nb))
    k.requires(And(lt(0, ln), le(S(Z(base) + Z(ln)), S(RS(Z(n), Z(m))))), "the part lies inside the matrix")
    k.data["base"] = lambda lv: base
    k.data["value"] = lambda x: DIST(Z(at(ROW(Z(n), x)).o), Z(at(col(n, x)).o), Z(ty))
    k.may_alloc()
    k.modifies("ptr", Ptr(p.o, k.foff(PT, "distances")[0]), 8)
    k.modifies("i32", Ptr(p.o, k.foff(PT, "checksum")[0]), 4)

    def out(st, hi):
        a = k.fld(p, PT, "distances", st)
        x = z3.Int("x!part")
        c = k.eng._read(st, st.mem["f32"], "f32", a.o, S(4 * (x - Z(base))), False)
        return z3.ForAll([x], z3.Implies(z3.And(Z(base) <= x, x < Z(hi)), Z(c) == k.data["value"](x)), patterns=[ROW(Z(n), x)])
    k.data["out"] = out

    def post(res):
        a = k.fld(p, PT, "distances")
        k.fresh(a, S(4 * Z(ln)), "storage for the part")
        k.ensures(out(k.st, S(Z(base) + Z(ln))), "every pair of the part has its distance")
    return post


def rowcol(n, x, y):
    """(x,y) is a pair, or the beginning of the empty row behind the last one"""
    return z3.And(0 <= x, x < y, y <= n, z3.Or(y < n, x == n - 1))


@loops("sr_distances_part_compute")
def _(eng, L):
    k = eng.k_main
    n = Z(k.data["n"])
    mod, unmod, pp = split(eng, L)
    base = k.data["base"]
    yield "pairs so far have their distance", lambda lv: k.data["out"](lv.s, S(Z(base(lv)) + Z(lv.it)))
    for a in mod:
        for b in mod:
            if a != b:
                yield "(%s,%s) is the current pair" % (a, b), lambda lv, a=a, b=b: (lambda x, y: z3.And(rowcol(n, x, y), lin(n, x, y) == Z(base(lv)) + Z(lv.it)))(*vals(lv, a, b))


V = z3.Function("PartValue", I, z3.RealSort())


def part_list(k, p, consistent):
    g = GList(k, PT, fun("Owner." + PT, I, I)(Z(p.o)), strs=("distances",))
    ln = lambda o: Z(u(g.fread("len", o), 64))
    g.okf["distances"] = lambda q, nd: z3.Or(Z(q.o) == 0, z3.And(Z(q.o) > 0, Z(q.p) == 0, Z(alive(k.st.al, q.o)), Z(q.o) <= Z(k.st.wm), ln(nd) >= 0, Size(Z(q.o)) >= 4 * ln(nd)))
    g.require(head=p)
    return g, ln


@contract("sr_distances_part_merge", file=F, opts={"fast_dry": True})
def _(k, p):
    """parts of one split, all computed from the same threads (contract for consistent input)"""
    if k.case(eq(p.o, 0)):
        def post(res):
            k.ensures(eq(res.o, 0), "nothing to merge")
        return post
    g, ln = part_list(k, p, True)
    m, n, ck = k.fld(p, PT, "m"), k.fld(p, PT, "n"), k.fld(p, PT, "checksum")
    dims(k, m, n)
    start = fun("PartStart", I, I)
    i, o = z3.Ints("i!p o!p")
    nd = g.at(i)
    inr = z3.And(0 <= i, i < g.n)
    f = lambda name: Z(g.fread(name, nd))
    d = g.fread("distances", nd)
    k.requires(z3.ForAll([i], z3.Implies(inr, z3.And(f("m") == Z(m), f("n") == Z(n), f("checksum") == Z(ck), Z(d.o) != 0, Z(d.p) == 0, 0 <= f("m_begin"), f("m_begin") < f("n_begin"),
                                                     f("n_begin") < Z(n), f("m_begin") < Z(m), lin(n, f("m_begin"), f("n_begin")) == start(i), ln(nd) > 0,
                                                     start(i + 1) == start(i) + ln(nd), start(i) >= start(0), start(i + 1) <= start(g.n))), patterns=[nd]), "the parts follow one another")
    k.requires(z3.And(start(g.n) <= RS(Z(n), Z(m)), start(0) >= 0, start(0) <= start(g.n)), "the parts lie inside the matrix")
    c = Z(k.eng._read(k.st, k.st.mem["f32"], "f32", d.o, o, False))
    k.requires(z3.ForAll([i, o], z3.Implies(z3.And(inr, 0 <= o, o < 4 * ln(nd), o % 4 == 0), c == V(start(i) + o / 4)), patterns=[z3.MultiPattern(nd, c)]), "names for the computed values")
    k.data.update(value=lambda x: V(x), start=start, g=g)
    k.may_alloc()

    def post(res):
        k.ensures(ne(res.o, 0), "a matrix")
        a = k.fld(res, M, "distances")
        k.ensures(And(eq(k.fld(res, M, "m"), m), eq(k.fld(res, M, "n"), n)), "dimensions")
        k.ensures(done(k, k.st, a, n, start(0), start(g.n), k.data["value"]), "every pair of the parts is where it belongs")
    return post


@loops("sr_distances_part_merge")
def _(eng, L):
    k = eng.k_main
    if "g" not in k.data:
        return
    n, g, start = Z(k.data["n"]), k.data["g"], k.data["start"]
    mod, unmod, pp = split(eng, L)
    its = [x[0] for x in L.locals]
    for d in pp:
        if d in its:
            continue
        arr = field_array(k, d, M)

        def is_matrix(lv, d=d):
            v = lv.var(d)
            if not isinstance(v, Ptr):
                raise Skip()
            return And(lt(k.eng.entry_wm, v.o), eq(lv.eng.read(lv.s, "i32", v.o, add(v.p, k.foff(M, "n")[0])), n))

        def parts_done(lv, arr=arr, is_matrix=is_matrix):
            cheap(lv, is_matrix(lv))
            return done(k, lv.s, arr(lv), n, start(0), start(Z(lv.it)), k.data["value"])

        def upto(lv, a, b, arr=arr, is_matrix=is_matrix):
            x, y = vals(lv, a, b)
            cheap(lv, rowcol(n, x, y), is_matrix(lv))
            return z3.And(rowcol(n, x, y), done(k, lv.s, arr(lv), n, start(0), lin(n, x, y), k.data["value"]))
        yield "%s: parts done" % d, parts_done
        for a in mod:
            for b in mod:
                if a != b:
                    yield "%s: pairs before (%s,%s) done" % (d, a, b), lambda lv, a=a, b=b, upto=upto: upto(lv, a, b)
    for p in pp:
        if p in its:
            continue
        for a in mod:
            for b in mod:
                if a != b:
                    def here(lv, a=a, b=b, p=p):
                        x, y = vals(lv, a, b)
                        v = lv.var(p)
                        if not isinstance(v, Ptr):
                            raise Skip()
                        return z3.And(rowcol(n, x, y), lin(n, x, y) == start(g.pos(v.o)) + Z(lv.it))
                    yield "(%s,%s) is the current pair of part %s" % (a, b, p), here


@contract("sr_distances_part_free", file=F)
def _(k, p, follow):
    if k.case(eq(p.o, 0)):
        return lambda res: None
    owner = fun("ListOf", I, I)(Z(p.o))
    g = GList(k, PT, owner, strs=("distances",))
    g.okf["distances"] = lambda q, nd: z3.Or(Z(q.o) == 0, z3.And(Z(q.o) > 0, Z(alive(k.st.al, q.o)), Z(q.o) <= Z(k.st.wm)))
    K = g.pos(p.o)
    # every element from here on is a live member of the list
    k.requires(And(0 <= K, K < g.n, eq(p.p, 0)), "an element of a list")
    k.requires(g.at(K) == Z(p.o), "an element of a list")
    i = z3.Int("i!own")
    k.requires(z3.ForAll([i], z3.Implies(z3.And(K <= i, i < g.n), fun("ListOf", I, I)(g.at(i)) == owner), patterns=[g.at(i)]), "the elements are one list")
    g.require(own=True, lo=K)
    fol = k.eng.tobool(follow)
    k.frees_all(lambda x: And(lt(0, x), le(K, g.own(x)), Or(eq(g.own(x), K), fol), lt(g.own(x), g.n)))
    return lambda res: None

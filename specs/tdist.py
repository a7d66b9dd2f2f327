"""Distances of two threads: Levenshtein (with and without transpositions) and Jaccard.
Two frames match when sr_<type>_frame_cmp_distance is 0: M(a,b) of the two frame objects (the rules, and the symmetry of M, are P09's
contracts; the frames are not written while a distance is computed)."""
from spec import *
from engine import Skip
from lists import GList, fun, pats
from cmp import FRAMES, CODES
from lst import CONT, STR_ALL
import lst

BOOL = z3.BoolSort()
Match = z3.Function("FramesMatch", I, I, BOOL)
# HasFrom(list, i, x): an element at or behind position i matches x
HasFrom = z3.Function("HasFrom", I, I, I, BOOL)
D = z3.Function("EditDistance", I, I, I)
Use = z3.Function("Use", I, I, BOOL)
Cnt = [z3.Function("CountedOnce%d" % q, I, I) for q in (0, 1)]
Com = z3.Function("CommonOnce", I, I)
LIM2 = 1 << 29


def mk_weak(t):
    sname = FRAMES[t][0]

    def c(k, a, b):
        k.requires(And(k.valid(a, k.sizeof(sname)), k.valid(b, k.sizeof(sname)), eq(a.p, 0), eq(b.p, 0)), "two frames")

        def post(res):
            k.ensures(Iff(eq(res, 0), S(Match(Z(a.o), Z(b.o)))), "0 for frames that match")
        return post
    return c


def thread(k, t, th, q):
    """thread q (0/1) of the pair with its frames"""
    k.requires(And(k.valid(th, k.sizeof(CONT[t])), eq(th.p, 0)), "thread")
    k.requires(eq(k.fld(th, CONT[t], "type"), CODES[t]), "type tag of the thread")
    g = GList(k, FRAMES[t][0], th.o)
    g.require(head=k.fld(th, CONT[t], "frames"), type=CODES[t])
    k.requires(g.n < LIM2, "fewer than 2^29 frames")
    k.terms.append(("length %d" % (q + 1), g.n))
    return g


def has_facts(k, g):
    i, x = z3.Int("i!has"), z3.Int("x!has")
    h = lambda i: HasFrom(g.owner, i, x)
    k.st.fact(z3.ForAll([i, x], z3.Implies(z3.And(0 <= i, i < g.n), h(i) == z3.Or(Match(g.at(i), x), h(i + 1))), patterns=[z3.MultiPattern(g.at(i), h(i)), ]))
    k.st.fact(z3.ForAll([i, x], z3.Implies(i >= g.n, z3.Not(h(i))), patterns=[h(i)]))


def mk_contain(t):
    """any list of the pair, from any element on"""
    sname = FRAMES[t][0]

    def c(k, hay, needle):
        k.requires(And(k.valid(needle, k.sizeof(sname)), eq(needle.p, 0), eq(k.ld("i32", needle), CODES[t])), "a frame")
        if k.mode == "verify":
            g = GList(k, sname, fun("Owner.hay", I)() if False else z3.Int("HayOwner"))
            g.require(type=CODES[t])
            has_facts(k, g)
            K = z3.Int("HayStart")
            k.requires(z3.And(0 <= K, K <= g.n, g.is_at(hay, K)), "an element of a list, or its end")
            k.data["contain"] = (g, K, needle)

            def post(res):
                k.ensures(Iff(k.eng.tobool(res), S(HasFrom(g.owner, K, Z(needle.o)))), "true exactly when an element from there on matches")
            return post
        gs = k.eng.k_main.data["pair"]
        # which list, and where in it
        hits = []
        for g in gs:
            K = z3.If(Z(hay.o) == 0, g.n, g.pos(hay.o))
            hits.append((S(z3.And(Z(hay.o) != 0, Z(hay.p) == 0, 0 <= g.pos(hay.o), g.pos(hay.o) < g.n, g.at(g.pos(hay.o)) == Z(hay.o))), g, K))
        k.requires(Or(eq(hay.o, 0), *[h for h, _, _ in hits]), "an element of one of the lists, or an end")

        def post(res):
            r = k.eng.tobool(res)
            k.ensures(Implies(eq(hay.o, 0), Not(r)))
            for h, g, K in hits:
                k.ensures(Implies(h, Iff(r, S(HasFrom(g.owner, g.pos(hay.o), Z(needle.o))))))
        return post
    return c


@loops("distance_jaccard_frames_contain")
def _(eng, L):
    k = eng.k_main
    if "contain" not in k.data:
        return
    g, K, needle = k.data["contain"]
    x = Z(needle.o)
    yield "no match so far", lambda lv: HasFrom(g.owner, K, x) == HasFrom(g.owner, K + Z(lv.it), x)
    for i, (n, t) in enumerate(L.locals):
        if isinstance(L.entry.frames[-1].loc.get(n), Ptr):
            yield "%s is at start+iterations" % n, lambda lv, n=n: g.is_at(lv.var(n), K + Z(lv.it))
    yield "iterations<=length-start", lambda lv: K + Z(lv.it) <= g.n


def mk_jaccard(t):
    def c(k, t1, t2):
        g = [thread(k, t, th, q) for q, th in enumerate((t1, t2))]
        k.data["pair"] = g
        i = z3.Int("i!jac")
        for x in g:
            has_facts(k, x)
        last = [lambda i, x=x: z3.Not(HasFrom(x.owner, i + 1, x.at(i))) for x in g]
        for q in (0, 1):
            C, x = Cnt[q], g[q]
            # definitions by recursion over the prefix
            k.st.fact(C(0) == 0)
            k.st.fact(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < x.n), C(i + 1) == C(i) + z3.If(last[q](i), 1, 0)), patterns=[z3.MultiPattern(C(i), x.at(i))]))
            k.st.fact(z3.ForAll([i], z3.Implies(i >= 0, z3.And(0 <= C(i), C(i) <= i)), patterns=[C(i)]))       # lemma "jac"
        k.st.fact(Com(0) == 0)
        k.st.fact(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < g[0].n), Com(i + 1) == Com(i) + z3.If(z3.And(last[0](i), HasFrom(g[1].owner, 0, g[0].at(i))), 1, 0)), patterns=[z3.MultiPattern(Com(i), g[0].at(i))]))
        k.st.fact(z3.ForAll([i], z3.Implies(i >= 0, z3.And(0 <= Com(i), Com(i) <= Cnt[0](i))), patterns=[Com(i)]))     # lemma "jac"
        k.st.fact(z3.And(Com(g[0].n) >= 0, Cnt[0](g[0].n) >= 0, Cnt[1](g[1].n) >= 0, Com(g[0].n) <= Cnt[0](g[0].n), Cnt[0](g[0].n) <= g[0].n, Cnt[1](g[1].n) <= g[1].n))
        inter, un = Com(g[0].n), Cnt[0](g[0].n) + Cnt[1](g[1].n) - Com(g[0].n)

        def post(res):
            k.ensures(And(le(z3.RealVal(0), res), le(res, z3.RealVal(1))), "between 0 and 1")
            if k.case(S(un == 0)):
                k.ensures(res == 0, "0 for two threads without frames")
                return
            f = fdivint(k, inter, un)
            d = k.eng.round(k.st, k.eng.round(k.st, 1 - f, "f64"), "f32")
            k.ensures(res == z3.If(d < 0, z3.RealVal(0), d), "one minus common by all different frames")
        return post
    return c


def fdivint(k, a, b):
    x = []
    for v in (a, b):
        r = z3.ToReal(Z(v))
        lim = 1 << 24
        x.append(r if k.eng.must(k.st, And(le(-lim, v), le(v, lim))) else k.eng.round(k.st, r, "f32"))
    return k.eng.round(k.st, x[0] / x[1], "f32")


@loops("distance_jaccard")
def _(eng, L):
    k = eng.k_main
    if "pair" not in k.data:
        return
    for n, t in L.locals:
        for q in (0, 1):
            yield "%s counts thread %d" % (n, q + 1), lambda lv, n=n, q=q: Z(num(lv, n)) == Cnt[q](Z(lv.it))
        yield "%s counts the common frames" % n, lambda lv, n=n: Z(num(lv, n)) == Com(Z(lv.it))


def num(lv, n):
    v = lv.var(n)
    if isinstance(v, (Ptr, bool)) or z3.is_expr(v) and not z3.is_int(v):
        raise Skip()
    return v


def mk_lev(t):
    def c(k, t1, t2, transposition):
        g = [thread(k, t, th, q) for q, th in enumerate((t1, t2))]
        k.data["pair"] = g
        T = k.eng.tobool(transposition)
        k.data["T"] = T
        i, j = z3.Int("i!lev"), z3.Int("j!lev")
        m = lambda a, b: Match(g[0].at(a - 1), g[1].at(b - 1))
        cc = z3.If(m(i, j), 0, 1)
        mn = lambda a, b: z3.If(a < b, a, b)
        v = z3.If(m(i, j), D(i - 1, j - 1), 1 + mn(D(i - 1, j - 1), mn(D(i, j - 1), D(i - 1, j))))
        # definition of the distance of the first i and j frames
        k.st.fact(z3.ForAll([j], z3.Implies(j >= 0, D(0, j) == j), patterns=[D(0, j)]))
        k.st.fact(z3.ForAll([i], z3.Implies(i >= 0, D(i, 0) == i), patterns=[D(i, 0)]))
        k.st.fact(z3.ForAll([i, j], Use(i, j), patterns=[Use(i, j)]))
        k.st.fact(z3.ForAll([i, j], z3.Implies(z3.And(i >= 1, j >= 1, i <= g[0].n, j <= g[1].n),
                  D(i, j) == z3.If(z3.And(Z(T), i >= 2, j >= 2, v > D(i - 2, j - 2) + cc, m(i, j - 1), m(i - 1, j)), D(i - 2, j - 2) + cc, v)), patterns=[Use(i, j)]))
        k.st.fact(z3.ForAll([i, j], z3.Implies(z3.And(i >= 0, j >= 0), z3.And(0 <= D(i, j), D(i, j) <= z3.If(i > j, i, j))), patterns=[D(i, j)]))     # lemma "osa"
        mx = z3.If(g[0].n > g[1].n, g[0].n, g[1].n)
        k.st.fact(z3.And(g[0].n >= 0, g[1].n >= 0))
        d = D(g[0].n, g[1].n)
        k.st.fact(z3.And(0 <= d, d <= mx))
        k.may_alloc()

        def post(res):
            k.ensures(And(le(z3.RealVal(0), res), le(res, z3.RealVal(1))), "between 0 and 1")
            if k.case(S(mx == 0)):
                k.ensures(res == 0, "0 for two threads without frames")
                return
            k.ensures(res == fdivint(k, d, mx), "edit distance divided by the longer length")
        return post
    return c


@loops("distance_levenshtein")
def _(eng, L):
    k = eng.k_main
    if "pair" not in k.data or "T" not in k.data:
        return
    g1, g2 = k.data["pair"]
    m = g1.n + 1
    loc = L.entry.frames[L.depth - 1].loc
    ptrs = sorted(n for n, v in loc.items() if isinstance(v, Ptr))
    outer = L.entry.ghost.get(("loopit", L.depth), ())
    i, j = z3.Int("i!r"), z3.Int("j!r")
    mod = {x[0] for x in L.locals}

    def cell(lv, n, x):
        a = lv.var(n)
        if not isinstance(a, Ptr):
            raise Skip()
        return Z(k.eng._read(lv.s, lv.s.mem["i32"], "i32", a.o, S(Z(a.p) + 4 * x), False))
    for n in ptrs:
        if n in mod:
            yield "%s is the element before" % n, lambda lv, n=n: z3.Implies(Z(lv.it) >= 1, z3.Or(g1.is_at(lv.var(n), Z(lv.it) - 1), g2.is_at(lv.var(n), Z(lv.it) - 1)))
            for q, g in enumerate((g1, g2)):
                yield "%s is the element of list %d before" % (n, q), lambda lv, n=n, g=g: z3.Implies(Z(lv.it) >= 1, g.is_at(lv.var(n), Z(lv.it) - 1))
            continue
        # filling of the first column and row
        yield "%s: first column" % n, lambda lv, n=n: z3.ForAll([i], z3.Implies(z3.And(m - Z(lv.it) < i, i <= m), cell(lv, n, m - i) == i), patterns=[D(i, 0)])
        yield "%s: first column complete" % n, lambda lv, n=n: z3.ForAll([i], z3.Implies(z3.And(0 < i, i <= m), cell(lv, n, m - i) == i), patterns=[D(i, 0)])
        yield "%s: first row" % n, lambda lv, n=n: z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < Z(lv.it)), cell(lv, n, m + j) == j), patterns=[D(0, j)])
    js = [("columns", lambda lv: Z(lv.it))] + [("outer %d" % q, lambda lv, o=o: o) for q, o in enumerate(outer)]
    for n in ptrs:
        if n in mod:
            continue
        J = lambda lv: Z(lv.it)
        # after J columns
        yield "%s: column done" % n, lambda lv, n=n: z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < m), cell(lv, n, m + Z(lv.it) - i) == D(i, Z(lv.it))), patterns=[D(i, Z(lv.it))])
        yield "%s: first row ahead" % n, lambda lv, n=n: z3.ForAll([j], z3.Implies(z3.And(Z(lv.it) < j, j <= g2.n), cell(lv, n, m + j) == j), patterns=[D(0, j)])
        yield "%s: diagonal done" % n, lambda lv, n=n: z3.ForAll([i], z3.Implies(z3.And(1 <= i, i < m, Z(lv.it) >= 1), cell(lv, n, m + Z(lv.it) - i) == D(i - 1, Z(lv.it) - 1)), patterns=[D(i, Z(lv.it))])
        for q, o in enumerate(outer):
            yield "%s: rows done %d" % (n, q), lambda lv, n=n, o=o: z3.ForAll([i], z3.Implies(z3.And(0 <= i, i <= Z(lv.it)), cell(lv, n, m + o + 1 - i) == D(i, o + 1)), patterns=[D(i, o + 1)])
            yield "%s: rows to do %d" % (n, q), lambda lv, n=n, o=o: z3.ForAll([i], z3.Implies(z3.And(Z(lv.it) <= i, i < m), cell(lv, n, m + o - i) == D(i, o)), patterns=[D(i, o)])
            yield "%s: first row ahead %d" % (n, q), lambda lv, n=n, o=o: z3.ForAll([j], z3.Implies(z3.And(o + 1 < j, j <= g2.n), cell(lv, n, m + j) == j), patterns=[D(0, j)])
            yield "%s: diagonals done %d" % (n, q), lambda lv, n=n, o=o: z3.ForAll([i], z3.Implies(z3.And(1 <= i, i <= Z(lv.it)), cell(lv, n, m + o + 1 - i) == D(i - 1, o)), patterns=[D(i, o + 1)])
            yield "%s: diagonals to do %d" % (n, q), lambda lv, n=n, o=o: z3.ForAll([i], z3.Implies(z3.And(Z(lv.it) <= i, 1 <= i, i < m, o >= 1), cell(lv, n, m + o - i) == D(i - 1, o - 1)), patterns=[D(i, o)])
    for q, o in enumerate(outer):
        yield "next cell %d" % q, lambda lv, o=o: z3.And(Use(Z(lv.it) + 1, o + 1), Use(Z(lv.it), o + 1), Use(Z(lv.it) + 1, o))
    yield "rows", lambda lv: Z(lv.it) <= g1.n


# ---------------------------------------------------------------- the generic entry
Dist = z3.Function("ThreadDistance", I, I, I, z3.RealSort())
ALGO = {"distance_jaro_winkler": 0, "distance_jaccard": 1, "distance_levenshtein": 2}


def mk_part(name):
    def c(k, t1, t2, *tr):
        a = Z(2) if False else ALGO[name]
        if tr:
            a = z3.If(Z(k.eng.tobool(tr[0])), 3, 2)

        def post(res):
            k.ensures(res == Dist(a, Z(t1.o), Z(t2.o)))
        return post
    return c


@contract("sr_distance", file="distance.c")
def _(k, algo, t1, t2):
    for t in (t1, t2):
        k.requires(And(k.valid(t, k.sizeof("sr_thread")), eq(t.p, 0)), "a thread")
    same = eq(k.fld(t1, "sr_thread", "type"), k.fld(t2, "sr_thread", "type"))
    k.requires(And(le(0, algo), le(algo, 3)), "one of the four metrics")

    def post(res):
        k.ensures(res == z3.If(Z(same), Dist(Z(algo), Z(t1.o), Z(t2.o)), z3.RealVal(1)), "1 for threads of different types, else the value of the metric asked for, for the threads in the order given")
    return post

"""Ghost functions over texts, with the lemmas about them that the proofs use.  Every lemma is proved by induction
(base + step discharged by the solver) on each run of a check that uses it (see LEMMAS)."""
import z3
from sym import *

# newlines before offset j of object o (counted from offset 0), and the offset just after the last of them (0 if none)
_fun = {}


def lnp(b):
    return _fun.setdefault(("lnp", b), z3.Function("Lnp!%d" % b, I, I, I))


def last(b):
    return _fun.setdefault(("last", b), z3.Function("Last!%d" % b, I, I, I))


def step_fact(b, o, p, c):
    """definition, instantiated where the character c at (o,p) is read"""
    nl = Z(eq(c, 10))
    o, p = Z(o), Z(p)
    return z3.Implies(p >= 0, z3.And(lnp(b)(o, p + 1) == lnp(b)(o, p) + z3.If(nl, 1, 0),
                  last(b)(o, p + 1) == z3.If(nl, p + 1, last(b)(o, p))))


def axioms(b, o):
    """lemmas for object o in memory base b (consequences of the definition, proved in LEMMAS)"""
    i, j = z3.Ints("i!ln j!ln")
    o = Z(o)
    L, T = lnp(b), last(b)
    return [
        z3.ForAll([j], z3.Implies(j >= 0, z3.And(L(o, j) >= 0, L(o, j) <= j, T(o, j) >= 0, T(o, j) <= j)), patterns=[L(o, j)]),
        z3.ForAll([j], z3.Implies(j >= 0, z3.And(L(o, j) >= 0, L(o, j) <= j, T(o, j) >= 0, T(o, j) <= j)), patterns=[T(o, j)]),
        z3.ForAll([i, j], z3.Implies(z3.And(0 <= i, i <= j), mono(L, T, o, i, j)), patterns=[z3.MultiPattern(L(o, i), L(o, j))]),
        z3.ForAll([i, j], z3.Implies(z3.And(0 <= i, i <= j), mono(L, T, o, i, j)), patterns=[z3.MultiPattern(T(o, i), T(o, j))]),
    ]


def mono(L, T, o, i, j):
    return z3.And(L(o, i) <= L(o, j), L(o, j) - L(o, i) <= j - i, z3.Implies(L(o, i) == L(o, j), T(o, i) == T(o, j)),
                  z3.Implies(L(o, i) < L(o, j), T(o, j) > i))


def no_newline(b, f, o, lo, hi):
    """lemma instance: no newline in [lo,hi) => counters unchanged"""
    j = z3.Int("j!nn")
    o, lo, hi = Z(o), Z(lo), Z(hi)
    L, T = lnp(b), last(b)
    return z3.Implies(z3.And(0 <= lo, lo <= hi, z3.ForAll([j], z3.Implies(z3.And(lo <= j, j < hi), f(j) != 10))),
                      z3.And(L(o, hi) == L(o, lo), T(o, hi) == T(o, lo)))


def _lemmas():
    f = z3.Function("f", I, I)
    L, T = lnp(0), last(0)
    i, j, o, lo, hi, q = z3.Ints("i j o lo hi q")
    d0 = z3.And(L(o, 0) == 0, T(o, 0) == 0)
    d = step_fact(0, o, j, f(j))
    bnd = lambda j: z3.And(L(o, j) >= 0, L(o, j) <= j, T(o, j) >= 0, T(o, j) <= j)
    out = [("line counters stay in range/base", z3.Implies(d0, bnd(z3.IntVal(0)))),
           ("line counters stay in range/step", z3.Implies(z3.And(j >= 0, d, bnd(j)), bnd(j + 1))),
           ("line counters are monotone/base", z3.Implies(i >= 0, mono(L, T, o, i, i))),
           ("line counters are monotone/step", z3.Implies(z3.And(0 <= i, i <= j, d, bnd(i), mono(L, T, o, i, j)), mono(L, T, o, i, j + 1)))]
    P = lambda h: z3.Implies(z3.ForAll([q], z3.Implies(z3.And(lo <= q, q < h), f(q) != 10)), z3.And(L(o, h) == L(o, lo), T(o, h) == T(o, lo)))
    out += [("no newline, no change/base", P(lo)),
            ("no newline, no change/step", z3.Implies(z3.And(0 <= lo, lo <= j, d, P(j)), P(j + 1)))]
    return out


def _runs():
    R = z3.Function("RunIndex", I, I)
    d = z3.Function("differs", I, B)
    i, j = z3.Ints("i j")
    P = lambda j: z3.And(R(i) <= R(j), R(j) - R(i) <= j - i)
    return [("run index is monotone/base", P(i)),
            ("run index is monotone/step", z3.Implies(z3.And(0 <= i, i <= j, P(j), R(j + 1) == R(j) + z3.If(d(j + 1), 1, 0)), P(j + 1)))]


def _hex():
    c = z3.Int("c")
    h = lambda x: z3.If(x < 10, x + 48, x + 87)
    v = lambda x: z3.If(x < 58, x - 48, x - 87)
    return [("hexadecimal digits read back to the byte", z3.Implies(z3.And(0 <= c, c < 256), 16 * v(h(c / 16)) + v(h(c % 16)) == c))]


def _lexorder():
    """order laws of lexicographic key orders and of the sequence order built on them"""
    x = [z3.Real("k%d" % i) for i in range(3)]          # first key of a, b, c
    r = lambda i, j: z3.Int("rest%d%d" % (i, j))        # order of the remaining keys
    laws = lambda f: z3.And([z3.And(z3.Or(f(i, j) == 0, f(i, j) == 1, f(i, j) == -1), f(i, j) == -f(j, i), f(i, i) == 0) for i in range(3) for j in range(3)] +
                            [z3.Implies(z3.And(f(i, j) <= 0, f(j, k) <= 0), z3.And(f(i, k) <= 0, z3.Implies(z3.Or(f(i, j) < 0, f(j, k) < 0), f(i, k) < 0)))
                             for i in range(3) for j in range(3) for k in range(3)])
    c = lambda i, j: z3.If(x[i] < x[j], -1, z3.If(x[i] > x[j], 1, r(i, j)))
    out = [("lexicographic order is a consistent order/base", laws(lambda i, j: z3.IntVal(0))),
           ("lexicographic order is a consistent order/step", z3.Implies(laws(r), laws(c))),
           ("lexicographic order is zero only on equal keys/step", z3.Implies(c(0, 1) == 0, z3.And(x[0] == x[1], r(0, 1) == 0)))]
    # sequences: element order given by a real rank per position, K = first difference
    e = [z3.Function("elem%d" % i, I, z3.RealSort()) for i in range(3)]
    n = [z3.Int("n%d" % i) for i in range(3)]
    K = lambda i, j: z3.Int("K%d%d" % (min(i, j), max(i, j)))
    mn = lambda i, j: z3.If(n[i] < n[j], n[i], n[j])
    q = z3.Int("q")

    def defn(i, j):
        k = K(i, j)
        return z3.And(0 <= k, k <= mn(i, j), z3.ForAll([q], z3.Implies(z3.And(0 <= q, q < k), e[i](q) == e[j](q)), patterns=[e[i](q)]),
                      z3.Implies(k < mn(i, j), e[i](k) != e[j](k)))

    def sc(i, j):
        k = K(i, j)
        return z3.If(k < mn(i, j), z3.If(e[i](k) < e[j](k), -1, 1), z3.If(n[i] < n[j], -1, z3.If(n[i] > n[j], 1, 0)))
    ds = z3.And(*[z3.And([n[i] >= 0] + [defn(i, j) for j in range(3) if j > i]) for i in range(3)])
    # mention the elements at every first difference so that the definitions apply there
    out += [("sequence order is antisymmetric", z3.Implies(ds, sc(0, 1) == -sc(1, 0))),
            ("sequence order is transitive", z3.Implies(z3.And(ds, sc(0, 1) <= 0, sc(1, 2) <= 0, *[e[i](K(a, b)) == e[i](K(a, b)) for i in range(3) for a in range(3) for b in range(a)]),
                                                        z3.And(sc(0, 2) <= 0, z3.Implies(z3.Or(sc(0, 1) < 0, sc(1, 2) < 0), sc(0, 2) < 0)))),
            ("sequence order is zero only on equal sequences", z3.Implies(z3.And(ds, sc(0, 1) == 0), z3.And(n[0] == n[1], K(0, 1) == n[0])))]
    return out


def _pairs():
    """RowStart by its recurrence, RowOf by its definition"""
    RS, ROW = z3.Function("RS", I, I), z3.Function("ROW", I, I)
    n, i, j, x, y = z3.Ints("n i j x y")
    rec = lambda i: z3.Implies(z3.And(0 <= i, i < n), RS(i + 1) == RS(i) + n - i - 1)
    C = lambda i: 2 * RS(i) == 2 * i * n - i * i - i
    P = lambda j: z3.And(RS(j) >= RS(i) + n - i - 1, RS(j) >= RS(i))
    out = [("closed form of the row start/base", z3.Implies(RS(0) == 0, C(z3.IntVal(0)))),
           ("closed form of the row start/step", z3.Implies(z3.And(0 <= i, i < n, rec(i), C(i)), C(i + 1))),
           ("row starts are not negative/step", z3.Implies(z3.And(0 <= i, i < n, rec(i), RS(i) >= 0), RS(i + 1) >= 0)),
           ("row starts grow/base", z3.Implies(z3.And(0 <= i, i + 1 < n, rec(i)), P(i + 1))),
           ("row starts grow/step", z3.Implies(z3.And(0 <= i, i < j, j + 1 < n, rec(j), P(j)), P(j + 1)))]
    # a row containing x exists for every x below RS(h)
    E = lambda h: z3.Implies(z3.And(0 <= x, x < RS(h)), z3.Exists([i], z3.And(0 <= i, i < h, RS(i) <= x, x < RS(i + 1))))
    out += [("every pair number lies in a row/base", z3.Implies(RS(0) == 0, E(z3.IntVal(0)))),
            ("every pair number lies in a row/step", z3.Implies(z3.And(0 <= j, j < n - 1, rec(j), E(j)), E(j + 1)))]
    mono = lambda a, b: z3.Implies(z3.And(0 <= a, a < b, b < n), RS(b) >= RS(a) + n - a - 1)
    D = lambda x: z3.And(0 <= ROW(x), ROW(x) < n - 1, RS(ROW(x)) <= x, x < RS(ROW(x) + 1))
    out += [("rows of pair numbers are monotone", z3.Implies(z3.And(x <= y, D(x), D(y), rec(ROW(x)), rec(ROW(y)), mono(ROW(y), ROW(x)), mono(ROW(y) + 1, ROW(x))), ROW(x) <= ROW(y))),
            ("positions of different pairs differ", z3.Implies(z3.And(x < y, D(x), D(y), ROW(x) <= ROW(y)), x + ROW(x) < y + ROW(y)))]
    return out


def _osa():
    """facts about the edit distance D (see specs/tdist.py), by induction over both indices"""
    i, j = z3.Ints("i j")
    M, T, N = z3.Function("M", I, I, B), z3.Bool("T"), z3.Function("N", I, I, B)
    D, E = z3.Function("D", I, I, I), z3.Function("E", I, I, I)
    base = lambda D: z3.And(z3.Implies(i == 0, D(i, j) == j), z3.Implies(j == 0, D(i, j) == i))
    mn = lambda a, b: z3.If(a < b, a, b)
    mx = lambda a, b: z3.If(a > b, a, b)

    def rec(D, M):
        c = z3.If(M(i - 1, j - 1), 0, 1)
        v = z3.If(M(i - 1, j - 1), D(i - 1, j - 1), 1 + mn(D(i - 1, j - 1), mn(D(i, j - 1), D(i - 1, j))))
        return z3.Implies(z3.And(i >= 1, j >= 1), D(i, j) == z3.If(z3.And(T, i >= 2, j >= 2, v > D(i - 2, j - 2) + c, M(i - 1, j - 2), M(i - 2, j - 1)), D(i - 2, j - 2) + c, v))
    nb = [(1, 1), (0, 1), (1, 0), (2, 2)]
    ih = lambda P: z3.And(*[z3.Implies(z3.And(i >= a, j >= b, z3.Or(a + b > 0)), P(i - a, j - b)) for a, b in nb])
    bnd = lambda a, b: z3.And(0 <= D(a, b), D(a, b) <= mx(a, b))
    sym = z3.And(*[M(i - a, j - b) == N(j - b, i - a) for a in (1, 2) for b in (1, 2)])

    def recE():
        c = z3.If(N(j - 1, i - 1), 0, 1)
        v = z3.If(N(j - 1, i - 1), E(j - 1, i - 1), 1 + mn(E(j - 1, i - 1), mn(E(j, i - 1), E(j - 1, i))))
        return z3.Implies(z3.And(i >= 1, j >= 1), E(j, i) == z3.If(z3.And(T, i >= 2, j >= 2, v > E(j - 2, i - 2) + c, N(j - 1, i - 2), N(j - 2, i - 1)), E(j - 2, i - 2) + c, v))
    baseE = z3.And(z3.Implies(i == 0, E(j, i) == j), z3.Implies(j == 0, E(j, i) == i))
    dom = z3.And(i >= 0, j >= 0)
    out = [("edit distance is between 0 and the longer length", z3.Implies(z3.And(dom, base(D), rec(D, M), ih(bnd)), bnd(i, j))),
           ("edit distance is symmetric when matching is", z3.Implies(z3.And(dom, base(D), baseE, rec(D, M), recE(), sym, ih(lambda a, b: D(a, b) == E(b, a))), D(i, j) == E(j, i))),
           ("edit distance of matching sequences is 0", z3.Implies(z3.And(i >= 0, i == j, base(D), rec(D, M), M(i - 1, i - 1), z3.Implies(i >= 1, D(i - 1, i - 1) == 0), z3.Implies(i >= 2, D(i - 2, i - 2) == 0)), D(i, i) == 0))]
    return out


def _jac():
    """prefix counts of the frames of a thread that are counted once, and of those also in the other thread"""
    i = z3.Int("i")
    C, K = z3.Function("C", I, I), z3.Function("K", I, I)
    a, b = z3.Bools("a b")
    return [("common frames are at most the frames", z3.Implies(z3.And(i >= 0, 0 <= K(i), K(i) <= C(i), C(i) <= i, C(i + 1) == C(i) + z3.If(a, 1, 0), K(i + 1) == K(i) + z3.If(z3.And(a, b), 1, 0)),
                                                                z3.And(0 <= K(i + 1), K(i + 1) <= C(i + 1), C(i + 1) <= i + 1)))]


def _pos():
    """positions of encoded characters: P(0)=0, P(i+1)=P(i)+w(i) with 1 <= w(i) <= top"""
    P, w = z3.Function("P", I, I), z3.Function("w", I, I)
    i, j, top = z3.Ints("i j top")
    d = lambda j: z3.And(P(j + 1) == P(j) + w(j), 1 <= w(j), w(j) <= top)
    return [("encoded positions increase/base", z3.Implies(d(i), P(i) + w(i) <= P(i + 1))),
            ("encoded positions increase/step", z3.Implies(z3.And(0 <= i, i < j, P(i) + w(i) <= P(j), d(j)), P(i) + w(i) <= P(j + 1))),
            ("encoded positions are bounded/base", z3.Implies(P(0) == 0, z3.And(0 <= P(0), P(0) <= top * 0))),
            ("encoded positions are bounded/step", z3.Implies(z3.And(i >= 0, i <= P(i), P(i) <= top * i, d(i)), z3.And(i + 1 <= P(i + 1), P(i + 1) <= top * (i + 1))))]


LEMMAS = {"pos": _pos, "osa": _osa, "jac": _jac, "pairs": _pairs, "lexorder": _lexorder, "lines": _lemmas, "runs": _runs, "hex": _hex}


def prove(names):
    """[(name, status, time)]"""
    import time
    out = []
    for n in names:
        for nm, fm in LEMMAS[n]():
            t0 = time.time()
            s = z3.Solver()
            s.set("timeout", 20000)
            s.add(z3.Not(fm))
            r = s.check()
            out.append((nm, "ok" if r == z3.unsat else "fail" if r == z3.sat else "unknown", time.time() - t0))
    return out


if __name__ == "__main__":
    for x in prove(LEMMAS):
        print(x)

"""sr_struniq, sr_bin2hex, sr_report_type_to_string/_from_string, sr_ptrstrcmp"""
from spec import *
from engine import Skip
import re, os

SIZE_MAX = 1 << 48


def ptr_at(k, a, off, chain=None):
    """pointer cell at byte offset off of object a.o (off may be bound)"""
    return k.eng._read(k.st, chain if chain is not None else k.st.mem["ptr"], "ptr", a.o, off, False)


def uname(p):
    return z3.is_app(p) and p.decl().kind() == z3.Z3_OP_UNINTERPRETED


def pats(t):
    return {"patterns": [t]} if uname(t) else {}


def i8base(k, chain=None):
    ch = chain if chain is not None else k.st.mem["i8"]
    while isinstance(ch, Havoc):
        ch = ch.prev
    return ch


def hexd(x):
    return ite(lt(x, 10), add(x, 48), add(x, 87))


@contract("sr_bin2hex", file="utils.c")
def _(k, dst, s, count):
    k.requires(And(le(0, count), lt(count, 1 << 30)), "count")
    k.requires(Or(eq(count, 0), And(k.valid(dst, mul(2, count)), k.valid(s, count))), "buffers")
    k.requires(separate(dst, s), "buffers do not overlap")
    k.modifies("i8", dst, mul(2, count))
    s0 = k.st.mem["i8"]

    def post(res):
        k.ensures(eq(res, Ptr(dst.o, add(dst.p, mul(2, count)))), "returns the end of the output")
        k.ensures(hexdone(k.eng, k.st, s0, dst, s, count), "two lowercase digits per byte")
    return post


def hexdone(eng, st, s0, dst, s, n):
    j = z3.Int("j!hx")
    c = Z(eng._read(st, s0, "i8", s.o, j, False))
    b = z3.If(c < 0, c + 256, c)
    d = Z(dst.p) + 2 * (j - Z(s.p))
    hi = Z(eng._read(st, st.mem["i8"], "i8", dst.o, S(d), False))
    lo = Z(eng._read(st, st.mem["i8"], "i8", dst.o, S(d + 1), False))
    return z3.ForAll([j], z3.Implies(z3.And(Z(s.p) <= j, j < Z(s.p) + Z(n)),
                                     z3.And(hi == Z(hexd(b / 16)), lo == Z(hexd(b % 16)))), patterns=[c])


@loops("sr_bin2hex")
def _(eng, L):
    k = eng.k_main
    dst, s, count = k.vals
    for n, cls, cur, old in items(eng, L):
        if cls == "i32":
            yield "%s: digits written" % n, lambda lv, cur=cur, old=old: hexdone(eng, lv.s, k.entry.mem["i8"], dst, s, sub(count, cur(lv)))
            yield "%s: digits written (up)" % n, lambda lv, cur=cur, old=old: hexdone(eng, lv.s, k.entry.mem["i8"], dst, s, cur(lv))
        if cls == "ptr":
            yield "%s.off==entry+2*iterations" % n, lambda lv, cur=cur, old=old: eq(cur(lv).p, add(old(lv).p, mul(2, lv.it)))


# ----------------------------------------------------------------- struniq
RUN = z3.Function("RunIndex", I, I)     # number of runs in strings[0..i], minus one


def rank_at(k, st, a, i, ch):
    """content of the i-th string (ch: pointer memory)"""
    p = k.eng._read(st, ch, "ptr", a.o, S(Z(a.p) + 8 * Z(i)), False)
    return p, i8base(k).rank(Z(p.o), Z(p.p))


def run_step(k, a, i):
    """definition of RunIndex at i-1 -> i, over the entry memory"""
    e = k.entry
    _, r1 = rank_at(k, e, a, i, e.mem["ptr"])
    _, r0 = rank_at(k, e, a, sub(i, 1), e.mem["ptr"])
    return z3.Implies(Z(i) >= 1, RUN(Z(i)) == RUN(Z(i) - 1) + z3.If(r0 == r1, 0, 1))


def represented(k, st, a, lo, n, base):
    """every original i in [lo,n) is found, by content, at position base+Run(i)-Run(lo)"""
    i = z3.Int("i!ru")
    e = k.entry
    _, ro = rank_at(k, e, a, i, e.mem["ptr"])
    _, rn = rank_at(k, st, a, S(Z(base) + RUN(i) - RUN(Z(lo))), st.mem["ptr"])
    return z3.ForAll([i], z3.Implies(z3.And(Z(lo) <= i, i < Z(n)), rn == ro), patterns=[RUN(i)])


def run_monotone():
    i, j = z3.Ints("i!m j!m")
    return z3.ForAll([i, j], z3.Implies(z3.And(0 <= i, i <= j), z3.And(RUN(i) <= RUN(j), RUN(j) - RUN(i) <= j - i)),
                     patterns=[z3.MultiPattern(RUN(i), RUN(j))])


@contract("sr_struniq", file="utils.c")
def _(k, strings, size):
    k.requires(k.valid(size, 8), "size")
    n = k.ld("i64", size)
    k.requires(And(le(0, n), lt(n, SIZE_MAX)), "size range")
    k.requires(Or(eq(n, 0), k.valid(strings, mul(8, n))), "array")
    k.requires(separate(strings, size), "array and size are different objects")
    off = z3.Int("off!s")
    p = ptr_at(k, strings, off)
    b = i8base(k)
    oo, pp = Z(p.o), Z(p.p)
    k.requires(z3.ForAll([off], z3.Implies(z3.And(Z(strings.p) <= off, off < Z(strings.p) + 8 * Z(n)),
               z3.And(oo > 0, oo <= Z(k.st.wm), Z(alive(k.st.al, p.o)), pp >= 0, b.nul(oo, pp) < Size(oo), b.nul(oo, pp) < INF)), **pats(p.o)),
               "every element is a string")
    k.requires(RUN(0) == 0, "definition of the run index")
    k.requires(run_monotone(), "run index is monotone (lemma)")
    k.modifies("i64", size, 8)
    k.modifies("ptr", strings, mul(8, n))
    k.data["n"] = n
    k.terms = [("n", n)]

    def post(res):
        m = k.ld("i64", size)
        if k.case(lt(0, n)):
            k.ensures(eq(m, add(RUN(Z(n) - 1), 1)), "new size is the number of runs")
            k.ensures(represented(k, k.st, strings, 0, n, 0), "every run is represented once, in order")
        else:
            k.ensures(eq(m, 0), "empty stays empty")
    return post


@loops("sr_struniq")
def _(eng, L):
    k = eng.k_main
    strings, size = k.vals
    n = k.data["n"]
    a = strings
    for nm, cls, cur, old in items(eng, L):
        if cls != "i64":
            continue

        def prefix(lv, cur=cur, incl=1):
            o = z3.Int("off!p")
            pc = eng._read(lv.s, lv.s.mem["ptr"], "ptr", a.o, o, False)
            p0 = eng._read(k.entry, k.entry.mem["ptr"], "ptr", a.o, o, False)
            return z3.ForAll([o], z3.Implies(z3.And(Z(a.p) <= o, o < Z(a.p) + 8 * (Z(cur(lv)) + incl), (o - Z(a.p)) % 8 == 0), Z(eq(pc, p0))), **pats(pc.o))

        def rep(lv, cur=cur):
            c = cur(lv)
            lv.s.fact(run_step(k, a, c))
            lv.s.fact(run_step(k, a, add(c, 1)))
            return represented(k, lv.s, a, c, n, c)

        def cnt(lv, cur=cur):
            c = cur(lv)
            return eq(k.eng.read(lv.s, "i64", size.o, size.p), S(Z(c) + RUN(Z(n) - 1) - RUN(Z(c)) + 1))

        def shifted(lv, cur=cur, old=old):
            lo, c = old(lv), cur(lv)
            o = z3.Int("off!p")
            e = lv.e
            pc = eng._read(lv.s, lv.s.mem["ptr"], "ptr", a.o, o, False)
            p0 = eng._read(e, e.mem["ptr"], "ptr", a.o, o, False)
            p1 = eng._read(e, e.mem["ptr"], "ptr", a.o, S(o + 8), False)
            moved = z3.And(o >= Z(a.p) + 8 * Z(lo), o < Z(a.p) + 8 * Z(c), (o - Z(a.p)) % 8 == 0)
            inr = z3.And(o >= Z(a.p), (o - Z(a.p)) % 8 == 0)
            return z3.ForAll([o], z3.Implies(inr, z3.If(moved, Z(eq(pc, p1)), Z(eq(pc, p0)))), **pats(pc.o))
        yield "%s: prefix untouched" % nm, prefix
        yield "%s: suffix represented" % nm, rep
        yield "%s: size counts the suffix" % nm, cnt
        yield "%s: shifted down by one" % nm, shifted


# ----------------------------------------------------------------- type names
def type_names():
    """names of the codes, in code order, from the public header: the documented textual names"""
    return [b"invalid", b"core", b"python", b"kerneloops", b"java", b"gdb", b"ruby", b"javascript"]


@contract("sr_report_type_to_string", file="report.c")
def _(k, t):
    k.may_alloc()

    def post(res):
        names = type_names()
        from engine import Engine
        idx = -1
        for i in range(1, len(names)):
            if k.case(eq(t, i)):
                idx = i
                break
        b = names[max(idx, 0)]
        k.newstr(res, len(b), z3.RealVal(Engine.lit_rank(b)), lambda i: chars_of(b, i), "type name")
    return post


def chars_of(b, i):
    v = z3.IntVal(0)
    for j, c in enumerate(b):
        v = z3.If(Z(i) == j, c, v)
    return v


@contract("sr_report_type_from_string", file="report.c", opts={"unroll": 64})
def _(k, s):
    k.requires(Or(eq(s.o, 0), k.valid_str(s)), "a string or NULL")
    r = k.rank0(s)

    def post(res):
        from engine import Engine
        v = 0
        for i, b in reversed(list(enumerate(type_names()))):
            v = ite(r == z3.RealVal(Engine.lit_rank(b)), i, v)
        k.ensures(eq(res, v), "code of the name, invalid for unknown names")
    return post

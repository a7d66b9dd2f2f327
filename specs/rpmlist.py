"""Contracts of package list sorting, merging and of splitting package names"""
from spec import *
from engine import Skip
from lists import GList, fun, pats
from cmp import NVR, NEVRA, struct_ok, struct_keys, lex
from trusted import SubRank
from utils_scan import cell

F = "rpm.c"
P = "sr_rpm_package"


def dash(k, s, c, lo, hi, name, none):
    """last occurrence of character c in [lo,hi), `none` when there is none (a total definition)"""
    d = fresh_int(name)
    j = z3.Int("j!" + name)
    cj = Z(k.chq(Ptr(s.o, 0), j))
    lo, hi, none = Z(lo), Z(hi), Z(none)
    pt = pats(cj)
    k.st.fact(z3.Or(z3.And(lo <= d, d < hi, Z(k.ch(Ptr(s.o, d))) == c, z3.ForAll([j], z3.Implies(z3.And(d < j, j < hi), cj != c), **pt)),
                    z3.And(d == none, z3.ForAll([j], z3.Implies(z3.And(lo <= j, j < hi), cj != c), **pt))))
    return d


def part(k, text, p, lo, hi, old, name):
    """the cell p holds a fresh string with the characters [lo,hi) of the text"""
    r = k.ld("ptr", p)
    src = Ptr(text.o, S(lo))
    rk = k.rank(src) if hi is None else SubRank(k.rank(src), Z(hi) - Z(lo))
    n = S((Z(k.nul(text)) if hi is None else Z(hi)) - Z(lo))
    k.newstr(r, n, rk, lambda i: k.chq(src, i), name)


def nvr_common(k, text, outs):
    k.requires(k.valid_str(text), "text")
    N = k.nul(text)
    k.requires(lt(sub(N, text.p), LIM), "text shorter than 2^31")
    for i, o in enumerate(outs):
        cell(k, o, 8, text, *outs[:i])
    k.may_alloc()
    d2 = dash(k, text, 45, text.p, N, "lastdash", -1)
    d1 = dash(k, text, 45, S(Z(text.p) + 1), d2, "dashbefore", text.p)
    return N, d2, d1


LIM = 1 << 31


@contract("sr_rpm_package_parse_nvr", file=F)
def _(k, text, name, version, release):
    N, d2, d1 = nvr_common(k, text, [name, version, release])
    for o in (name, version, release):
        k.modifies("ptr", o, 8)
    olds = [k.ld("ptr", o) for o in (name, version, release)]
    ok = z3.And(d2 != -1, d1 != Z(text.p), d2 - d1 != 1, d2 != Z(text.p))

    def post(res):
        k.ensures(Iff(k.eng.tobool(res), ok), "succeeds iff there are two dashes with a name and a version")
        if k.case(S(ok)):
            part(k, text, name, text.p, d1, None, "name")
            part(k, text, version, d1 + 1, d2, None, "version")
            part(k, text, release, d2 + 1, None, None, "release")
        else:
            for o, v in zip((name, version, release), olds):
                k.ensures(eq(k.ld("ptr", o), v), "no partial result")
    return post


from trusted import STRTO_OK, STRTO_VAL


@contract("sr_rpm_package_parse_nevra", file=F, opts={"strto": "general"})
def _(k, text, name, epoch, version, release, arch):
    outs = [name, version, release, arch]
    N, d2, d1 = nvr_common(k, text, outs)
    cell(k, epoch, 4, text, *outs)
    dt = dash(k, text, 46, text.p, N, "lastdot", -1)
    # first colon of the version part
    c = fresh_int("colon")
    j = z3.Int("j!colon")
    cj = Z(k.chq(Ptr(text.o, 0), j))
    k.st.fact(z3.Or(z3.And(d1 <= c, c < d2, Z(k.ch(Ptr(text.o, c))) == 58, z3.ForAll([j], z3.Implies(z3.And(d1 <= j, j < c), cj != 58), **pats(cj))),
                    z3.And(c == -1, z3.ForAll([j], z3.Implies(z3.And(d1 <= j, j < d2), cj != 58), **pats(cj)))))
    for o in outs:
        k.modifies("ptr", o, 8)
    k.modifies("i32", epoch, 4)
    olds = [k.ld("ptr", o) for o in outs]
    e0 = k.ld("i32", epoch)
    er = SubRank(k.rank(Ptr(text.o, S(d1 + 1))), c - d1 - 1)
    shape = z3.And(dt != -1, d2 != -1, dt - d2 > 1, d1 != Z(text.p), d2 != Z(text.p), d2 - d1 != 1,
                   z3.Implies(c != -1, z3.And(d2 - c != 1, c - d1 != 1)))
    num = z3.Implies(c != -1, z3.And(STRTO_OK(er), STRTO_VAL(er) <= 0xffffffff))

    def post(res):
        ok = z3.And(shape, num)
        k.ensures(Iff(k.eng.tobool(res), ok), "succeeds iff all parts are there and the epoch is a 32-bit number")
        if k.case(S(ok)):
            part(k, text, arch, dt + 1, None, None, "architecture")
            part(k, text, release, d2 + 1, dt, None, "release")
            part(k, text, version, z3.If(c != -1, c, d1) + 1, d2, None, "version")
            part(k, text, name, text.p, d1, None, "name")
            k.ensures(eq(u(k.ld("i32", epoch), 32), S(z3.If(c != -1, STRTO_VAL(er), 0))), "the epoch")
        else:
            for o, v in zip(outs, olds):
                k.ensures(eq(k.ld("ptr", o), v), "no partial result")
            k.ensures(eq(k.ld("i32", epoch), e0), "no partial result")
    return post


@loops("sr_rpm_package_parse_nvr", "sr_rpm_package_parse_nevra")
def _(eng, L):
    k = eng.k_main
    for n, cls, cur, old in items(eng, L):
        if cls == "ptr":
            yield "%s: no dash passed" % n, lambda lv, cur=cur, old=old: forall_ch(k, old(lv), cur(lv).p, old(lv).p, lambda c: ne(c, 45))
            yield "%s not before the text" % n, lambda lv, cur=cur: And(eq(cur(lv).o, k.vals[0].o), le(k.vals[0].p, cur(lv).p))


def forall_ch(k, s, lo, hi, pred):
    j = z3.Int("j!q")
    c = Z(k.chq(Ptr(s.o, 0), j))
    return z3.ForAll([j], z3.Implies(z3.And(Z(lo) <= j, j < Z(hi)), Z(pred(c))), **pats(c))


# ---------------------------------------------------------------- merging two entries
def key(keys, f):
    return dict(keys)[f]


@contract("package_merge", file=F)
def _(k, p1, p2):
    for p in (p1, p2):
        struct_ok(k, p, P, NEVRA)
    a, b = struct_keys(k, p1, P, NEVRA), struct_keys(k, p2, P, NEVRA)
    eqs = [Z(eq(x, y)) for x, y in zip(a, b)]
    names = [f[0] for f in NEVRA]
    i = names.index("architecture")
    arch1, arch2 = k.fld(p1, P, "architecture"), k.fld(p2, P, "architecture")
    same = z3.And([e for j, e in enumerate(eqs) if j != i] + [z3.Or(Z(arch1.o) == 0, Z(arch2.o) == 0, eqs[i])])
    k.may_alloc()
    old = {f: (k.fld(p1, P, f), k.fld(p2, P, f)) for f in ("name", "version", "release", "architecture", "epoch", "install_time", "role")}

    def post(res):
        if not k.case(S(same)):
            k.ensures(eq(res.o, 0), "different packages are not merged")
            return
        k.fresh(res, k.sizeof(P))
        k.ensures(ne(res.o, 0), "the same package is merged")
        for f in ("name", "version", "release", "architecture"):
            x, y = old[f]
            if f == "architecture":
                x = Ptr(S(z3.If(Z(x.o) != 0, Z(x.o), Z(y.o))), S(z3.If(Z(x.o) != 0, Z(x.p), Z(y.p))))
            r = k.fld(res, P, f)
            if k.case(eq(x.o, 0)):
                k.ensures(eq(r.o, 0), "absent %s" % f)
            else:
                k.newstr(r, sub(k.eng.nul(k.entry, x.o, x.p), x.p), k.eng.rank(k.entry, x), None, f)
        for f in ("epoch", "install_time", "role"):
            x, y = old[f]
            v = x if f == "epoch" else S(z3.If(Z(x) != 0, Z(x), Z(y)))
            k.ensures(eq(k.fld(res, P, f), v), "%s of the entries is kept" % f)
        k.ensures(And(eq(k.fld(res, P, "next").o, 0)), "not linked yet")
    return post


# ---------------------------------------------------------------- sorting
@contract("cmp_nevra_qsort_wrapper", file=F)
def _(k, q1, q2):
    k.requires(And(k.valid(q1, 8), k.valid(q2, 8)), "two array elements")
    p1, p2 = k.ld("ptr", q1), k.ld("ptr", q2)
    for p in (p1, p2):
        struct_ok(k, p, P, NEVRA)
    a, b = struct_keys(k, p1, P, NEVRA), struct_keys(k, p2, P, NEVRA)

    def post(res):
        s = lex(a, b)
        k.ensures(And(Iff(lt(res, 0), S(s < 0)), Iff(eq(res, 0), S(s == 0))), "the order of name, version, release, epoch and architecture")
    return post


def perm(k):
    return fun("SortedPosition", I, I), fun("SortedFrom", I, I)


NX = z3.Function("NextInOrder", I, I)


@contract("sr_rpm_package_sort", file=F, opts={"strings": False, "final_timeout": 60000})
def _(k, head):
    if k.case(eq(head.o, 0)):
        def post(res):
            k.ensures(eq(res.o, 0), "nothing to sort")
        return post
    g = GList(k, P, fun("Owner." + P, I, I)(Z(head.o)))
    g.require(head=head)
    off, _ = k.foff(P, "next")
    k.modifies_if("ptr", lambda o, p: And(le(0, g.pos(o)), S(z3.And(g.pos(o) < g.n, g.at(g.pos(o)) == Z(o))), True if p is None else eq(p, off)))
    k.may_alloc()
    k.data["g"] = g
    to, fr = perm(k)
    k.terms.append(("length", g.n))
    # names for a sorting permutation: fr(i) is the original position of the i-th element, to is its inverse; both trusted from qsort
    k.data["perm"] = (to, fr)
    q = z3.Int("q!next")
    # definition: what follows the i-th element in order
    k.st.fact(z3.ForAll([q], NX(q) == z3.If(q + 1 < g.n, g.at(fr(q + 1)), 0), patterns=[NX(q)]))

    def post(res):
        i = z3.Int("i!sorted")
        k.ensures(And(eq(res.p, 0), eq(res.o, g.at(fr(0)))), "the head is the first element in order")
        nx = k.eng._read(k.st, k.st.mem["ptr"], "ptr", g.at(fr(i)), off, False)
        k.ensures(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < g.n), z3.And(Z(nx.p) == 0, Z(nx.o) == NX(i))), patterns=[NX(i)]), "the elements are chained in sorted order")
    return post


@loops("sr_rpm_package_sort")
def _(eng, L):
    k = eng.k_main
    if "g" not in k.data:
        return
    g = k.data["g"]
    to, fr = k.data["perm"]
    off, _ = k.foff(P, "next")
    i = z3.Int("i!arr")
    for n, v in sorted(L.entry.frames[L.depth - 1].loc.items()):
        if not isinstance(v, Ptr):
            continue

        def filled(lv, n=n):
            a = lv.var(n)
            if not isinstance(a, Ptr):
                raise Skip()
            c = k.eng._read(lv.s, lv.s.mem["ptr"], "ptr", a.o, S(8 * i), False)
            return z3.And(Z(a.p) == 0, z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < Z(lv.it)), z3.And(Z(c.o) == g.at(i), Z(c.p) == 0)), patterns=[g.at(i)]))
        yield "%s holds the elements seen" % n, filled
    nd = g.at(fr(i))

    def linked(lv):
        nx = k.eng._read(lv.s, lv.s.mem["ptr"], "ptr", nd, off, False)
        return z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < Z(lv.it), i < g.n), z3.And(Z(nx.p) == 0, Z(nx.o) == NX(i))), patterns=[NX(i)])
    yield "the first elements are chained", linked

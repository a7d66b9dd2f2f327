"""os-release texts, operating system data from them, and anonymized paths"""
from spec import *
from engine import Skip
from lists import pats
from trusted import SubRank, CONTAINS, FIRSTAT, LOWER
from utils_scan import cell
from sym import lt

LIMS = 1 << 30
UP = z3.Function("UnquotedPos", R, I, I)          # position of character i in the unquoted text
ESC = z3.Function("IsEscaped", R, I, z3.BoolSort())   # character i is behind an unescaped backslash
UNQ = z3.Function("Unquoted", R, R)               # content of the unquoted text
ANON = z3.Function("Anonymized", R, R)


def emits(R_, i, c):
    return z3.Or(ESC(R_, i), z3.And(c != 92, c != 39, c != 34))


@contract("unescape_osinfo_value", file="utils.c")
def _(k, source, dest):
    k.requires(And(eq(source, dest), eq(source.p, 0)), "in place, whole object")
    k.requires(k.valid_str(source), "text")
    n = k.nul(source)
    k.requires(lt(n, LIMS), "shorter than 2^30")
    r0 = k.rank(source)
    ent = k.entry.mem["i8"]
    ch = lambda i: Z(k.eng._read(k.st, ent, "i8", source.o, S(i), False))
    k.modifies("i8", source)
    if k.mode == "verify":
        i, j = z3.Ints("i!unq j!unq")
        k.st.fact(z3.And(UP(r0, 0) == 0, z3.Not(ESC(r0, 0))))
        k.st.fact(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < Z(n)), z3.And(
            UP(r0, i + 1) == UP(r0, i) + z3.If(emits(r0, i, ch(i)), 1, 0),
            ESC(r0, i + 1) == z3.And(z3.Not(ESC(r0, i)), ch(i) == 92))), patterns=[ch(i)]))
        k.st.fact(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i <= Z(n)), z3.And(0 <= UP(r0, i), UP(r0, i) <= i)), patterns=[UP(r0, i)]))
        k.st.fact(z3.ForAll([i, j], z3.Implies(z3.And(0 <= i, i < j, j <= Z(n)), UP(r0, i) + z3.If(emits(r0, i, ch(i)), 1, 0) <= UP(r0, j)), patterns=[z3.MultiPattern(UP(r0, i), UP(r0, j))]))
        k.data["unq"] = (source, n, r0, ch)

    def post(res):
        if k.mode == "verify":
            k.ensures(eq(k.nul(source), UP(r0, Z(n))), "as long as the unquoted text")
            k.ensures(unquoted(k, k.st, source, r0, ch, n), "the unquoted characters in order")
        else:
            m = k.nul(source)
            k.ensures(And(le(0, m), le(m, n)))
            k.ensures(k.rank(source) == UNQ(r0))
    return post


def unquoted(k, st, source, r0, ch, upto):
    j = z3.Int("j!unq")
    rd = Z(k.eng._read(st, st.mem["i8"], "i8", source.o, UP(r0, j), False))
    return z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < Z(upto), emits(r0, j, ch(j))), rd == ch(j)), patterns=[UP(r0, j)])


@loops("unescape_osinfo_value")
def _(eng, L):
    k = eng.k_main
    if "unq" not in k.data:
        return
    source, n, r0, ch = k.data["unq"]
    j = z3.Int("j!unq")
    names = [x for x, t in L.locals]

    def off(lv, x):
        v = lv.var(x)
        if not isinstance(v, Ptr) or not eng.must(lv.s, eq(v.o, source.o)):
            raise Skip()
        return Z(v.p)

    def nonul(lv, m):
        rd = Z(eng._read(lv.s, lv.s.mem["i8"], "i8", source.o, j, False))
        return z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < m), rd != 0), **pats(rd))
    for a in names:
        def rest(lv, a=a):
            i = off(lv, a)
            rd = Z(eng._read(lv.s, lv.s.mem["i8"], "i8", source.o, j, False))
            return z3.And(0 <= i, i <= Z(n), z3.Not(ESC(r0, i)), z3.ForAll([j], z3.Implies(z3.And(i <= j, j <= Z(n)), rd == ch(j)), **pats(ch(j))))
        yield "%s: the rest is as it was" % a, rest
        for b in names:
            if a != b:
                yield "%s/%s: unquoted so far" % (a, b), lambda lv, a=a, b=b: z3.And(off(lv, b) == UP(r0, off(lv, a)), unquoted(k, lv.s, source, r0, ch, off(lv, a)), nonul(lv, off(lv, b)))


# ---------------------------------------------------------------- lines
NLF = z3.Function("LineEnd", I, I)
EQF = z3.Function("FirstEquals", I, I)
NG = z3.Function("NextEntry", I, I)     # start of the first KEY=VALUE line at or after the line that starts here; -1: none
EN = z3.Function("Entry", I, I)         # start of the i-th KEY=VALUE line; -1: there are no more
AT = z3.Function("At", I, z3.BoolSort())
AT2 = z3.Function("AtEntry", I, z3.BoolSort())
GHOST = -950000


def lines_def(k, text):
    n = k.nul(text)
    ent = k.entry.mem["i8"]
    ch = lambda i: Z(k.eng._read(k.st, ent, "i8", text.o, S(i), False))
    p, j = z3.Ints("p!ln j!ln")
    P0, N = Z(text.p), Z(n)
    for F, c in ((NLF, 10), (EQF, 61)):
        k.st.fact(z3.ForAll([p], z3.Implies(z3.And(P0 <= p, p <= N), z3.And(p <= F(p), F(p) <= N, z3.Or(F(p) == N, ch(F(p)) == c))), patterns=[F(p)]))
        k.st.fact(z3.ForAll([p, j], z3.Implies(z3.And(P0 <= p, p <= j, j < F(p), F(p) <= N), ch(j) != c), patterns=[z3.MultiPattern(F(p), ch(j))]))
    good = lambda x: z3.And(x < N, ch(x) != 35, EQF(x) < NLF(x), EQF(x) > x)
    nxt = lambda x: NLF(x) + z3.If(NLF(x) < N, 1, 0)
    k.st.fact(z3.ForAll([p], AT(p), patterns=[AT(p)]))
    k.st.fact(z3.ForAll([p], AT2(p), patterns=[AT2(p)]))
    k.st.fact(z3.ForAll([p], z3.Implies(z3.And(P0 <= p, p <= N, AT(p)), NG(p) == z3.If(EQF(p) == N, -1, z3.If(good(p), p, NG(nxt(p))))), patterns=[AT(p)]))
    k.st.fact(z3.ForAll([j], z3.Implies(z3.And(0 <= j, EN(j) != -1, AT2(j)), EN(j + 1) == NG(nxt(EN(j)))), patterns=[AT2(j)]))
    k.st.fact(EN(0) == NG(P0))
    k.data["lines"] = (text, n, good, nxt)
    return n


def count(k, st):
    return Z(k.eng._read(st, st.mem["i64"], "i64", GHOST, 0, False))


def log_call(e, st, fp, vals, ins):
    """the caller's callback: it must be given the next entry; key and value are its own from now on"""
    k = e.k_main
    text, n, good, nxt = k.data["lines"]
    m = count(k, st)
    s = EN(m)
    kk, v, d = vals
    e.oblige(st, And(s != -1, AT2(m), AT(s)), "callback/there is another entry")
    eq_, nl = EQF(s), NLF(s)
    for x, what, lo, hi in ((kk, "key", s, eq_), (v, "value", eq_ + 1, nl)):
        e.oblige(st, And(eq(x.p, 0), lt(k.eng.entry_wm, x.o), e.valid_string(st, x)), "callback/%s is a new string" % what)
        src = SubRank(e.rank(st, Ptr(text.o, S(lo))), hi - lo)
        e.oblige(st, e.rank(st, x) == (src if what == "key" else UNQ(src)), "callback/%s is the one of the next entry%s" % (what, "" if what == "key" else ", unquoted"))
    e.oblige(st, ne(kk.o, v.o), "callback/key and value are distinct objects")
    e.oblige(st, eq(d, k.vals[2]), "callback/the caller's data")
    e.oblige(st, eq(fp, k.vals[1]), "callback/the caller's function")
    e.free(st, kk)
    e.free(st, v)
    st.mem["i64"] = Store(st.mem["i64"], GHOST, 0, m + 1)
    for dl in e.dryloops:
        dl.writes.append(("i64", GHOST, 0, st))
    return None


@contract("sr_parse_os_release", file="utils.c", opts={"callbacks": {"*": log_call}})
def _(k, text, fn, data):
    k.requires(k.valid_str(text), "text")
    n = lines_def(k, text)
    k.requires(lt(sub(n, text.p), LIMS), "shorter than 2^30")
    k.requires(eq(count(k, k.st), 0), "no calls yet (ghost)")
    k.modifies("i64", Ptr(GHOST, 0), 8)
    k.may_alloc()

    def post(res):
        m = count(k, k.st)
        k.ensures(And(AT2(m), EN(m) == -1), "every entry was delivered")
    return post


@loops("sr_parse_os_release")
def _(eng, L):
    k = eng.k_main
    if "lines" not in k.data:
        return
    text, n, good, nxt = k.data["lines"]
    j = z3.Int("j!at")
    for a, t in L.locals:
        def inv(lv, a=a):
            v = lv.var(a)
            if not isinstance(v, Ptr) or not eng.must(lv.s, eq(v.o, text.o)):
                raise Skip()
            m = count(k, lv.s)
            return z3.And(Z(text.p) <= Z(v.p), Z(v.p) <= Z(n), 0 <= m, AT(Z(v.p)), AT2(m), EN(m) == NG(Z(v.p)), z3.ForAll([j], AT(j), patterns=[AT(j)]))
        yield "%s: the entries before it were delivered" % a, inv


# ---------------------------------------------------------------- paths
@contract("anonymize_path", file="utils.c")
def _(k, path):
    k.requires(Or(eq(path.o, 0), And(eq(path.p, 0), k.valid_str(path), lt(0, path.o))), "path")
    if k.case(eq(path.o, 0)):
        def post(res):
            k.ensures(eq(res.o, 0), "nothing becomes nothing")
        return post
    n = k.nul(path)
    k.requires(lt(n, LIMS), "shorter than 2^30")
    ent = k.entry
    ch = lambda i: Z(k.eng._read(k.st, ent.mem["i8"], "i8", path.o, S(i), False))
    home = z3.And([ch(i) == c for i, c in enumerate(b"/home/")])
    q, j = fresh_int("slash"), z3.Int("j!anon")
    # first slash behind the user name, or the end
    k.st.fact(z3.Implies(home, z3.And(6 <= q, q <= Z(n), z3.Or(q == Z(n), ch(q) == 47), z3.ForAll([j], z3.Implies(z3.And(6 <= j, j < q), ch(j) != 47), **pats(ch(j))))))
    hit = S(z3.And(home, q < Z(n)))
    r0 = k.rank(path)
    new = b"/home/anonymized"
    k.may_alloc()
    k.may_free(lambda o: And(eq(o, path.o), hit))

    def post(res):
        if k.case(hit):
            c = lambda i: z3.If(Z(i) < len(new), k_lit(new, i), ch(q + Z(i) - len(new)))
            k.newstr(res, S(len(new) + Z(n) - q), None if k.mode == "verify" else ANON(r0), c, "anonymized path")
            if k.mode == "verify":
                k.ensures(Not(alive(k.st.al, path.o)), "the original is freed")
        else:
            k.ensures(eq(res, path), "any other path is returned itself")
    return post


def k_lit(b, i):
    v = z3.IntVal(0)
    for x in range(len(b)):
        v = z3.If(Z(i) == x, z3.IntVal(b[x]), v)
    return v


# ---------------------------------------------------------------- the operating system
OS = "sr_operating_system"
FIELDS = ["name", "version", "cpe", "variant"]
lit = lambda t: z3.RealVal(Engine.lit_rank(t))
NULLR = z3.RealVal(-1)


def osok(k, os, st=None):
    """the texts are NULL or valid strings of their own"""
    st = st or k.st
    fs = [k.fld(os, OS, f, st) for f in FIELDS]
    cs = []
    for i, f in enumerate(fs):
        cs.append(Or(eq(f.o, 0), And(eq(f.p, 0), lt(0, f.o), k.eng.valid_string(st, f), ne(f.o, os.o))))
        cs += [Or(eq(f.o, 0), ne(f.o, g.o)) for g in fs[:i]]
    return And(*cs)


def step(f, key, val, cur):
    """content of a field after an entry"""
    raw = z3.And(key == lit(b"VERSION"), CONTAINS(val, lit(b"(Rawhide)")))
    if f == "version":
        return z3.If(key == lit(b"VERSION_ID"), z3.If(cur == NULLR, val, cur), z3.If(raw, lit(b"rawhide"), cur))
    return z3.If(key == lit({"name": b"ID", "cpe": b"CPE_NAME", "variant": b"VARIANT_ID"}[f]), val, cur)


def ranks(k, os, st):
    return [k.eng.rank0(st, k.fld(os, OS, f, st)) for f in FIELDS]


@contract("os_release_callback", file="operating_system.c")
def _(k, key, value, os):
    k.requires(And(eq(os.p, 0), k.valid(os, k.sizeof(OS))), "operating system")
    for x in (key, value):
        k.requires(And(eq(x.p, 0), lt(0, x.o), k.valid_str(x), ne(x.o, os.o)), "key and value")
    k.requires(ne(key.o, value.o), "distinct")
    k.requires(osok(k, os), "valid texts")
    old = {f: k.fld(os, OS, f) for f in FIELDS}
    for f in FIELDS:
        k.requires(And(ne(old[f].o, key.o), ne(old[f].o, value.o)), "key and value are new")
        off, cls = k.foff(OS, f)
        k.modifies(cls, Ptr(os.o, off), 8)
    kr, vr = Z(k.rank(key)), Z(k.rank(value))
    before = ranks(k, os, k.st)
    raw = S(z3.And(kr == lit(b"VERSION"), CONTAINS(vr, lit(b"(Rawhide)"))))
    k.may_alloc()
    k.may_free(lambda o: Or(eq(o, key.o), eq(o, value.o), And(eq(o, old["version"].o), raw)))

    def post(res):
        if k.mode == "call":
            r = k.case(raw)
            for f in FIELDS:
                v = k.fld(os, OS, f)
                if f == "version":
                    if r:
                        k.newstr(v, 7, lit(b"rawhide"), lambda i: k_lit(b"rawhide", i), "rawhide")
                    else:
                        k.ensures(eq(v, ite(And(kr == lit(b"VERSION_ID"), eq(old[f].o, 0)), value, old[f])))
                else:
                    k.ensures(eq(v, ite(S(kr == lit({"name": b"ID", "cpe": b"CPE_NAME", "variant": b"VARIANT_ID"}[f])), value, old[f])))
        for f, b, a in zip(FIELDS, before, ranks(k, os, k.st)):
            k.ensures(Z(a) == step(f, kr, vr, Z(b)), "%s follows from the entry" % f)
        k.ensures(osok(k, os), "the texts are valid")
        k.ensures(Not(alive(k.st.al, key.o)), "the key is freed")
        if k.mode == "verify":
            for f in FIELDS:
                v = k.fld(os, OS, f)
                k.ensures(Or(eq(v.o, old[f].o), eq(v.o, value.o), And(f == "version", raw)), "%s: kept or the value itself" % f)
    return post


FN = {f: z3.Function("Final_" + f, I, R, R) for f in FIELDS}


@contract("sr_operating_system_parse_etc_os_release", file="operating_system.c", opts={"inline": {"sr_parse_os_release"}})
def _(k, text, os):
    k.requires(k.valid_str(text), "text")
    n = lines_def(k, text)
    k.requires(lt(sub(n, text.p), LIMS), "shorter than 2^30")
    k.requires(And(eq(os.p, 0), k.valid(os, k.sizeof(OS)), ne(os.o, text.o)), "operating system")
    k.requires(osok(k, os), "valid texts")
    old = {f: k.fld(os, OS, f) for f in FIELDS}
    for f in FIELDS:
        k.requires(ne(old[f].o, text.o), "the text is not one of them")
        off, cls = k.foff(OS, f)
        k.modifies(cls, Ptr(os.o, off), 8)
    k.may_alloc()
    k.may_free(lambda o: eq(o, old["version"].o))
    text_, n, good, nxt = k.data["lines"]
    tr = lambda lo, hi: SubRank(k.eng.rank(k.entry, Ptr(text.o, S(lo))), hi - lo)
    p, r = z3.Int("p!fn"), z3.Real("r!fn")
    N = Z(n)
    for f in FIELDS:
        F = FN[f]
        st_ = step(f, tr(p, EQF(p)), UNQ(tr(EQF(p) + 1, NLF(p))), r)
        k.st.fact(z3.ForAll([p, r], z3.Implies(z3.And(Z(text.p) <= p, p <= N, AT(p)),
                  F(p, r) == z3.If(EQF(p) == N, r, F(nxt(p), z3.If(good(p), st_, r)))), patterns=[z3.MultiPattern(F(p, r), AT(p))]))
    before = ranks(k, os, k.st)
    k.data["osdata"] = (text, os, before, n)

    def post(res):
        after = ranks(k, os, k.st)
        for f, b, a in zip(FIELDS, before, after):
            k.ensures(Z(a) == FN[f](Z(text.p), Z(b)), "%s is what the entries say, in order" % f)
        k.ensures(osok(k, os), "the texts are valid")
        k.ensures(Iff(k.eng.tobool(res), And(Z(after[0]) != NULLR, Z(after[1]) != NULLR)), "succeeds iff name and version are known")
    return post


@loops("sr_operating_system_parse_etc_os_release")
def _(eng, L):
    k = eng.k_main
    if "osdata" not in k.data:
        return
    text, os, before, n = k.data["osdata"]
    j = z3.Int("j!at")
    for a, t in L.locals:
        def pos(lv, a=a):
            v = lv.var(a)
            if not isinstance(v, Ptr) or not eng.must(lv.s, eq(v.o, text.o)):
                raise Skip()
            return Z(v.p)
        for i, f in enumerate(FIELDS):
            yield "%s: %s so far" % (a, f), lambda lv, pos=pos, i=i, f=f: z3.And(AT(pos(lv)), Z(text.p) <= pos(lv), pos(lv) <= Z(n), FN[f](pos(lv), Z(ranks(k, os, lv.s)[i])) == FN[f](Z(text.p), Z(before[i])), z3.ForAll([j], AT(j), patterns=[AT(j)]))
    yield "the texts are valid", lambda lv: osok(k, os, lv.s)

    def own(lv):
        v = k.fld(os, OS, "version", lv.s)
        fs = [k.fld(os, OS, f, lv.s) for f in FIELDS]
        v0 = k.fld(os, OS, "version", lv.e)
        return And(Or(eq(v.o, v0.o), lt(eng.entry_wm, v.o)), *[And(ne(f.o, text.o), le(f.o, lv.s.wm)) for f in fs])
    yield "the version may be replaced", own
    yield "text and system stay", lambda lv: And(alive(lv.s.al, text.o), alive(lv.s.al, os.o))


# ---------------------------------------------------------------- /etc/system-release
def low8(c):
    return z3.If(LOWER(c) > 127, LOWER(c) - 256, LOWER(c))


def isvers(c):
    return z3.Or(z3.And(c >= 48, c <= 57), c == 46)


@contract("sr_operating_system_parse_etc_system_release", file="operating_system.c")
def _(k, text, name, version):
    from trusted import NCASE
    k.requires(k.valid_str(text), "text")
    n = k.nul(text)
    k.requires(lt(sub(n, text.p), LIMS), "shorter than 2^30")
    cell(k, name, 8, text)
    cell(k, version, 8, text, name)
    k.modifies("ptr", name, 8)
    k.modifies("ptr", version, 8)
    k.may_alloc()
    r0 = k.rank(text)
    sep, rh_ = lit(b" release "), lit(b"Red Hat Enterprise Linux")
    old = k.ld("ptr", version)
    ent = k.entry.mem["i8"]
    ch = lambda i: Z(k.eng._read(k.st, ent, "i8", text.o, S(i), False))
    rel = Z(text.p) + FIRSTAT(r0, sep)
    hit = CONTAINS(r0, sep)
    rh = NCASE(r0, rh_, 24)
    c, j, e = z3.Int("c!low"), z3.Int("j!sr"), fresh_int("versend")
    k.st.fact(z3.ForAll([c], (LOWER(c) == 0) == (c == 0), patterns=[LOWER(c)]))
    k.st.fact(z3.ForAll([c], z3.And(LOWER(c) >= -128, LOWER(c) <= 255), patterns=[LOWER(c)]))
    b = rel + 9
    k.st.fact(z3.Implies(hit, z3.And(b <= e, e <= Z(n), z3.Not(isvers(ch(e))), z3.ForAll([j], z3.Implies(z3.And(b <= j, j < e), isvers(ch(j))), **pats(ch(j))))))
    k.data["sysrel"] = (text, n, ch)
    ok = z3.And(hit, z3.Or(rh, rel > Z(text.p)))

    def post(res):
        k.ensures(Iff(k.eng.tobool(res), ok), "succeeds iff there is a name and ' release '")
        if k.case(S(ok)):
            nm, v = k.ld("ptr", name), k.ld("ptr", version)
            if k.case(rh):
                k.newstr(nm, 4, None if k.mode == "call" else SubRank(lit(b"rhel"), 4), lambda i: k_lit(b"rhel", i), "name")
            else:
                k.newstr(nm, S(rel - Z(text.p)), None, lambda i: low8(ch(Z(text.p) + Z(i))), "name in lower case")
            end = z3.If(e == b, Z(n), e)
            k.newstr(v, S(end - b), None, lambda i: ch(b + Z(i)), "version")
        else:
            k.ensures(eq(k.ld("ptr", version), old), "no version on failure")
    return post


@loops("sr_operating_system_parse_etc_system_release")
def _(eng, L):
    k = eng.k_main
    if "sysrel" not in k.data:
        return
    text, n, ch = k.data["sysrel"]
    j = z3.Int("j!sr")
    for a, t in L.locals:
        def ver(lv, a=a):
            v, v0 = lv.var(a), lv.var0(a)
            if not isinstance(v, Ptr) or not eng.must(lv.s, eq(v.o, text.o)):
                raise Skip()
            return z3.And(Z(v0.p) <= Z(v.p), Z(v.p) <= Z(n), z3.ForAll([j], z3.Implies(z3.And(Z(v0.p) <= j, j < Z(v.p)), isvers(ch(j))), **pats(ch(j))))
        yield "%s: digits and dots" % a, ver

        def low(lv, a=a):
            v, v0 = lv.var(a), lv.var0(a)
            if not isinstance(v, Ptr) or eng.must(lv.s, eq(v.o, text.o)):
                raise Skip()
            o = L.entry.mem["i8"]
            rd = Z(eng._read(lv.s, lv.s.mem["i8"], "i8", v.o, j, False))
            r0 = Z(eng._read(lv.s, o, "i8", v.o, j, False))
            N = Z(eng.nul(L.entry, v0.o, 0))
            return z3.And(Z(v.o) == Z(v0.o), 0 <= Z(v.p), Z(v.p) <= N, z3.ForAll([j], z3.Implies(z3.And(0 <= j, j <= N), rd == z3.If(j < Z(v.p), low8(r0), r0)), **pats(rd)))
        yield "%s: lower case so far" % a, low

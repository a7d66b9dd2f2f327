"""Trusted contracts of functions outside satyr (libc, GLib).  Every one of these is an assumption, reported in the
evidence of each check that used it."""
import re
import z3
from sym import *
import sym
from engine import *

T = {}


def trusted(*names):
    def d(f):
        for n in names:
            T[n] = f
        return f
    return d


def req_str(e, st, p, who):
    e.oblige(st, e.valid_string(st, p), "precondition of %s/valid string" % who)


def fresh_str(e, st, length, rank, char):
    """allocate a fresh object that holds the given string"""
    o = e.alloc(st, add(length, 1))
    st.mem["i8"] = StrNode(st.mem["i8"], o, length, rank, char)
    return Ptr(o, 0)


def opaque_str(e, st, name):
    """fresh heap string with unknown content"""
    n = fresh_int("len." + name)
    st.fact(And(le(0, n), lt(n, 1 << 31)))
    f = z3.Function("chr!%d" % next(sym._ctr), I, I)
    r = fresh_real("rank." + name)
    st.fact(z3.And(r >= 1, r < 2, (r == 1) == (n == 0)))
    j = z3.Int("j!o")
    st.fact(z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < n), f(j) != 0), patterns=[f(j)]))
    return fresh_str(e, st, n, r, lambda eng, s, p: f(Z(p)))


@trusted("strlen")
def _(e, st, a, ins):
    req_str(e, st, a[0], "strlen")
    return sub(e.nul(st, a[0].o, a[0].p), a[0].p)


def cmp_ranks(e, st, ra, rb, a=None, b=None):
    r = CMP(ra, rb)
    st.fact(z3.And((r < 0) == (ra < rb), (r == 0) == (ra == rb), r >= -255, r <= 255))
    return r


def link(e, st, p, lit):
    """content equality with a literal <=> character-wise equality"""
    if len(lit) > 40:
        return
    cs = []
    for i, b in enumerate(lit + b"\0"):
        cs.append(eq(e.char(st, p, i), wrap_c(b, 8)))
    st.fact(Iff(e.rank(st, p) == z3.RealVal(e.lit_rank(lit)), And(*cs)))


CMP = z3.Function("StrCmp", R, R, I)


@trusted("strcmp")
def _(e, st, a, ins):
    req_str(e, st, a[0], "strcmp")
    req_str(e, st, a[1], "strcmp")
    if e.opts.get("link"):
        for x, y in ((a[0], a[1]), (a[1], a[0])):
            l = e.lit(y)
            if l is not None and e.lit(x) is None:
                link(e, st, x, l)
    return cmp_ranks(e, st, e.rank(st, a[0]), e.rank(st, a[1]))


@trusted("g_strcmp0")
def _(e, st, a, ins):
    for p in a[:2]:
        e.oblige(st, Or(eq(p.o, 0), e.valid_string(st, p)), "precondition of g_strcmp0/valid string or NULL")
    return cmp_ranks(e, st, e.rank0(st, a[0]), e.rank0(st, a[1]))


NCASE = z3.Function("EqualIgnoringCase", R, R, I, B)


@trusted("strncmp", "strncasecmp")
def _(e, st, a, ins):
    req_str(e, st, a[0], "strncmp")
    req_str(e, st, a[1], "strncmp")
    n = a[2]
    l = e.lit(a[1])
    o = a[0]
    if l is None:
        l = e.lit(a[0])
        o = a[1]
    r = fresh_int("strncmp")
    st.fact(rng(r, 32))
    if l is not None and is_c(n) and "case" not in ins.text:
        m = min(n, len(l) + 1)
        cs = []
        for i in range(m):
            c = l[i] if i < len(l) else 0
            cs.append(eq(e.char(st, o, i), wrap_c(c, 8)))
        st.fact(Iff(r == 0, And(*cs)))
    elif "case" in ins.text and l is not None and is_c(n):
        st.fact(z3.And((r == 0) == NCASE(e.rank(st, o), z3.RealVal(e.lit_rank(l)), n), z3.Implies(r == 0, Z(e.nul(st, o.o, o.p)) - Z(o.p) >= min(n, len(l)))))
    elif "case" not in ins.text:
        # equal iff every position before n (and before a common NUL) agrees
        j = z3.Int("j!sn")
        A, Bp = a[0], a[1]
        nn = u(n, 64)
        na, nb = sub(e.nul(st, A.o, A.p), A.p), sub(e.nul(st, Bp.o, Bp.p), Bp.p)
        ca = Z(e.char_q(st, A, j))
        cb = Z(e.char_q(st, Bp, j))
        st.fact(z3.Implies(r == 0, z3.And(
            z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < Z(nn), j <= Z(na), j <= Z(nb)), ca == cb)),
            z3.Or(Z(na) >= Z(nn), Z(na) == Z(nb)))))
        w = fresh_int("differs")
        st.fact(z3.Implies(r != 0, z3.And(0 <= w, w < Z(nn), w <= Z(na), w <= Z(nb), Z(e.char_q(st, A, w)) != Z(e.char_q(st, Bp, w)))))
    return r


@trusted("strchr", "index")
def _(e, st, a, ins):
    s, c = a
    req_str(e, st, s, "strchr")
    c = e.wrap(st, c, 8, once=False) if not is_c(c) else wrap_c(c, 8)
    N = e.nul(st, s.o, s.p)
    l = e.lit(s)
    q = fresh_int("strchr")
    j = z3.Int("j!sc")

    def found(s2):
        s2.fact(And(le(s.p, q), le(q, N)))
        s2.fact(eq(e.char(s2, Ptr(s.o, q), 0), c))
        if l is None:
            s2.fact(Or(eq(c, 0), e.inset(s2, s, c)))
            # first occurrence
            s2.fact(z3.ForAll([j], z3.Implies(z3.And(Z(s.p) <= j, j < q), Z(e.char_q(s2, Ptr(s.o, j), 0)) != Z(c)),
                              **pat(e, s2, s, j)))
        return Ptr(s.o, q)

    def absent(s2):
        s2.fact(ne(c, 0))
        if l is None:
            s2.fact(Not(e.inset(s2, s, c)))
            s2.fact(z3.ForAll([j], z3.Implies(z3.And(Z(s.p) <= j, j <= Z(N)), Z(e.char_q(s2, Ptr(s.o, j), 0)) != Z(c)),
                              **pat(e, s2, s, j)))
        return NULL
    if l is not None:
        ins_ = Or(eq(c, 0), e.inset(st, s, c))
        return Cases((ins_, found), (Not(ins_), absent))
    return Cases((True, found), (True, absent))


def pat(e, st, s, j):
    t = e.char_q(st, Ptr(s.o, j), 0)
    if z3.is_expr(t) and z3.is_app(t) and t.decl().kind() == z3.Z3_OP_UNINTERPRETED:
        return {"patterns": [t]}
    return {}


@trusted("strchrnul")
def _(e, st, a, ins):
    s, c = a
    req_str(e, st, s, "strchrnul")
    c = e.wrap(st, c, 8, once=False) if not is_c(c) else wrap_c(c, 8)
    N = e.nul(st, s.o, s.p)
    q = fresh_int("strchrnul")
    j = z3.Int("j!scn")
    st.fact(And(le(s.p, q), le(q, N)))
    st.fact(Or(eq(e.char(st, Ptr(s.o, q), 0), c), eq(q, N)))
    st.fact(z3.ForAll([j], z3.Implies(z3.And(Z(s.p) <= j, j < q), Z(e.char_q(st, Ptr(s.o, j), 0)) != Z(c)), **pat(e, st, s, j)))
    return Ptr(s.o, q)


LOWER = z3.Function("ToLower", I, I)


@trusted("tolower")
def _(e, st, a, ins):
    c = a[0]
    e.oblige(st, And(le(-128, c), le(c, 255)), "precondition of tolower/a character")
    if is_c(c):
        return c + 32 if 65 <= c <= 90 else c
    st.fact(z3.And(z3.Implies(z3.And(Z(c) >= 0, Z(c) < 128), LOWER(Z(c)) == z3.If(z3.And(Z(c) >= 65, Z(c) <= 90), Z(c) + 32, Z(c))), LOWER(Z(c)) >= -128, LOWER(Z(c)) <= 255, (LOWER(Z(c)) == 0) == (Z(c) == 0)))
    return LOWER(Z(c))


@trusted("strrchr")
def _(e, st, a, ins):
    s, c = a
    req_str(e, st, s, "strrchr")
    c = e.wrap(st, c, 8, once=False) if not is_c(c) else wrap_c(c, 8)
    N = e.nul(st, s.o, s.p)
    q = fresh_int("strrchr")
    j = z3.Int("j!sr")

    def found(s2):
        s2.fact(And(le(s.p, q), le(q, N)))
        s2.fact(eq(e.char(s2, Ptr(s.o, q), 0), c))
        s2.fact(z3.ForAll([j], z3.Implies(z3.And(q < j, j <= Z(N)), Z(e.char_q(s2, Ptr(s.o, j), 0)) != Z(c)),
                          **pat(e, s2, s, j)))
        return Ptr(s.o, q)

    def absent(s2):
        s2.fact(ne(c, 0))
        s2.fact(z3.ForAll([j], z3.Implies(z3.And(Z(s.p) <= j, j <= Z(N)), Z(e.char_q(s2, Ptr(s.o, j), 0)) != Z(c)),
                          **pat(e, s2, s, j)))
        return NULL
    return Cases((True, found), (True, absent))


def matches_at(e, st, h, q, lit):
    return And(*[eq(e.char(st, Ptr(h.o, q), i), wrap_c(b, 8)) for i, b in enumerate(lit)])


@trusted("strstr")
def _(e, st, a, ins):
    h, n = a
    req_str(e, st, h, "strstr")
    req_str(e, st, n, "strstr")
    l = e.lit(n)
    N = e.nul(st, h.o, h.p)
    q = fresh_int("strstr")
    nl = len(l) if l is not None else sub(e.nul(st, n.o, n.p), n.p)
    j = z3.Int("j!ss")

    rh, rn = e.rank(st, h), e.rank(st, n)

    def found(s2):
        s2.fact(And(le(h.p, q), le(add(q, nl), N)))
        s2.fact(z3.And(CONTAINS(rh, rn), q == Z(h.p) + FIRSTAT(rh, rn)))
        if l is not None:
            s2.fact(matches_at(e, s2, h, q, l))
        else:
            i = z3.Int("i!ss")
            s2.fact(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < Z(nl)),
                                              Z(e.char_q(s2, Ptr(h.o, q), i)) == Z(e.char_q(s2, n, i)))))
        return Ptr(h.o, q)

    def absent(s2):
        s2.fact(z3.Not(CONTAINS(rh, rn)))
        return NULL
    return Cases((True, found), (True, absent))


CONTAINS = z3.Function("Contains", R, R, B)
FIRSTAT = z3.Function("FirstOccurrence", R, R, I)


def span(e, st, s, setp, positive, who):
    req_str(e, st, s, who)
    req_str(e, st, setp, who)
    N = e.nul(st, s.o, s.p)
    n = fresh_int(who)
    j = z3.Int("j!sp")
    st.fact(And(le(0, n), le(add(s.p, n), N)))

    def cond(c):
        x = e.inset(st, setp, c)
        return x if positive else And(Not(x), ne(c, 0))
    cj = Z(e.char_q(st, Ptr(s.o, j), 0))
    st.fact(z3.ForAll([j], z3.Implies(z3.And(Z(s.p) <= j, j < Z(s.p) + n), Z(cond(cj))), **pat(e, st, s, j)))
    st.fact(Not(cond(e.char(st, Ptr(s.o, add(s.p, n)), 0))))
    e.char(st, s, 0)
    return n


@trusted("strspn")
def _(e, st, a, ins):
    return span(e, st, a[0], a[1], True, "strspn")


@trusted("strcspn")
def _(e, st, a, ins):
    return span(e, st, a[0], a[1], False, "strcspn")


@trusted("__ctype_b_loc")
def _(e, st, a, ins):
    # table entry i of the C locale is at index i (2 bytes each); see engine.op_and
    st.nloc += 1
    o = -st.nloc
    st.sizes[o] = 8
    st.mem["ptr"] = Store(st.mem["ptr"], o, 0, Ptr(CTYPE_OBJ, 0))
    return Ptr(o, 0)


# ------------------------------------------------------------------ allocation
def alloc_fn(zero, mulargs=False):
    def f(e, st, a, ins):
        n = u(a[0], 64)
        if mulargs:
            n = mul(n, u(a[1], 64))
        o = e.alloc(st, n, zero)
        if e.must(st, lt(0, n)):
            return Ptr(o, 0)
        # g_malloc(0) is NULL
        return Cases((eq(n, 0), lambda s: NULL), (lt(0, n), lambda s: Ptr(o, 0)))
    return f


T["g_malloc"] = T["g_malloc_n"] = None
T["g_malloc"] = alloc_fn(False)
T["g_malloc0"] = alloc_fn(True)
T["g_malloc_n"] = alloc_fn(False, True)
T["g_malloc0_n"] = alloc_fn(True, True)


@trusted("g_realloc", "g_realloc_n")
def _(e, st, a, ins):
    n = u(a[1], 64)
    if len(a) > 2:
        n = mul(n, u(a[2], 64))
    old = a[0]

    def do(s, isnull):
        if not isnull:
            e.free(s, old)
        mem = dict(s.mem)
        o = e.alloc(s, n)
        if not isnull:
            osz = Size(Z(old.o))
            hi = S(z3.If(osz < Z(n), osz, Z(n)))
            for c in CLASSES:
                s.mem[c] = Copy(s.mem[c], o, 0, hi, mem[c], old.o, 0)
        return Ptr(o, 0)
    e.oblige(st, lt(0, n), "g_realloc to a non-zero size")
    return Cases((eq(old.o, 0), lambda s: do(s, True)), (ne(old.o, 0), lambda s: do(s, False)))


@trusted("g_free", "free")
def _(e, st, a, ins):
    e.free(st, a[0])
    return None


@trusted("g_strdup", "strdup")
def _(e, st, a, ins):
    src = a[0]

    def dup(s):
        req_str(e, s, src, "g_strdup")
        ch = s.mem["i8"]
        N = e.nul(s, src.o, src.p)
        r = e.rank(s, src)
        return fresh_str(e, s, sub(N, src.p), r,
                         lambda eng, s2, p, ch=ch: eng._read(s2, ch, "i8", src.o, add(src.p, p), True)
                         if not (is_c(src.o) and src.o <= -1000000) else eng.read_global(s2, "i8", src.o, add(src.p, p)))
    return Cases((eq(src.o, 0), lambda s: NULL), (ne(src.o, 0), dup))


@trusted("g_strndup")
def _(e, st, a, ins):
    src, n = a[0], u(a[1], 64)

    def dup(s):
        # reads at most n characters, stopping at NUL
        ch = s.mem["i8"]
        N = e.nul(s, src.o, src.p)
        e.oblige(s, Or(e.valid_string(s, src), e.valid_cond(s, src, n)), "precondition of g_strndup/readable")
        L = S(z3.If(Z(n) < Z(N) - Z(src.p), Z(n), Z(N) - Z(src.p)))
        r0 = e.rank(s, src)
        r = SubRank(r0, Z(L))
        s.fact(z3.And(r >= 1, r < 2, (r == 1) == Z(eq(L, 0)), z3.Implies(Z(eq(L, sub(N, src.p))), r == r0)))
        return fresh_str(e, s, L, r,
                         lambda eng, s2, p, ch=ch: eng._read(s2, ch, "i8", src.o, add(src.p, p), True)
                         if not (is_c(src.o) and src.o <= -1000000) else eng.read_global(s2, "i8", src.o, add(src.p, p)))
    return Cases((eq(src.o, 0), lambda s: NULL), (ne(src.o, 0), dup))




def strto(unsigned, limit):
    def f(e, st, a, ins):
        s, endp, base = a
        req_str(e, st, s, "strto*")
        if not (is_c(base) and base in (10, 16)):
            raise Unsupported("strto* base")
        val = DEC if base == 10 else HEX
        N = e.nul(st, s.o, s.p)
        V = val(e.rank(st, s))
        c = fresh_int("sj")
        x = Z(e.char_q(st, s, c))
        dig = And(le(48, x), le(x, 57))
        if base == 16:
            dig = Or(dig, And(le(65, x), le(x, 70)), And(le(97, x), le(x, 102)))
        if e.opts.get("strto") == "general":
            # any text: success, value and end are functions of the text
            r = e.rank(st, s)
            ok, v = STRTO_OK(r), STRTO_VAL(r)
            end, err = fresh_int("strtoend"), z3.FreshConst(z3.BoolSort(), "strtoerr")
            st.fact(z3.And(Z(s.p) <= end, end <= Z(N), v >= 0, v <= limit, ok == z3.And(z3.Not(err), end > Z(s.p), end == Z(N))))
            if not (is_c(endp.o) and endp.o == 0):
                e.check_access(st, endp, 8, "strto* endptr")
                e.store(st, "ptr", endp, Ptr(s.o, end))
            eo = st.ghost.get("errno")
            if eo is not None:
                old = e.read(st, "i32", eo, 0)
                st.mem["i32"] = Store(st.mem["i32"], eo, 0, ite(err, 34, old))
                for d in e.dryloops:
                    d.writes.append(("i32", eo, 0, st))
            return S(z3.If(v >= (1 << 63), v - (1 << 64), v))
        e.oblige(st, And(lt(s.p, N), Implies(And(le(0, c), lt(c, sub(N, s.p))), dig)),
                 "precondition of strto*/only digits (the modelled subset)")
        st.fact(V >= 0)
        if not (is_c(endp.o) and endp.o == 0):
            e.check_access(st, endp, 8, "strto* endptr")
            e.store(st, "ptr", endp, Ptr(s.o, N))
        eo = st.ghost.get("errno")
        over = V > limit
        if eo is not None:
            old = e.read(st, "i32", eo, 0)
            st.mem["i32"] = Store(st.mem["i32"], eo, 0, ite(over, 34, old))
            for d in e.dryloops:
                d.writes.append(("i32", eo, 0, st))
        r = z3.If(over, limit, V)
        return S(z3.If(r >= (1 << 63), r - (1 << 64), r))
    return f


T["strtoul"] = T["strtoull"] = T["__isoc23_strtoul"] = T["__isoc23_strtoull"] = strto(True, (1 << 64) - 1)
SubRank = z3.Function("SubRank", R, I, R)
DEC = z3.Function("DecimalValue", R, I)
HEX = z3.Function("HexValue", R, I)
STRTO_OK = z3.Function("StrtoulAcceptsAll", R, B)
STRTO_VAL = z3.Function("StrtoulValue", R, I)


def concat(e, st, parts, args):
    """text put together from literals and strings"""
    pieces, total = [], 0
    ch = st.mem["i8"]
    for x in parts:
        if x == b"%s":
            p = args.pop(0)
            req_str(e, st, p, "printf %s")
            n = sub(e.nul(st, p.o, p.p), p.p)
            l = e.lit(p)
            rd = (lambda i, p=p: Z(e._read(st, ch, "i8", p.o, add(p.p, i), False))) if l is None else None
            pieces.append((total, n, l, rd))
        elif x:
            n, l, rd = len(x), x, None
            pieces.append((total, n, l, rd))
        else:
            continue
        total = add(total, n)

    def char(eng, s2, q):
        r = z3.IntVal(0)
        for off, n, l, rd in reversed(pieces):
            i = S(Z(q) - Z(off))
            if l is not None:
                v = z3.IntVal(0)
                for x in range(len(l)):
                    v = z3.If(Z(i) == x, z3.IntVal(wrap_c(l[x], 8)), v)
            else:
                v = rd(i)
            r = z3.If(z3.And(Z(off) <= Z(q), Z(q) < Z(off) + Z(n)), v, r)
        return r
    r = fresh_real("rank.concat")
    st.fact(z3.And(r >= 1, r < 2, (r == 1) == Z(eq(total, 0))))
    return fresh_str(e, st, total, r, char)


@trusted("g_strdup_printf", "g_strdup_vprintf", "g_strconcat", "g_strjoin")
def _(e, st, a, ins):
    fmt = e.lit(a[0]) if "printf" in ins.text and "vprintf" not in ins.text else None
    parts = re.split(rb"(%s)", fmt) if fmt is not None else None
    if parts and not any(b"%" in x and x != b"%s" for x in parts):
        return concat(e, st, parts, list(a[1:]))
    return opaque_str(e, st, "printf")


@trusted("abort", "exit", "__assert_fail", "g_assertion_message_expr", "g_assertion_message", "g_abort")
def _(e, st, a, ins):
    e.oblige(st, False, "no-abort")
    return Stop()


@trusted("warn", "g_log", "g_warning", "fprintf", "printf", "vfprintf", "fputs", "fputc", "putchar", "g_printerr", "__warn_stub")
def _(e, st, a, ins):
    return 0


@trusted("qsort")
def _(e, st, a, ins):
    """the array of pointers to the elements of a list becomes the sorted permutation of itself; the order is the one of the comparator's contract"""
    arr, n, sz, cmp = a
    k = e.k_main
    g = k.data.get("g")
    name = e.prog.gobj[cmp.o][1] if isinstance(cmp, Ptr) and is_c(cmp.o) and cmp.o in e.prog.gobj else None
    if g is None or sz != 8 or name not in e.contracts:
        raise Unsupported("qsort of this array")
    to, fr = k.data["perm"]
    i = z3.Int("i!qs")
    e.oblige(st, e.valid_cond(st, arr, S(8 * Z(n))), "precondition of qsort/array")
    e.oblige(st, eq(n, g.n), "precondition of qsort/all elements")
    c = e._read(st, st.mem["ptr"], "ptr", arr.o, S(Z(arr.p) + 8 * i), False)
    e.oblige(st, z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < Z(n)), z3.And(Z(c.o) == g.at(i), Z(c.p) == 0)), patterns=[g.at(i)]), "precondition of qsort/the array holds the elements")
    nb = Base("ptr", st.wm)
    st.mem["ptr"] = Havoc(st.mem["ptr"], lambda o, p: eq(o, arr.o), nb, lambda o: eq(o, arr.o))
    for d in e.dryloops:
        d.writes.append(("ptr", arr.o, None, st))
    c = e._read(st, st.mem["ptr"], "ptr", arr.o, S(Z(arr.p) + 8 * i), False)
    cp = [Z(c.o)] if z3.is_app(Z(c.o)) and Z(c.o).decl().kind() == z3.Z3_OP_UNINTERPRETED else []
    st.fact(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < Z(n)), z3.And(0 <= fr(i), fr(i) < Z(n), to(fr(i)) == i, Z(c.o) == g.at(fr(i)), Z(c.p) == 0)), patterns=[fr(i)] + cp))
    st.fact(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < Z(n)), z3.And(0 <= to(i), to(i) < Z(n), fr(to(i)) == i)), patterns=[to(i)]))
    return None


@trusted("__errno_location")
def _(e, st, a, ins):
    o = st.ghost.get("errno")
    if o is None:
        st.nloc += 1
        o = -st.nloc
        st.sizes[o] = 4
        st.ghost["errno"] = o
        b = Base("i32", st.wm)
        st.mem["i32"] = Havoc(st.mem["i32"], lambda oo, pp: eq(oo, o), b, lambda oo: eq(oo, o))
    return Ptr(o, 0)


ALLOCATORS.update(["g_malloc", "g_malloc0", "g_strdup", "g_strndup", "g_strdup_printf", "g_realloc", "g_malloc_n",
                   "g_malloc0_n", "g_realloc_n", "g_strconcat"])


@trusted("g_strdupv")
def _(e, st, a, ins):
    """NULL for NULL, otherwise a new array of new strings (content opaque); remembered for contracts that speak about it"""
    src = a[0]

    def dup(s):
        r = opaque_str(e, s, "strv")
        s.ghost["strdupv"] = s.ghost.get("strdupv", ()) + ((src, r),)
        return r

    def none(s):
        s.ghost["strdupv"] = s.ghost.get("strdupv", ()) + ((src, NULL),)
        return NULL
    return Cases((eq(src.o, 0), none), (ne(src.o, 0), dup))


# ------------------------------------------------------------------ GString: a text that only grows
# struct GString { gchar *str; gsize len; gsize allocated_len; }.  The buffer is modelled as one object of unlimited size (growing
# never moves it), so code that keeps a pointer into an old buffer is not covered.
GBUF = 1 << 60


def gs_parts(e, st, g, who):
    e.oblige(st, e.valid_cond(st, g, 24), "precondition of %s/valid GString" % who)
    b = e.read(st, "ptr", g.o, g.p)
    n = e.read(st, "i64", g.o, add(g.p, 8))
    return b, n


def gs_setlen(e, st, g, b, n):
    e.store(st, "i8", Ptr(b.o, S(n)), 0)
    e.store(st, "i64", Ptr(g.o, add(g.p, 8)), S(n))


def gs_put(e, st, b, n, chars):
    for i, c in enumerate(chars):
        e.store(st, "i8", Ptr(b.o, add(n, i)), c)
    return add(n, len(chars))


def gs_text(e, st, b, n, s, who, length=None):
    """append the text at s (up to its end, or length bytes) at position n of the buffer"""
    l = e.lit(s)
    if l is not None and length is None and len(l) <= 64:
        return gs_put(e, st, b, n, [wrap_c(x, 8) for x in l])
    req_str(e, st, s, who)
    m = sub(e.nul(st, s.o, s.p), s.p) if length is None else length
    if is_c(s.o) and s.o <= -1000000:
        raise Unsupported("append of a long or varying literal")
    e.frame_region(st, "i8", b.o, n, add(n, m))
    st.mem["i8"] = Copy(st.mem["i8"], b.o, n, add(n, m), st.mem["i8"], s.o, s.p)
    return add(n, m)


@trusted("g_string_new", "g_string_sized_new")
def _(e, st, a, ins):
    g = Ptr(e.alloc(st, 24), 0)
    b = Ptr(e.alloc(st, GBUF), 0)
    e.store(st, "ptr", g, b)
    st.ghost["gstrings"] = st.ghost.get("gstrings", ()) + ((g, b),)
    n = 0
    if "sized" not in ins.text and not (is_c(a[0].o) and a[0].o == 0):
        if not (is_c(a[0].o) and a[0].o < 0) and not e.must(st, ne(a[0].o, 0)):
            raise Unsupported("g_string_new of a text that may be absent")
        n = gs_text(e, st, b, 0, a[0], "g_string_new")
    gs_setlen(e, st, g, b, n)
    return g


@trusted("g_string_append_c")
def _(e, st, a, ins):
    b, n = gs_parts(e, st, a[0], "g_string_append_c")
    c = e.wrap(st, a[1], 8, once=False) if not is_c(a[1]) else wrap_c(a[1], 8)
    e.oblige(st, ne(c, 0), "precondition of g_string_append_c/not a NUL (GStrings are used as C strings)")
    gs_setlen(e, st, a[0], b, gs_put(e, st, b, n, [c]))
    return a[0]


@trusted("g_string_append")
def _(e, st, a, ins):
    b, n = gs_parts(e, st, a[0], "g_string_append")
    gs_setlen(e, st, a[0], b, gs_text(e, st, b, n, a[1], "g_string_append"))
    return a[0]


@trusted("g_string_append_printf")
def _(e, st, a, ins):
    b, n = gs_parts(e, st, a[0], "g_string_append_printf")
    f = e.lit(a[1])
    if f is None:
        raise Unsupported("format that is not a literal")
    f = f.decode("latin1")
    i, args = 0, list(a[2:])
    while i < len(f):
        if f[i] != "%":
            n = gs_put(e, st, b, n, [wrap_c(ord(f[i]), 8)])
            i += 1
        elif f.startswith("%%", i):
            n = gs_put(e, st, b, n, [37])
            i += 2
        elif f.startswith("%s", i):
            n = gs_text(e, st, b, n, args.pop(0), "g_string_append_printf")
            i += 2
        elif f.startswith("%04x", i):
            v = args.pop(0)
            if not e.must(st, And(le(0, v), lt(v, 1 << 16))):
                raise Unsupported("%04x of a large number")
            hexd = lambda x: S(z3.If(x < 10, x + 48, x + 87))
            n = gs_put(e, st, b, n, [hexd(Z(v) / (1 << (4 * q)) % 16) for q in (3, 2, 1, 0)])
            i += 4
        else:
            m = re.match(r"%(l|ll|h|hh|z)?([dux])", f[i:])
            if not m:
                raise Unsupported("format %s" % f)
            w = 64 if m.group(1) in ("l", "ll", "z") else 32
            v = args.pop(0)
            v = u(v, w) if m.group(2) != "d" else v
            kind = m.group(2)
            # the digits of a number: a text that is a function of the number
            ln, ch = NumLen[kind], NumChar[kind]
            j = z3.Int("j!num")
            st.fact(z3.And(ln(Z(v)) >= 1, ln(Z(v)) <= 21))
            st.fact(z3.ForAll([j], ch(Z(v), j) != 0, patterns=[ch(Z(v), j)]))
            st.nloc += 1
            src = StrNode(Base("i8", st.wm), -st.nloc, ln(Z(v)), fresh_real("rank.num"), lambda eng, s, p, v=v, ch=ch: ch(Z(v), Z(p)))
            e.frame_region(st, "i8", b.o, n, add(n, ln(Z(v))))
            st.mem["i8"] = Copy(st.mem["i8"], b.o, n, add(n, ln(Z(v))), src, -st.nloc, 0)
            n = add(n, ln(Z(v)))
            i += m.end()
    gs_setlen(e, st, a[0], b, n)
    return a[0]


NumLen = {c: z3.Function("NumLen_" + c, I, I) for c in "dux"}
NumChar = {c: z3.Function("NumChar_" + c, I, I, I) for c in "dux"}


@trusted("g_string_free")
def _(e, st, a, ins):
    b, n = gs_parts(e, st, a[0], "g_string_free")
    e.free(st, a[0])
    if not is_c(a[1]):
        raise Unsupported("g_string_free with a varying flag")
    if a[1]:
        e.free(st, b)
        return NULL
    # the text has no embedded NUL: every append was checked for it
    ch = st.mem["i8"]
    e.free(st, b)
    r = fresh_real("rank.gstr")
    st.fact(z3.And(r >= 1, r < 2, (r == 1) == Z(eq(n, 0)), Z(le(0, n))))
    q = fresh_str(e, st, n, r, lambda eng, s, p: eng._read(s, ch, "i8", b.o, p, False))
    st.ghost["gtexts"] = st.ghost.get("gtexts", ()) + ((q, b, ch),)
    return q


ALLOCATORS.update(["g_string_new", "g_string_sized_new", "g_string_free"])

"""Escaping of text for JSON and indentation"""
from spec import *
from engine import Skip
from lists import pats

EP = z3.Function("EscPos", I, I)        # position of the encoding of character i in the encoded text
IP = z3.Function("IndentPos", I, I)     # position of character i in the indented text
LIMS = 1 << 28
SHORT = {34: b'\\"', 92: b"\\\\", 10: b"\\n", 13: b"\\r", 12: b"\\f", 8: b"\\b", 9: b"\\t"}


def elen(c):
    r = z3.If(z3.And(c > 0, c < 32), 6, 1)
    for b in SHORT:
        r = z3.If(c == b, 2, r)
    return r


def enc(c, k):
    """k-th byte of the encoding of character c"""
    hexd = lambda x: z3.If(x < 10, x + 48, x + 87)
    u6 = [z3.IntVal(92), z3.IntVal(117), z3.IntVal(48), z3.IntVal(48), hexd(c / 16), hexd(c % 16)]
    r = z3.If(z3.And(c > 0, c < 32), u6[k], c if k == 0 else z3.IntVal(0))
    for b, t in SHORT.items():
        r = z3.If(c == b, z3.IntVal(t[k]) if k < 2 else z3.IntVal(0), r)
    return r


def src(k, s):
    """(length, character function) of the source text"""
    n = sub(k.eng.nul(k.entry, s.o, s.p), s.p)
    ch = k.entry.mem["i8"]
    return n, lambda i: Z(k.eng._read(k.st, ch, "i8", s.o, add(s.p, i), False))


def posdef(k, P, n, step, ch, top):
    """P(0)=0, P(i+1)=P(i)+step(i), strictly increasing (lemma "pos")"""
    i, j = z3.Ints("i!pos j!pos")
    k.st.fact(P(0) == 0)
    k.st.fact(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < Z(n)), z3.And(P(i + 1) == P(i) + step(i))), patterns=[z3.MultiPattern(P(i), ch(i))]))
    k.st.fact(z3.ForAll([i, j], z3.Implies(z3.And(0 <= i, i < j, j <= Z(n)), z3.And(P(i) + step(i) <= P(j))), patterns=[z3.MultiPattern(P(i), P(j))]))
    k.st.fact(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i <= Z(n)), z3.And(i <= P(i), P(i) <= top * i)), patterns=[P(i)]))


def encoded(k, st, buf, base, ch, upto, chain=None):
    """the characters before `upto` are encoded in buf from offset base on"""
    j = z3.Int("j!enc")
    m = chain if chain is not None else st.mem["i8"]
    rd = lambda q: Z(k.eng._read(st, m, "i8", buf.o, S(Z(base) + EP(j) + q), False))
    return z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < Z(upto)), z3.And([z3.Implies(q < elen(ch(j)), rd(q) == enc(ch(j), q)) for q in range(6)])), patterns=[EP(j)])


@contract("sr_json_escape", file="json_utils.c")
def _(k, text):
    k.requires(k.valid_str(text), "text")
    n, ch = src(k, text)
    k.requires(lt(n, LIMS), "shorter than 2^28")
    posdef(k, EP, n, lambda i: elen(ch(i)), ch, 6)
    k.may_alloc()
    k.data["src"] = (text, n, ch)
    L = EP(Z(n))

    def post(res):
        if k.mode == "verify":
            k.newstr(res, L, None, None, "escaped text")
            k.ensures(encoded(k, k.st, res, 0, ch, n), "every character in order, quotes, backslashes and control characters escaped")
        else:
            f = z3.Function("Escaped", I, I)
            j = z3.Int("j!esc")
            k.st.fact(z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < L), f(j) != 0), patterns=[f(j)]))
            k.newstr(res, L, None, lambda p: f(Z(p)), "escaped text")
            k.ensures(encoded(k, k.st, res, 0, ch, n))
    return post


def indices(eng, L, text):
    """index of the next character according to each modified pointer or number"""
    for n, t in L.locals:
        v = L.entry.frames[L.depth - 1].loc.get(n)

        def idx(lv, n=n):
            x = lv.var(n)
            if isinstance(x, Ptr):
                if not (z3.is_expr(x.o) or x.o == text.o) or not eng.must(lv.s, eq(x.o, text.o)):
                    raise Skip()
                return S(Z(x.p) - Z(text.p))
            if isinstance(x, bool) or z3.is_expr(x) and not z3.is_int(x) or x is None or x.__class__.__name__ == "_Undef":
                raise Skip()
            return Z(x)
        yield n, idx


def glen(k, st, g):
    return Z(k.eng._read(st, st.mem["i64"], "i64", g.o, 8, False))


@loops("sr_json_escape")
def _(eng, L):
    k = eng.k_main
    if "src" not in k.data:
        return
    text, n, ch = k.data["src"]
    for q, (g, b) in enumerate(L.entry.ghost.get("gstrings", ())):
        for nm, idx in indices(eng, L, text):
            yield "%s: characters encoded (%d)" % (nm, q), lambda lv, idx=idx, g=g, b=b: z3.And(0 <= idx(lv), idx(lv) <= Z(n), glen(k, lv.s, g) == EP(idx(lv)), encoded(k, lv.s, b, 0, ch, idx(lv)))


# ---------------------------------------------------------------- appending to a GString the caller owns
def gparam(k, g):
    """a GString parameter: its buffer, and its length before"""
    k.requires(And(k.valid(g, 24), eq(g.p, 0)), "GString")
    b = k.ld("ptr", g)
    n = k.ld("i64", g, 8)
    k.requires(And(ne(b.o, 0), lt(0, b.o), eq(b.p, 0), ne(b.o, g.o), k.valid(b, 1 << 59), le(0, n), lt(n, 1 << 40)), "GString buffer (of unlimited size)")
    k.modifies("i64", Ptr(g.o, 8), 8)
    k.modifies("i8", Ptr(b.o, n), None)
    return b, n


@contract("sr_json_append_escaped", file="json_utils.c")
def _(k, g, text):
    k.requires(k.valid_str(text), "text")
    b, n0 = gparam(k, g)
    k.requires(ne(b.o, text.o), "the text is not in the buffer")
    n, ch = src(k, text)
    k.requires(lt(n, LIMS), "shorter than 2^28")
    posdef(k, EP, n, lambda i: elen(ch(i)), ch, 6)
    k.may_alloc()
    end = Z(n0) + EP(Z(n)) + 1

    def post(res):
        k.ensures(eq(res, g), "returns the GString")
        k.ensures(eq(k.ld("ptr", g), b), "same buffer")
        k.ensures(glen(k, k.st, g) == end + 1, "grows by the literal")
        rd = lambda q: Z(k.eng._read(k.st, k.st.mem["i8"], "i8", b.o, S(q), False))
        k.ensures(And(eq(rd(Z(n0)), 34), eq(rd(end), 34)), "between quotes")
        k.ensures(eq(rd(end + 1), 0), "terminated")
        k.ensures(encoded(k, k.st, b, Z(n0) + 1, ch, n), "every character in order, quotes, backslashes and control characters escaped")
    return post


# ---------------------------------------------------------------- indentation
def istep(ch, n, sp):
    return lambda i: 1 + z3.If(z3.And(ch(i) == 10, i + 1 < Z(n)), sp, 0)


def indented(k, st, buf, base, ch, n, sp, upto, full=True):
    """characters before `upto` are in place, with the spaces behind newlines (full: also behind the last of them)"""
    j, q = z3.Ints("j!ind q!ind")
    rd = lambda o: Z(k.eng._read(st, st.mem["i8"], "i8", buf.o, S(o), False))
    c = rd(Z(base) + IP(j))
    s = rd(Z(base) + IP(j) + 1 + q)
    lim = Z(upto) - (0 if full else 1)
    return z3.And(z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < Z(upto)), c == ch(j)), patterns=[IP(j)]),
                  z3.ForAll([j, q], z3.Implies(z3.And(0 <= j, j < lim, ch(j) == 10, j + 1 < Z(n), 0 <= q, q < sp, SP(q)), s == 32), patterns=[z3.MultiPattern(IP(j), SP(q))]))


SP = z3.Function("SpaceAt", I, z3.BoolSort())


@contract("sr_indent_except_first_line", file="utils.c")
def _(k, text, spaces):
    k.requires(k.valid_str(text), "text")
    n, ch = src(k, text)
    k.requires(And(lt(n, LIMS), lt(spaces, 1 << 20)), "sizes")
    sp = z3.If(Z(spaces) > 0, Z(spaces), 0)
    q = z3.Int("q!sp")
    k.st.fact(z3.ForAll([q], SP(q), patterns=[SP(q)]))
    posdef(k, IP, n, istep(ch, n, sp), ch, 1 + sp)
    k.may_alloc()
    k.data["ind"] = (text, n, ch, sp)
    L = IP(Z(n))

    def post(res):
        if k.mode == "verify":
            k.newstr(res, L, None, None, "indented text")
            k.ensures(indented(k, k.st, res, 0, ch, n, sp, n), "all characters in order, spaces behind newlines only")
        else:
            f = z3.Function("Indented", I, I)
            j = z3.Int("j!esc")
            k.st.fact(z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < L), f(j) != 0), patterns=[f(j)]))
            k.newstr(res, L, None, lambda p: f(Z(p)), "indented text")
            k.ensures(indented(k, k.st, res, 0, ch, n, sp, n))
    return post


@contract("sr_indent", file="utils.c")
def _(k, text, spaces):
    k.requires(k.valid_str(text), "text")
    n, ch = src(k, text)
    k.requires(And(lt(n, LIMS), lt(spaces, 1 << 20)), "sizes")
    sp = z3.If(Z(spaces) > 0, Z(spaces), 0)
    q = z3.Int("q!sp")
    k.st.fact(z3.ForAll([q], SP(q), patterns=[SP(q)]))
    posdef(k, IP, n, istep(ch, n, sp), ch, 1 + sp)
    k.may_alloc()
    k.data["lead"] = sp
    lead = S(z3.If(Z(n) > 0, sp, 0))

    def post(res):
        k.newstr(res, S(Z(lead) + IP(Z(n))), None, None, "indented text")
        k.ensures(indented(k, k.st, res, lead, ch, n, sp, n), "all characters in order, spaces behind newlines only")
        rd = Z(k.eng._read(k.st, k.st.mem["i8"], "i8", res.o, q, False))
        k.ensures(z3.ForAll([q], z3.Implies(z3.And(0 <= q, q < Z(lead), SP(q)), rd == 32), patterns=[SP(q)]), "and before the first line")
    return post


@loops("sr_indent", "sr_indent_except_first_line")
def _(eng, L):
    k = eng.k_main
    q = z3.Int("q!sp")
    if "ind" in k.data:
        text, n, ch, sp = k.data["ind"]
        for m, (g, b) in enumerate(L.entry.ghost.get("gstrings", ())):
            for nm, idx in indices(eng, L, text):
                yield "%s: characters in place (%d)" % (nm, m), lambda lv, idx=idx, g=g, b=b: z3.And(0 <= idx(lv), idx(lv) <= Z(n), glen(k, lv.s, g) == IP(idx(lv)), indented(k, lv.s, b, 0, ch, n, sp, idx(lv)))
            # spaces behind a newline: the index does not move in this loop
            fr = L.entry.frames[L.depth - 1].loc
            mod = {x[0] for x in L.locals}
            for v in sorted(fr):
                if v in mod or not isinstance(fr[v], Ptr):
                    continue
                for d in (0, 1):
                    def sofar(lv, v=v, d=d, g=g, b=b):
                        x = lv.var(v)
                        if is_c(x.o) and x.o <= 0:
                            raise Skip()
                        i = S(Z(x.p) - Z(text.p) + d)
                        s = Z(k.eng._read(lv.s, lv.s.mem["i8"], "i8", b.o, S(IP(Z(i) - 1) + 1 + q), False))
                        return z3.And(Z(x.o) == Z(text.o), 1 <= Z(i), Z(i) <= Z(n), glen(k, lv.s, g) == IP(Z(i) - 1) + 1 + Z(lv.it), z3.Or(Z(lv.it) <= sp, Z(lv.it) == 0), indented(k, lv.s, b, 0, ch, n, sp, i, False),
                                      z3.ForAll([q], z3.Implies(z3.And(0 <= q, q < Z(lv.it), SP(q)), s == 32), patterns=[SP(q)]))
                    yield "%s+%d: spaces so far (%d)" % (v, d, m), sofar
    if "lead" in k.data:
        for m, (g, b) in enumerate(L.entry.ghost.get("gstrings", ())):
            def lead(lv, g=g, b=b):
                s = Z(k.eng._read(lv.s, lv.s.mem["i8"], "i8", b.o, q, False))
                return z3.And(glen(k, lv.s, g) == Z(lv.it), z3.Or(Z(lv.it) <= k.data["lead"], Z(lv.it) == 0), z3.ForAll([q], z3.Implies(z3.And(0 <= q, q < Z(lv.it), SP(q)), s == 32), patterns=[SP(q)]))
            yield "spaces in front (%d)" % m, lead

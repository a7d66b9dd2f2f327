"""Contracts of the scanning helpers in lib/utils.c"""
from spec import *

LIM = (1 << 31) - 1


def input_cell(k, inp):
    """inp is a valid `const char **` whose target is a valid string shorter than 2^31"""
    k.requires(k.valid(inp, 8), "input pointer")
    s = k.ld("ptr", inp)
    k.requires(k.valid_str(s), "input string")
    k.requires(separate(inp, s), "the input cell is not inside the text")
    N = k.nul(s)
    k.requires(lt(sub(N, s.p), LIM), "text shorter than 2^31")
    return s, N


def string_arg(k, p, *others):
    k.requires(k.valid_str(p), "string argument")
    for o in others:
        k.requires(separate(p, o), "argument separation")
    N = k.nul(p)
    k.requires(lt(sub(N, p.p), LIM), "argument shorter than 2^31")
    return N


def cell(k, p, n, *others):
    k.requires(k.valid(p, n), "output pointer")
    for o in others:
        k.requires(separate(p, o), "output separation")


def unchanged(k, inp, s):
    return eq(k.ld("ptr", inp), s)


def at(s, n):
    return Ptr(s.o, add(s.p, n))


@contract("sr_skip_char", file="utils.c")
def _(k, inp, c):
    s, N = input_cell(k, inp)
    c0 = k.ch(s)
    k.requires(ne(c, 0), "not NUL")
    k.modifies("ptr", inp, 8)

    def post(res):
        k.ensures(Iff(res, eq(c0, c)), "true iff the next character is c")
        k.sets(inp, at(s, ite(eq(c0, c), 1, 0)), "advances by exactly the match")
    return post


@contract("sr_skip_char_limited", file="utils.c")
def _(k, inp, allowed):
    s, N = input_cell(k, inp)
    string_arg(k, allowed, inp)
    c0 = k.ch(s)
    m = k.inset(allowed, c0)
    k.modifies("ptr", inp, 8)

    def post(res):
        k.ensures(Iff(res, m), "true iff the next character is allowed")
        k.sets(inp, at(s, ite(m, 1, 0)), "advances by exactly the match")
    return post


@contract("sr_parse_char_limited", file="utils.c")
def _(k, inp, allowed, result):
    s, N = input_cell(k, inp)
    string_arg(k, allowed, inp)
    cell(k, result, 1, inp, s, allowed)
    c0 = k.ch(s)
    m = k.inset(allowed, c0)
    r0 = k.ld("i8", result)
    k.modifies("ptr", inp, 8)
    k.modifies("i8", result, 1)

    def post(res):
        k.ensures(Iff(res, m), "true iff the next character is allowed")
        k.sets(inp, at(s, ite(m, 1, 0)), "advances by exactly the match")
        k.ensures(eq(k.ld("i8", result), ite(m, c0, r0)), "stores the character, or nothing on failure")
    return post


@contract("sr_skip_char_sequence", file="utils.c")
def _(k, inp, c):
    s, N = input_cell(k, inp)
    k.requires(ne(c, 0), "not NUL")
    k.modifies("ptr", inp, 8)

    def post(res):
        s2 = k.ld("ptr", inp)
        k.ensures(eq(s2, at(s, res)), "advances by the result")
        k.ensures(le(0, res), "non-negative")
        k.ensures(le(s2.p, N), "never past the end")
        k.ensures(forall_ch(k, s, s.p, add(s.p, res), lambda x: eq(x, c)), "only c is skipped")
        k.ensures(ne(k.ch(at(s, res)), c), "maximal")
    return post


@loops("sr_skip_char_sequence", "sr_skip_whitespace", "sr_skip_non_whitespace")
def _(eng, L):
    k = eng.k_main
    preds = {"sr_skip_char_sequence": lambda: (lambda x: eq(x, k.vals[1])),
             "sr_skip_whitespace": lambda: isspace,
             "sr_skip_non_whitespace": lambda: (lambda x: And(Not(isspace(x)), ne(x, 0)))}
    p = preds[eng.fnname]()
    for n, cls, cur, old in items(eng, L):
        if cls == "ptr":
            yield "%s:all passed characters satisfy the predicate" % n, lambda lv, cur=cur, old=old: forall_ch(
                k, old(lv), old(lv).p, cur(lv).p, p)


def isspace(x):
    return Or(And(le(9, x), le(x, 13)), eq(x, 32))


# lengths of maximal prefixes as functions of the contents (defined by the facts in span_contract and span_len)
SPN = z3.Function("SpanLength", R, R, I)      # characters of a set
CSPN = z3.Function("CSpanLength", R, R, I)    # characters not in a set
DIGSPN = z3.Function("DigitSpanLength", R, I)
XDIGSPN = z3.Function("HexSpanLength", R, I)


def setrank(b):
    return z3.RealVal(Engine.lit_rank(bytes(sorted(set(b)))))


def span_contract(positive, parse, boolres=False, light=False):
    """light: a consequence without quantifiers, for callers that only need the length"""
    def spec(k, inp, chars, result=None):
        s, N = input_cell(k, inp)
        string_arg(k, chars, inp)
        k.modifies("ptr", inp, 8)

        def cond(c):
            m = k.inset(chars, c)
            return m if positive else And(Not(m), ne(c, 0))
        first = cond(k.ch(s))
        if parse:
            cell(k, result, 8, inp, s, chars)
            k.modifies("ptr", result, 8)
            k.may_alloc()
            r0 = k.ld("ptr", result)
            rk = k.rank(s)
        prefix = (lambda n: forall_ch(k, s, s.p, add(s.p, n), cond))
        # only the set of characters matters: a constant set is named by its sorted elements
        b = k.eng.lit(chars)
        span = (SPN if positive else CSPN)(k.rank(s), k.rank(chars) if b is None else setrank(b))
        if k.mode == "verify":
            k.st.fact(And(le(0, span), le(add(s.p, span), N)))
            k.st.fact(prefix(span))
            k.st.fact(Not(cond(k.ch(at(s, span)))))

        def post(res):
            k.sets(inp, at(s, span), "consumes the span of the text")
            n = span
            k.ensures(And(le(0, n), le(add(s.p, n), N)), "never past the end")
            if boolres:
                k.ensures(Iff(res, lt(0, n)), "true iff something was consumed")
            else:
                k.ensures(eq(res, n), "returns the number of consumed characters")
            if not light:
                k.ensures(prefix(n), "consumes only matching characters")
                k.ensures(Not(cond(k.ch(at(s, n)))), "maximal")
            k.ensures(Iff(lt(0, n), first), "consumes iff the first character matches")
            if parse:
                r = k.ld("ptr", result)
                if k.case(lt(0, n)):
                    k.newstr(r, n, SubRank(rk, Z(n)), lambda i: k.chq(s, i))
                else:
                    k.ensures(eq(r, r0), "result untouched on failure")
        return post
    return spec


from trusted import SubRank, DEC, HEX
CONTRACTS["sr_skip_char_span"] = span_contract(True, False)
CONTRACTS["sr_skip_char_cspan"] = span_contract(False, False)
CONTRACTS["sr_parse_char_span"] = span_contract(True, True)
CONTRACTS["sr_parse_char_cspan"] = span_contract(False, True, True)
for _n in ("sr_skip_char_span", "sr_skip_char_cspan", "sr_parse_char_span", "sr_parse_char_cspan"):
    INFO[_n] = {"file": "utils.c", "opts": {}}


def prefix_of(k, s, t, Ls):
    """the first Ls characters of s and t agree (quantified over absolute offsets, for E-matching)"""
    j = z3.Int("j!pre")
    cs = Z(k.chq(Ptr(s.o, 0), j))
    ct = Z(k.chq(Ptr(t.o, 0), S(j - Z(s.p) + Z(t.p))))
    return z3.ForAll([j], z3.Implies(z3.And(Z(s.p) <= j, j < Z(s.p) + Z(Ls)), cs == ct), patterns=[cs])


def string_contract(parse):
    def spec(k, inp, string, result=None):
        s, N = input_cell(k, inp)
        M = string_arg(k, string, inp)
        n = sub(M, string.p)
        lit = k.eng.lit(string)
        if lit is not None:
            m = And(*[eq(k.ch(s, i), wrap_c(b, 8)) for i, b in enumerate(lit)])
        else:
            m = And(le(add(s.p, n), N), prefix_of(k, s, string, n))
        k.modifies("ptr", inp, 8)
        if parse:
            cell(k, result, 8, inp, s, string)
            k.modifies("ptr", result, 8)
            k.may_alloc()
            r0 = k.ld("ptr", result)
            rk = k.rank(string)

        def post(res):
            s2 = k.ld("ptr", inp)
            if parse:
                k.ensures(Iff(res, m), "true iff the text starts with the string")
            else:
                k.ensures(eq(res, ite(m, n, 0)), "returns the length of the match")
            k.ensures(eq(s2, Ptr(s.o, ite(m, add(s.p, n), s.p))), "advances by exactly the match")
            if parse:
                r = k.ld("ptr", result)
                if k.case(m):
                    k.newstr(r, n, rk, lambda i: k.chq(string, i))
                else:
                    k.ensures(eq(r, r0), "result untouched on failure")
        return post
    return spec


CONTRACTS["sr_skip_string"] = string_contract(False)
CONTRACTS["sr_parse_string"] = string_contract(True)
INFO["sr_skip_string"] = INFO["sr_parse_string"] = {"file": "utils.c", "opts": {}}


@loops("sr_skip_string", "sr_parse_string")
def _(eng, L):
    k = eng.k_main
    inp, string = k.vals[0], k.vals[1]
    s = k.entry_ld("ptr", inp)
    ps = [x for x in items(eng, L) if x[1] == "ptr"]
    for n, cls, cur, old in ps:
        for base, other, nm in ((s, string, "text"), (string, s, "string")):
            def f(lv, cur=cur, base=base):
                p = cur(lv)
                return And(eq(p.o, base.o), prefix_of(k, s, string, sub(p.p, base.p)))
            yield "%s:prefix matched (%s)" % (n, nm), f


@contract("sr_parse_digit", file="utils.c")
def _(k, inp):
    s, N = input_cell(k, inp)
    c0 = k.ch(s)
    d = And(le(48, c0), le(c0, 57))
    k.modifies("ptr", inp, 8)

    def post(res):
        k.ensures(eq(res, ite(d, c0, 0)), "returns the digit or NUL")
        k.sets(inp, at(s, ite(d, 1, 0)), "advances by exactly the match")
    return post


def isdig(c):
    return And(le(48, c), le(c, 57))


def isxdig(c):
    return Or(isdig(c), And(le(65, c), le(c, 70)), And(le(97, c), le(c, 102)))


def span_len(k, s, N, pred):
    """length of the maximal prefix of s whose characters satisfy pred"""
    L = {isdig: DIGSPN, isxdig: XDIGSPN}[pred](k.rank(s))
    k.st.fact(And(le(0, L), le(add(s.p, L), N)))
    k.st.fact(forall_ch(k, s, s.p, add(s.p, L), pred))
    k.st.fact(Not(pred(k.ch(at(s, L)))))
    k.st.fact(Iff(lt(0, L), pred(k.ch(s))))
    return L


def skip_number(pred, skip0x):
    def spec(k, inp):
        s, N = input_cell(k, inp)
        k.modifies("ptr", inp, 8)
        if skip0x:
            pre = And(eq(k.ch(s), 48), eq(k.ch(s, 1), 120))
            if k.case(pre):
                L = span_len(k, at(s, 2), N, pred)
                n = ite(lt(0, L), add(L, 2), 0)
            else:
                n = 0
        else:
            n = span_len(k, s, N, pred)

        def post(res):
            k.ensures(eq(res, n), "returns the length of the number")
            k.sets(inp, at(s, n), "advances by exactly the number")
        return post
    return spec


CONTRACTS["sr_skip_uint"] = skip_number(isdig, False)
CONTRACTS["sr_skip_hexadecimal_uint"] = skip_number(isxdig, False)
CONTRACTS["sr_skip_hexadecimal_0xuint"] = skip_number(isxdig, True)


def parse_number(pred, with0x, val, limit, cls, w):
    def spec(k, inp, result):
        s, N = input_cell(k, inp)
        cell(k, result, w // 8, inp, s)
        k.modifies("ptr", inp, 8)
        k.modifies(cls, result, w // 8)
        k.may_alloc()
        r0 = k.ld(cls, result)
        if with0x:
            pre = And(eq(k.ch(s), 48), eq(k.ch(s, 1), 120))
            if k.case(pre):
                s1 = at(s, 2)
                L = span_len(k, s1, N, pred)
                n = add(L, 2)
            else:
                L, s1, n = 0, s, 0
        else:
            s1 = s
            L = n = span_len(k, s, N, pred)
        V = val(SubRank(k.rank(s1), Z(L)))
        k.st.fact(V >= 0)
        ok = And(lt(0, L), V < limit)

        def post(res):
            k.ensures(eq(res, ite(ok, n, 0)), "returns the length of the number, 0 if none or too big")
            k.sets(inp, at(s, ite(ok, n, 0)), "advances by exactly the number, or not at all")
            r = k.ld(cls, result)
            k.ensures(eq(u(r, w), ite(ok, V, u(r0, w))), "stores the exact value, or nothing on failure")
        return post
    return spec


CONTRACTS["sr_parse_uint32"] = parse_number(isdig, False, DEC, 1 << 32, "i32", 32)
CONTRACTS["sr_parse_uint64"] = parse_number(isdig, False, DEC, (1 << 64) - 1, "i64", 64)
CONTRACTS["sr_parse_hexadecimal_uint64"] = parse_number(isxdig, False, HEX, 1 << 64, "i64", 64)
CONTRACTS["sr_parse_hexadecimal_0xuint64"] = parse_number(isxdig, True, HEX, 1 << 64, "i64", 64)
for _n in ("sr_skip_uint", "sr_skip_hexadecimal_uint", "sr_skip_hexadecimal_0xuint", "sr_parse_uint32",
           "sr_parse_uint64", "sr_parse_hexadecimal_uint64", "sr_parse_hexadecimal_0xuint64"):
    INFO[_n] = {"file": "utils.c", "opts": {}}


def ws_contract(pred):
    def spec(k, s):
        N = string_arg(k, s)

        def post(res):
            k.ensures(eq(res.o, s.o), "stays in the text")
            k.ensures(And(le(s.p, res.p), le(res.p, N)), "never past the end")
            k.ensures(forall_ch(k, s, s.p, res.p, pred), "skips only matching characters")
            k.ensures(Not(pred(k.ch(Ptr(s.o, res.p)))), "maximal")
        return post
    return spec


CONTRACTS["sr_skip_whitespace"] = ws_contract(isspace)
CONTRACTS["sr_skip_non_whitespace"] = ws_contract(lambda x: And(Not(isspace(x)), ne(x, 0)))
INFO["sr_skip_whitespace"] = INFO["sr_skip_non_whitespace"] = {"file": "utils.c", "opts": {}}

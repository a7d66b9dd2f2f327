"""Deterministic grammars over a text: a rule is a Python function on a cursor; its contract says that the C function
accepts exactly what the rule accepts, moves the input behind it (or not at all), and delivers the parts the rule names.
A caller sees a rule as a function of the remaining text (its content rank); nothing else is known about it."""
from spec import *
from utils_scan import span_contract, input_cell, cell, at, span_len, isdig, isxdig, SPN, CSPN, DIGSPN, XDIGSPN, setrank
from trusted import SubRank, DEC, HEX

B = z3.BoolSort()
M64 = 1 << 64


class Fail(Exception):
    pass


class Cur:
    """position in the text; conditions are decided by case split"""

    def __init__(self, k, s, N):
        self.k, self.o, self.p, self.p0, self.N = k, s.o, s.p, s.p, N

    @property
    def ptr(self):
        return Ptr(self.o, self.p)

    def rank(self):
        # the text does not change: everything is read from the memory at entry (fewer layers to look through)
        k = self.k
        return k.eng.rank(k.st, self.ptr, k.entry.mem["i8"])

    def case(self, c):
        return self.k.case(c)

    def ch(self, i=0):
        k = self.k
        return k.eng.read(k.st, "i8", self.o, add(self.p, i), k.entry.mem["i8"])

    def peek(self, c):
        return self.case(eq(self.ch(), c if isinstance(c, int) else ord(c)))

    def skip(self, c):
        if self.peek(c):
            self.p = add(self.p, 1)
            return True
        return False

    def need(self, c):
        if not c:
            raise Fail()

    def lit(self, t):
        """a fixed string"""
        m = And(*[eq(self.ch(i), ord(x)) for i, x in enumerate(t)])
        if self.case(m):
            self.p = add(self.p, len(t))
            return True
        return False

    def opt(self, t):
        """a fixed string that may be absent, without case split; returns the condition"""
        m = S(And(*[eq(self.ch(i), ord(x)) for i, x in enumerate(t)]))
        self.p = add(self.p, ite(m, len(t), 0))
        return m

    def _span(self, f, chars, positive):
        k = self.k
        n = f(self.rank(), setrank(chars.encode()))
        m = Or(*[eq(self.ch(), ord(c)) for c in chars])
        k.st.fact(And(le(0, n), le(add(self.p, n), self.N), Iff(lt(0, n), m if positive else And(Not(m), ne(self.ch(), 0)))))
        r = (self.p, n)
        self.p = add(self.p, n)
        return r

    def span(self, chars):
        return self._span(SPN, chars, True)

    def cspan(self, chars):
        return self._span(CSPN, chars, False)

    def some(self, r):
        """the span is not empty"""
        self.need(self.case(lt(0, r[1])))
        return r

    def numspan(self, pred):
        n = {isdig: DIGSPN, isxdig: XDIGSPN}[pred](self.rank())
        self.k.st.fact(And(le(0, n), le(add(self.p, n), self.N), Iff(lt(0, n), pred(self.ch()))))
        return n

    def digits(self):
        n = self.numspan(isdig)
        self.need(self.case(lt(0, n)))
        self.p = add(self.p, n)

    def hexdigits(self):
        """the value of a hexadecimal number that fits; None: there is none"""
        d = self.use(HEXNUM)
        return d and d["v"].v

    def hex0x(self):
        d = self.use(HEX0X)
        return d and d["v"].v

    def uint32(self):
        d = self.use(UINT32)
        return d and d["v"].v

    def uint64(self):
        d = self.use(UINT64)
        return d and d["v"].v

    def use(self, rule):
        """another rule, as a function of the remaining text; None: it does not apply"""
        r = self.rank()
        if not self.case(rule.ok(r)):
            return None
        outs = rule.outs_at(r, self.p)
        self.k.st.fact(And(lt(0, rule.len(r)), le(add(self.p, rule.len(r)), self.N)))
        self.p = add(self.p, rule.len(r))
        return outs

    def must(self, rule):
        o = self.use(rule)
        self.need(o is not None)
        return o


class Num:
    """a number that may be absent"""

    def __init__(self, v=0, present=True):
        self.v, self.present = v, present


class Txt:
    """characters [p, p+n) of the text, or nothing"""

    def __init__(self, p=0, n=0, present=True):
        self.p, self.n, self.present = p, n, present


def num(v):
    return v if isinstance(v, Num) else Num(0, False) if v is None else Num(v)


def txt(v):
    return v if isinstance(v, Txt) else Txt(0, 0, False) if v is None else Txt(*v)


class Rule:
    """outs: {name: "num" | "txt" | "bool"}"""

    def __init__(self, name, body, outs=()):
        self.name, self.body = name, body
        self.outs = {o: kind.rstrip("!") for o, kind in dict(outs).items()}
        self.always = {o for o, kind in dict(outs).items() if kind.endswith("!")}      # never absent
        self.ok = z3.Function(name, R, B)
        self.len = z3.Function(name + "Length", R, I)
        self.f = {}
        for o, kind in self.outs.items():
            if kind == "bool":
                self.f[o] = (z3.Function("%s.%s" % (name, o), R, B),)
            elif kind == "num":
                self.f[o] = (z3.Function("%s.%s" % (name, o), R, I), z3.Function("%s.%s?" % (name, o), R, B))
            else:
                self.f[o] = (z3.Function("%s.%s.start" % (name, o), R, I), z3.Function("%s.%s.len" % (name, o), R, I), z3.Function("%s.%s?" % (name, o), R, B))

    def outs_at(self, r, p):
        d = {}
        for o, kind in self.outs.items():
            f = self.f[o]
            if kind == "bool":
                d[o] = f[0](r)
            elif kind == "num":
                d[o] = Num(f[0](r), o in self.always or f[1](r))
            else:
                d[o] = Txt(add(p, f[0](r)), f[1](r), o in self.always or f[2](r))
        return d

    def run(self, k, s, N):
        """verify mode: (accepted, end, outputs)"""
        c = Cur(k, s, N)
        try:
            d = self.body(c)
        except Fail:
            return False, s.p, None
        d = d or {}
        d = {o: (num(d.get(o)) if kind == "num" else txt(d.get(o)) if kind == "txt" else d[o]) for o, kind in self.outs.items()}
        assert all(d[o].present is True for o in self.always)
        return True, c.p, d

    def apply(self, k, s, N):
        """what the rule says about the text at s, in either mode"""
        if k.mode == "verify":
            ok, e, d = self.run(k, s, N)
            if ok:
                k.ensures(And(lt(s.p, e), le(e, N)), "something is consumed, never past the end")
            return ok, e, d
        r = k.rank(s)
        if not k.case(self.ok(r)):
            return False, s.p, None
        d = self.outs_at(r, s.p)
        k.st.fact(And(lt(0, self.len(r)), le(add(s.p, self.len(r)), N)))
        for o, kind in self.outs.items():
            if kind == "num":
                k.st.fact(And(le(0, d[o].v), lt(d[o].v, M64)))
            elif kind == "txt":
                t = d[o]
                k.st.fact(And(le(s.p, t.p), le(0, t.n), le(add(t.p, t.n), N)))
        return True, add(s.p, self.len(r)), d


def number_body(pred, val, limit, prefix=""):
    def body(c):
        c.need(not prefix or c.lit(prefix))
        L = c.numspan(pred)
        V = val(SubRank(c.rank(), Z(L)))
        c.need(c.case(And(lt(0, L), V < limit)))
        c.p = add(c.p, L)
        return {"v": V}
    return body


HEXNUM = Rule("HexNumber", number_body(isxdig, HEX, M64), {"v": "num!"})
HEX0X = Rule("HexNumber0x", number_body(isxdig, HEX, M64, "0x"), {"v": "num!"})
UINT32 = Rule("DecimalNumber32", number_body(isdig, DEC, 1 << 32), {"v": "num!"})
UINT64 = Rule("DecimalNumber64", number_body(isdig, DEC, M64 - 1), {"v": "num!"})
HEXNUM.pred, HEX0X.pred, UINT32.pred, UINT64.pred = isxdig, None, isdig, isdig


def number_contract(rule, cls="i64"):
    """int f(const char **input, T *number): the length of the number; no case split for callers"""
    w = 64 if cls == "i64" else 32

    def spec(k, inp, result):
        s, N = input_cell(k, inp)
        cell(k, result, w // 8, inp, s)
        k.modifies("ptr", inp, 8)
        k.modifies(cls, result, w // 8)
        k.may_alloc()
        v0 = u(k.ld(cls, result), w)
        if k.mode == "verify" and rule.pred:
            span_len(k, s, N, rule.pred)

        def post(res):
            v = u(k.ld(cls, result), w)
            if k.mode == "verify":
                ok, e, d = rule.run(k, s, N)
                n = sub(e, s.p)
                k.ensures(eq(v, d["v"].v if ok else v0), "the exact value, or nothing on failure")
                if ok:
                    k.ensures(And(lt(0, n), le(e, N), lt(d["v"].v, 1 << w)), "bounds")
            else:
                r = k.rank(s)
                ok, n, d = rule.ok(r), rule.len(r), rule.outs_at(r, s.p)
                k.st.fact(And(lt(0, n), Implies(ok, le(add(s.p, n), N)), le(0, d["v"].v), lt(d["v"].v, 1 << w)))
                n = ite(ok, n, 0)
                k.ensures(eq(v, ite(ok, d["v"].v, v0)))
            k.ensures(eq(res, n), "the length of the number, 0 if there is none")
            k.sets(inp, Ptr(s.o, add(s.p, n)), "consumes exactly that, or nothing")
        return post
    return spec


# quantifier-free consequences of the scanners' contracts (each is proved against the code again)
LIGHT = {"sr_skip_char_span": span_contract(True, False, light=True),
         "sr_skip_char_cspan": span_contract(False, False, light=True),
         "sr_parse_char_span": span_contract(True, True, light=True),
         "sr_parse_char_cspan": span_contract(False, True, True, light=True),
         "sr_parse_uint32": number_contract(UINT32, "i32"),
         "sr_parse_uint64": number_contract(UINT64),
         "sr_parse_hexadecimal_uint64": number_contract(HEXNUM),
         "sr_parse_hexadecimal_0xuint64": number_contract(HEX0X)}


def content(k, s, t):
    return SubRank(k.eng.rank(k.st, Ptr(s.o, t.p), k.entry.mem["i8"]), Z(t.n))


def cells_contract(rule, outs, residue=None, dangling=False):
    """bool f(const char **input, T *out, ...): outs are the rule's outputs in the order of the parameters"""
    def spec(k, inp, *cs):
        s, N = input_cell(k, inp)
        k.modifies("ptr", inp, 8)
        old = []
        for i, (o, c) in enumerate(zip(outs, cs)):
            cell(k, c, 8, inp, s)
            for c2 in cs[:i]:
                k.requires(Or(ne(c.o, c2.o), le(add(c.p, 8), c2.p), le(add(c2.p, 8), c.p)), "distinct outputs")
            kind = rule.outs[o] if o else "num"
            cls = "ptr" if kind == "txt" else "i64"
            k.modifies(cls, c, 8)
            old.append(k.ld(cls, c))
        k.may_alloc()
        N0 = N

        def post(res):
            ok, e, d = rule.apply(k, s, N)
            k.ensures(res if ok else Not(res), "accepts exactly the documented form")
            k.sets(inp, Ptr(s.o, e), "consumes exactly that, or nothing")
            new = []
            for o, c, v0 in zip(outs, cs, old):
                if o is None:
                    continue
                if rule.outs[o] == "num":
                    v = u(k.ld("i64", c), 64)
                    if ok:
                        k.ensures(eq(v, ite(d[o].present, d[o].v, u(v0, 64))), "%s is the number in the text" % o)
                    elif residue is not None:
                        if k.mode == "verify":
                            ok2, _, d2 = residue.run(k, s, N)
                            k.ensures(eq(v, d2[o].v if ok2 else u(v0, 64)), "%s after a failure" % o)
                        else:
                            r = k.rank(s)
                            x = residue.outs_at(r, s.p)[o].v
                            k.st.fact(And(le(0, x), lt(x, M64)))
                            k.ensures(eq(v, ite(residue.ok(r), x, u(v0, 64))))
                else:
                    v = k.ld("ptr", c)
                    if ok:
                        t = d[o]
                        if k.mode == "call" and t.present is not True:
                            # the new string exists in any case; the cell refers to it iff the part is there
                            q = fresh_ptr("str")
                            k.newstr(q, t.n, content(k, s, t), lambda i, t=t: k.chq(Ptr(s.o, t.p), i, k.entry.mem["i8"]), o)
                            new.append(q)
                            b = fresh_bool("kept")
                            other = Ptr(ite(b, v0.o, 0), ite(b, v0.p, 0)) if not (is_c(v0.o) and v0.o == 0) else v0
                            k.ensures(eq(v, Ptr(ite(t.present, q.o, other.o), ite(t.present, 0, other.p))))
                        elif k.case(t.present):
                            k.newstr(v, t.n, content(k, s, t), lambda i, t=t: k.chq(Ptr(s.o, t.p), i, k.entry.mem["i8"]), o)
                            new.append(v)
                        else:
                            k.ensures(Or(eq(v, v0), eq(v, NULL)), "%s is not set" % o)
                    elif not dangling:
                        k.ensures(Or(eq(v, v0), eq(v, NULL)), "%s is not set" % o)
                    else:
                        wm = k.eng.entry_wm if k.mode == "verify" else k.wm0
                        k.ensures(Or(eq(v, v0), eq(v, NULL), And(lt(wm, v.o), eq(v.p, 0), alive(k.st.al, v.o), k.valid_str(v))), "%s is valid after a failure" % o)
            if not ok and dangling:
                vs = [(k.ld("ptr", c).o, v0.o) for o, c, v0 in zip(outs, cs, old) if rule.outs[o] == "txt"]
                for i, (a, a0) in enumerate(vs):
                    for b, b0 in vs[:i]:
                        k.ensures(Or(ne(a, b), eq(a, 0), eq(a, a0), eq(b, b0)), "distinct strings")
            for i, a in enumerate(new):
                for b in new[:i]:
                    k.ensures(ne(a.o, b.o), "distinct strings")
        return post
    return spec


def skip_contract(rule):
    """bool f(const char **input)"""
    return cells_contract(rule, [])


def object_contract(rule, struct, fields, zero=(), const=(), on_fail=None, pre=None):
    """struct *f(const char **input): a new object with the outputs in its fields (absent: 0 / NULL)"""
    def spec(k, inp, *rest):
        s, N = input_cell(k, inp)
        if pre:
            pre(k, inp, s, N, *rest)
        k.modifies("ptr", inp, 8)
        k.may_alloc()

        def post(res):
            ok, e, d = rule.apply(k, s, N)
            k.sets(inp, Ptr(s.o, e), "consumes exactly that, or nothing")
            if not ok:
                k.ensures(eq(res, NULL), "nothing is returned")
                if on_fail:
                    on_fail(k, s, N, *rest)
                return
            res = Ptr(k.fresh(res, k.sizeof(struct), "a new object").o, 0)
            wm = k.eng.entry_wm if k.mode == "verify" else k.wm0
            ptrs, strs = [], []
            for o, f in fields.items():
                if rule.outs[o] == "num":
                    k.ensures(eq(k.fldu(res, struct, f), ite(d[o].present, d[o].v, 0)), "%s as in the text" % f)
                elif rule.outs[o] == "bool":
                    k.ensures(Iff(k.fld(res, struct, f), d[o]), "%s as in the text" % f)
                else:
                    p, t = k.fld(res, struct, f), d[o]
                    ptrs.append(p)
                    k.ensures(Iff(ne(p.o, 0), t.present), "%s is there iff it is in the text" % f)
                    if k.mode == "verify":
                        if t.present is not False and k.eng.feasible(k.st, t.present):
                            st, main = k.st.copy(), k.st
                            k.st = st
                            st.fact(S(t.present) if not isinstance(t.present, bool) else t.present)
                            k.newstr(p, t.n, content(k, s, t), None, f)
                            k.ensures(ne(p.o, res.o), "%s is an object of its own" % f)
                            k.st = main
                        continue
                    q = fresh_ptr("str")
                    k.newstr(q, t.n, content(k, s, t), lambda i, t=t: k.chq(Ptr(s.o, t.p), i, k.entry.mem["i8"]), f)
                    k.ensures(And(ne(q.o, res.o), *[ne(q.o, x.o) for x in strs]))
                    strs.append(q)
                    k.ensures(eq(p, Ptr(ite(t.present, q.o, 0), 0)))
            for i, a in enumerate(ptrs):
                for b in ptrs[:i]:
                    k.ensures(Or(eq(a.o, 0), ne(a.o, b.o)), "distinct strings")
            for f in zero:
                v = k.fld(res, struct, f)
                k.ensures(eq(v, NULL) if isinstance(v, Ptr) else eq(v, 0), "%s is not set" % f)
            for f, c in const:
                k.ensures(eq(k.fld(res, struct, f), c), "%s" % f)
        return post
    return spec


def string_result(rule, o):
    """char *f(const char **input): a new string, or NULL"""
    def spec(k, inp):
        s, N = input_cell(k, inp)
        k.modifies("ptr", inp, 8)
        k.may_alloc()

        def post(res):
            ok, e, d = rule.apply(k, s, N)
            k.sets(inp, Ptr(s.o, e), "consumes exactly that, or nothing")
            if ok:
                t = d[o]
                k.newstr(res, t.n, content(k, s, t), lambda i: k.chq(Ptr(s.o, t.p), i, k.entry.mem["i8"]), o)
            else:
                k.ensures(eq(res, NULL), "nothing is returned")
        return post
    return spec

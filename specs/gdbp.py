"""Parsers of gdb's output: all-or-nothing and memory safety for all texts.

Every parser either moves the input forward, inside the text, and delivers new strings, or it moves nothing and delivers nothing."""
from spec import *
from gram import LIGHT, Rule, number_contract
from utils_scan import input_cell, string_arg, at, cell
from trusted import T as TRUSTED, fresh_str, req_str
from engine import Skip

# the values of line and column counters are the subject of P02: here they are some numbers that fit
W = {"nsw": "trust"}


# ---- GString: only the length is kept
def glen(e, st, g):
    return Z(e.read(st, "i64", g.o, add(g.p, 8)))


def s_new(e, st, a, ins):
    g = Ptr(e.alloc(st, 24), 0)
    n = 0
    if not (is_c(a[0].o) and a[0].o == 0):
        req_str(e, st, a[0], "g_string_new")
        n = sub(e.nul(st, a[0].o, a[0].p), a[0].p)
    e.store(st, "i64", Ptr(g.o, 8), n)
    return g


def grow(e, st, g, n):
    e.oblige(st, e.valid_cond(st, g, 24), "precondition of g_string_append/valid GString")
    e.store(st, "i64", Ptr(g.o, add(g.p, 8)), S(glen(e, st, g) + Z(n)))


def s_append(e, st, a, ins):
    req_str(e, st, a[1], "g_string_append")
    grow(e, st, a[0], sub(e.nul(st, a[1].o, a[1].p), a[1].p))
    return a[0]


def s_append_c(e, st, a, ins):
    c = e.wrap(st, a[1], 8, once=False) if not is_c(a[1]) else a[1]
    e.oblige(st, ne(c, 0), "precondition of g_string_append_c/not a NUL (GStrings are used as C strings)")
    grow(e, st, a[0], 1)
    return a[0]


def s_free(e, st, a, ins):
    if not is_c(a[1]):
        raise Unsupported("g_string_free with a varying flag")
    if a[1]:                # GLib refuses NULL with a message and does nothing
        e.oblige(st, Or(eq(a[0].o, 0), e.valid_cond(st, a[0], 24)), "precondition of g_string_free/valid GString or NULL")
        e.free(st, a[0])
        return NULL
    e.oblige(st, e.valid_cond(st, a[0], 24), "precondition of g_string_free/valid GString")
    n = glen(e, st, a[0])
    e.free(st, a[0])
    st.fact(And(le(0, n), lt(n, 1 << 60)))        # what fits into memory
    r = fresh_real("rank.gstr")
    st.fact(z3.And(r >= 1, r < 2, (r == 1) == Z(eq(n, 0))))
    f = z3.Function("gchr!%d" % next(sym._ctr), I, I)
    return fresh_str(e, st, n, r, lambda eng, s, p: f(Z(p)))


GSTR = {"g_string_new": s_new, "g_string_sized_new": s_new, "g_string_append": s_append, "g_string_append_c": s_append_c, "g_string_free": s_free}
OPT = {"trusted": GSTR, "nsw": "trust"}


# ---- location
def c_loc(k, loc, *a):
    k.requires(k.valid(loc, k.sizeof("sr_location")), "location")
    k.modifies("i32", loc, 8)
    return lambda res: None


def c_loc_init(k, loc):
    k.requires(k.valid(loc, k.sizeof("sr_location")), "location")
    k.modifies("i32", loc, 8)
    k.modifies("ptr", Ptr(loc.o, add(loc.p, k.foff("sr_location", "message")[0])), 8)
    return lambda res: None


def c_span_location(k, inp, chars, line, column):
    s, N = input_cell(k, inp)
    string_arg(k, chars, inp)
    for c in (line, column):
        cell(k, c, 4, inp, s, chars)
        k.modifies("i32", c, 4)
    k.requires(ne(line.o, column.o), "distinct counters")
    k.modifies("ptr", inp, 8)

    def post(res):
        p = k.ld("ptr", inp)
        k.ensures(And(eq(p.o, s.o), eq(p.p, add(s.p, res)), le(0, res), le(p.p, N)), "consumes what it reports, inside the text")
    return post


def c_skip_string(k, inp, string):
    s, N = input_cell(k, inp)
    n = string_arg(k, string, inp)
    k.modifies("ptr", inp, 8)
    L = sub(n, string.p)

    def post(res):
        p = k.ld("ptr", inp)
        if k.case(eq(res, 0)):
            k.sets(inp, s, "not moved")
        else:
            k.ensures(And(eq(res, L), lt(0, res), le(add(s.p, L), N)), "the length of the string")
            k.sets(inp, at(s, L), "moved behind the string")
    return post


# ---- parsers
def parser(outs=(), loc=True, res="int", null_tid=False):
    """outs: kinds of the output cells ("str": a new string, "str?": a new string or NULL, "u32", "u64")"""
    def spec(k, inp, *rest):
        s, N = input_cell(k, inp)
        k.modifies("ptr", inp, 8)
        k.may_alloc()
        cells, l = list(rest[:len(outs)]), rest[len(outs)] if loc else None
        old = []
        for i, (kind, c) in enumerate(zip(outs, cells)):
            w = 4 if kind == "u32" else 8
            cls = {"u32": "i32", "u64": "i64"}.get(kind, "ptr")
            if null_tid:
                k.requires(Or(eq(c.o, 0), And(k.valid(c, w), separate(c, inp), separate(c, s))), "output")
                if k.case(eq(c.o, 0)):
                    old.append(None)
                    continue
            else:
                cell(k, c, w, inp, s)
            for c2 in cells[:i]:
                k.requires(Or(ne(c.o, c2.o), le(add(c.p, 8), c2.p), le(add(c2.p, 8), c.p)), "distinct outputs")
            k.modifies(cls, c, w)
            old.append(k.ld(cls, c))
        if loc:
            k.requires(k.valid(l, k.sizeof("sr_location")), "location")
            for x in [inp, s] + cells:
                k.requires(Or(separate(l, x), le(add(l.p, 16), x.p), le(add(x.p, 8), l.p)) if x is not s and x is not inp else separate(l, x), "the location is something else")
            k.modifies("i32", l, 8)
            k.modifies("ptr", Ptr(l.o, add(l.p, k.foff("sr_location", "message")[0])), 8)

        def post(r):
            wm = k.eng.entry_wm if k.mode == "verify" else k.wm0
            p = k.ld("ptr", inp)
            ok = lt(0, r) if res == "int" else r
            if res == "int":
                k.ensures(And(le(0, r), eq(p, at(s, r)), le(p.p, N)), "consumes exactly what it reports, inside the text")
            else:
                k.ensures(And(eq(p.o, s.o), le(s.p, p.p), le(p.p, N), Implies(Not(ok), eq(p.p, s.p)), Implies(ok, lt(s.p, p.p))), "moves forward inside the text, or not at all")
            new = []
            for kind, c, v0 in zip(outs, cells, old):
                if kind.startswith("str"):
                    v = k.ld("ptr", c)
                    if k.case(ok):
                        q = And(lt(wm, v.o), eq(v.p, 0), alive(k.st.al, v.o))
                        if kind == "str?":
                            if k.case(eq(v.o, 0)):
                                k.ensures(eq(v.p, 0), "no string")
                                continue
                        k.ensures(q, "a new string")
                        k.ensures(k.valid_str(v), "NUL-terminated")
                        for x in new:
                            k.ensures(ne(x.o, v.o), "distinct strings")
                        new.append(v)
                    else:
                        k.ensures(eq(v, v0), "nothing is delivered on failure")
        return post
    return spec


def c_append_op(k, inp, g):
    s, N = input_cell(k, inp)
    k.requires(And(k.valid(g, 24), separate(g, inp), separate(g, s)), "GString")
    l0 = k.ld("i64", Ptr(g.o, add(g.p, 8)))
    k.requires(le(0, l0), "length")
    k.modifies("ptr", inp, 8)
    k.modifies("i64", Ptr(g.o, add(g.p, 8)), 8)

    def post(r):
        p = k.ld("ptr", inp)
        k.ensures(And(le(0, r), eq(p, at(s, r)), le(p.p, N)), "consumes exactly what it reports, inside the text")
        k.ensures(eq(k.ld("i64", Ptr(g.o, add(g.p, 8))), add(l0, r)), "what is consumed is appended")
    return post


C = dict(CONTRACTS, **LIGHT)
C.update({"sr_location_eat_char": c_loc, "sr_location_add": c_loc, "sr_location_init": c_loc_init, "sr_skip_char_span_location": c_span_location, "sr_skip_string": c_skip_string,
          "sr_gdb_frame_parseadd_operator": c_append_op,
          "sr_gdb_frame_parse_frame_start": parser(["u32"], loc=False),
          "sr_gdb_frame_parse_function_name_chunk": None,
          "sr_gdb_frame_parse_function_name_template_args": parser(["str"], loc=False),
          "sr_gdb_frame_parse_function_name_braces": parser(["str"], loc=False),
          "sr_gdb_frame_parse_function_name_template": parser(["str"], loc=False),
          "sr_gdb_frame_parse_function_name": parser(["str", "str?"], res="bool"),
          "sr_gdb_frame_skip_function_args": parser([], res="bool"),
          "sr_gdb_frame_parse_function_call": parser(["str", "str?"], res="bool"),
          "sr_gdb_frame_parse_address_in_function": parser(["u64", "str", "str?"], res="bool"),
          "sr_gdb_frame_parse_file_location": parser(["str?", "u32"], res="bool"),
          "sr_gdb_thread_parse_lwp": parser(["u32"], loc=False, null_tid=True),
          "sr_gdb_thread_skip_lwp": parser([], loc=False)})


def c_chunk(k, inp, space, target):
    return parser(["str"], loc=False)(k, inp, target)


C["sr_gdb_frame_parse_function_name_chunk"] = c_chunk
_name = parser(["str", "str?"], res="bool")


def c_name(k, inp, name, type, loc):
    s = k.ld("ptr", inp)
    post0 = _name(k, inp, name, type, loc)

    def post(r):
        post0(r)
        if k.case(r):
            p = k.ld("ptr", inp)
            c = k.ch(p, 0)
            unknown = And(eq(p, at(s, 2)), eq(k.ch(s, 0), 63), eq(k.ch(s, 1), 63))
            k.ensures(Or(unknown, *[eq(c, x) for x in b" \t\r\n\v\f"]), "an unknown name (??), or the name is followed by white space")
    return post


C["sr_gdb_frame_parse_function_name"] = c_name


@loops("sr_gdb_frame_parse_function_name_chunk")
def _(eng, L):
    k = eng.k_main
    s = k.entry_ld("ptr", k.vals[0])
    its = items(eng, L)
    for n, cls, cur, old in its:
        for n2, cls2, cur2, old2 in its:
            if cls != "ptr" or cls2 != "i64":
                continue

            def inv(lv, cur=cur, cur2=cur2):
                p = cur(lv)
                if not isinstance(p, Ptr) or not eng.must(lv.s, eq(p.o, s.o)):
                    raise Skip()
                return eq(cur2(lv), sub(p.p, s.p))
            yield "%s, %s: the name has as many characters as were consumed" % (n, n2), inv


KF = "sr_gdb_frame"


def frame_result(k, inp, loc):
    s, N = input_cell(k, inp)
    k.modifies("ptr", inp, 8)
    k.may_alloc()
    k.requires(k.valid(loc, k.sizeof("sr_location")), "location")
    k.requires(And(separate(loc, inp), separate(loc, s)), "the location is something else")
    k.modifies("i32", loc, 8)
    k.modifies("ptr", Ptr(loc.o, add(loc.p, k.foff("sr_location", "message")[0])), 8)

    def post(r):
        p = k.ld("ptr", inp)
        if k.case(eq(r.o, 0)):
            k.ensures(eq(r, NULL), "nothing is returned")
            k.sets(inp, s, "nothing is consumed on failure")
            return
        k.ensures(And(eq(p.o, s.o), lt(s.p, p.p), le(p.p, N)), "moves forward inside the text")
        f = Ptr(k.fresh(r, k.sizeof(KF), "a new frame").o, 0)
        wm = k.eng.entry_wm if k.mode == "verify" else k.wm0
        strs = [k.fld(f, KF, x) for x in ("function_name", "function_type", "source_file")]
        for i, v in enumerate(strs):
            k.ensures(Or(eq(v, NULL), And(lt(wm, v.o), eq(v.p, 0), alive(k.st.al, v.o), ne(v.o, f.o), *[ne(v.o, x.o) for x in strs[:i]])), "strings of its own")
            k.ensures(Or(eq(v.o, 0), k.valid_str(v)), "NUL-terminated")
        for x in ("library_name", "next"):
            k.ensures(eq(k.fld(f, KF, x), NULL), "%s is not set" % x)
        k.ensures(eq(k.fld(f, KF, "type"), 5), "a gdb frame")
    return post


def c_findfirst(k, inp, a, b, loc):
    k.requires(k.valid_str(inp), "text")
    for x in (a, b):
        k.requires(k.valid_str(x), "needle")
    k.requires(And(k.valid(loc, k.sizeof("sr_location")), *[separate(loc, x) for x in (inp, a, b)]), "location")
    k.modifies("i32", loc, 8)
    N = k.nul(inp)

    def post(r):
        k.ensures(And(eq(r.o, inp.o), le(inp.p, r.p), le(r.p, N)), "inside the text")
        # the characters in between are no newlines that start one of the needles: see the bounded part
    return post


C.update({"sr_gdb_frame_parse_header": frame_result, "sr_gdb_frame_parse": frame_result, "findfirstabnul": c_findfirst})


# ---- threads and library lists
TH, LIB = "sr_gdb_thread", "sr_gdb_sharedlib"


def c_append_last(k, dest, item):
    """appending behind the last frame"""
    k.requires(And(k.valid(dest, k.sizeof(KF)), eq(k.fld(dest, KF, "next"), NULL)), "the last frame")
    k.modifies("ptr", Ptr(dest.o, add(dest.p, k.foff(KF, "next")[0])), 8)

    def post(r):
        k.ensures(eq(k.fld(dest, KF, "next"), item), "linked behind the last one")
        k.ensures(eq(r, dest), "the list")
    return post


def c_free_empty(k, t):
    """a thread without frames"""
    k.requires(Or(eq(t.o, 0), And(k.valid(t, k.sizeof(TH)), eq(t.p, 0), lt(0, t.o), eq(k.fld(t, TH, "frames").o, 0))), "a thread without frames or NULL")
    k.frees_all(lambda x: And(eq(x, t.o), lt(0, x)))
    return lambda r: None


def thread_result(k, inp, loc):
    s, N = input_cell(k, inp)
    k.modifies("ptr", inp, 8)
    k.may_alloc()
    k.requires(k.valid(loc, k.sizeof("sr_location")), "location")
    k.requires(And(separate(loc, inp), separate(loc, s)), "the location is something else")
    k.modifies("i32", loc, 8)
    k.modifies("ptr", Ptr(loc.o, add(loc.p, k.foff("sr_location", "message")[0])), 8)

    def post(r):
        p = k.ld("ptr", inp)
        if k.case(eq(r.o, 0)):
            k.sets(inp, s, "nothing is consumed on failure")
            return
        k.ensures(And(eq(p.o, s.o), lt(s.p, p.p), le(p.p, N)), "moves forward inside the text")
        t = Ptr(k.fresh(r, k.sizeof(TH), "a new thread").o, 0)
        k.ensures(ne(k.fld(t, TH, "frames").o, 0), "at least one frame")
        k.ensures(eq(k.fld(t, TH, "next"), NULL), "no next thread")
        k.ensures(eq(k.fld(t, TH, "type"), 5), "a gdb thread")
    return post


def c_section(k, inp):
    k.requires(k.valid_str(inp), "text")
    N = k.nul(inp)

    def post(r):
        if not k.case(eq(r.o, 0)):
            k.ensures(And(eq(r.o, inp.o), lt(inp.p, r.p), le(r.p, N)), "inside the text")
    return post


def c_libs(k, inp):
    k.requires(k.valid_str(inp), "text")
    k.may_alloc()

    def post(r):
        if not k.case(eq(r.o, 0)):
            l = Ptr(k.fresh(r, k.sizeof(LIB), "a new library").o, 0)
    return post


def c_funs(k, inp):
    k.requires(Or(eq(inp.o, 0), k.valid_str(inp)), "text or NULL")
    k.may_alloc()

    def post(r):
        t = Ptr(k.fresh(r, k.sizeof(TH), "a new thread").o, 0)
        k.ensures(eq(k.fld(t, TH, "next"), NULL), "no next thread")
        k.ensures(eq(k.fld(t, TH, "type"), 5), "a gdb thread")
    return post


def t_sscanf(e, st, a, ins):
    req_str(e, st, a[0], "sscanf")
    if e.lit(a[1]) != b"%Lx %Lx":
        raise Unsupported("sscanf with another format")
    for c in a[2:]:
        e.oblige(st, e.valid_cond(st, c, 8), "precondition of sscanf/valid result")
        v = fresh_int("scanned")
        st.fact(rng(v, 64))
        e.store(st, "i64", c, v)
    r = fresh_int("sscanf")
    st.fact(z3.And(-1 <= r, r <= 2))
    return r


GSTR["sscanf"] = GSTR["__isoc99_sscanf"] = GSTR["__isoc23_sscanf"] = t_sscanf
C.update({"sr_gdb_frame_append": c_append_last, "sr_gdb_thread_free": c_free_empty, "sr_gdb_thread_parse": thread_result,
          "find_sharedlib_section_start": c_section, "sr_gdb_sharedlib_parse": c_libs, "sr_gdb_thread_parse_funs": c_funs})


def grown(k, sz):
    """NULL or something new of at least sz bytes"""
    def f(st, p):
        return Or(And(eq(p.o, 0), eq(p.p, 0)), And(lt(k.eng.entry_wm, p.o), le(p.o, st.wm), alive(st.al, p.o), le(sz, size_of(p.o))))
    return f


def size_of(o):
    from lists import Size
    return Size(Z(o))


@loops("find_sharedlib_section_start", "sr_gdb_sharedlib_parse", "sr_gdb_thread_parse_funs")
def _(eng, L):
    k = eng.k_main
    s = k.vals[0]
    N = k.nul(s)
    for n, cls, cur, old in items(eng, L):
        if cls != "ptr":
            continue

        def text(lv, cur=cur, lo=0, hi=0, null=False):
            p = cur(lv)
            if not isinstance(p, Ptr):
                raise Skip()
            c = And(eq(p.o, s.o), le(add(s.p, lo), p.p), le(add(p.p, hi), N))
            return Or(eq(p, NULL), c) if null else c

        def new(lv, sz, cur=cur):
            p = cur(lv)
            if not isinstance(p, Ptr):
                raise Skip()
            return And(eq(p.p, 0), grown(k, sz)(lv.s, p))

        def first(lv, cur=cur):
            p = cur(lv)
            if not isinstance(p, Ptr):
                raise Skip()
            return Or(eq(p, NULL), And(eq(p.p, 0), eq(size_of(p.o), k.sizeof(LIB))))

        def newcell(lv, cur=cur):
            p = cur(lv)
            if not isinstance(p, Ptr):
                raise Skip()
            return And(lt(k.eng.entry_wm, p.o), le(p.o, lv.s.wm), alive(lv.s.al, p.o), le(0, p.p), le(add(p.p, 8), size_of(p.o)))
        for lo in ((0, 4, 1) if "find" in eng.fnname else (0, 1)):
            yield "%s in the text behind %d" % (n, lo), lambda lv, f=text, lo=lo: f(lv, lo=lo)
        yield "%s in the text or NULL" % n, lambda lv, f=text: f(lv, null=True)
        if "find" in eng.fnname:
            yield "%s four before the end or NULL" % n, lambda lv, f=text: f(lv, null=True, hi=4)
        if "find" not in eng.fnname:
            yield "%s new or NULL" % n, lambda lv, f=new: f(lv, k.sizeof(LIB))
            yield "%s a new library or NULL" % n, first
            yield "%s a new cell" % n, newcell
    if "funs" in eng.fnname:
        off = k.foff(TH, "next")[0]
        its = list(locals_of(L))
        for n in its:
            yield "%s has no next thread" % n, unlinked(k, n, off)
            for n2 in its:
                if n2 != n:
                    yield "%s is not the next thread of %s" % (n2, n), lambda lv, n=n, n2=n2: Or(ne(pv(lv, n).o, pv(lv, n2).o), lt(pv(lv, n2).p, add(pv(lv, n).p, off)))


def locals_of(L):
    for n, v in sorted(L.entry.frames[L.depth - 1].loc.items()):
        if isinstance(v, Ptr):
            yield n


def pv(lv, n):
    p = lv.var(n)
    if not isinstance(p, Ptr):
        raise Skip()
    return p


def rd(k, lv, cls, p, off):
    return k.eng._read(lv.s, lv.s.mem[cls], cls, p.o, add(p.p, off), False)


def unlinked(k, n, off):
    def f(lv):
        p = pv(lv, n)
        return And(lt(k.eng.entry_wm, p.o), eq(rd(k, lv, "ptr", p, off), NULL))
    return f


@loops("sr_gdb_thread_parse", "sr_gdb_stacktrace_parse")
def _(eng, L):
    k = eng.k_main
    TH, KF, frames = (ST, "sr_gdb_thread", "threads") if "stacktrace" in eng.fnname else ("sr_gdb_thread", "sr_gdb_frame", "frames")
    inp = k.vals[0]
    s = k.entry_ld("ptr", inp)
    N = k.nul(s)
    yield "the input is not moved yet", lambda lv: eq(rd(k, lv, "ptr", inp, 0), s)
    tn, tf, fx = k.foff("sr_gdb_thread", "next")[0], k.foff(TH, frames)[0], k.foff(KF, "next")[0]
    its = list(locals_of(L))
    for n in its:
        if TH != ST:
            yield "%s has no next thread" % n, unlinked(k, n, tn)

        def last(lv, n=n):
            p = pv(lv, n)
            return Or(eq(p, NULL), And(lt(k.eng.entry_wm, p.o), le(p.o, lv.s.wm), eq(p.p, 0), alive(lv.s.al, p.o), eq(size_of(p.o), k.sizeof(KF)), eq(rd(k, lv, "ptr", p, fx), NULL)))
        yield "%s is NULL or a last frame" % n, last
        for n2 in its:
            if n2 == n:
                continue
            yield "%s, %s: different" % (n, n2), lambda lv, n=n, n2=n2: ne(pv(lv, n).o, pv(lv, n2).o)
            yield "%s has frames iff there is %s" % (n, n2), lambda lv, n=n, n2=n2: And(lt(k.eng.entry_wm, pv(lv, n).o), Iff(eq(rd(k, lv, "ptr", pv(lv, n), tf).o, 0), eq(pv(lv, n2).o, 0)))
    for n, cls, cur, old in items(eng, L):
        if cls != "ptr":
            continue

        def text(lv, cur=cur):
            p = cur(lv)
            if not isinstance(p, Ptr) or not eng.must(lv.s, eq(p.o, s.o)):
                raise Skip()
            return And(le(s.p, p.p), le(p.p, N))
        yield "%s in the text" % n, text
        for n2 in its:
            def moved(lv, cur=cur, n2=n2):
                p = cur(lv)
                if not isinstance(p, Ptr) or not eng.must(lv.s, eq(p.o, s.o)):
                    raise Skip()
                return Or(eq(pv(lv, n2).o, 0), lt(s.p, p.p))
            yield "%s moved if there is %s" % (n, n2), moved


# ---- whole backtraces
ST = "sr_gdb_stacktrace"


def two(k, line, column, *others):
    for c in (line, column):
        k.requires(And(k.valid(c, 4), *[separate(c, x) for x in others]), "counter")
        k.modifies("i32", c, 4)
    k.requires(Or(ne(line.o, column.o), le(add(line.p, 4), column.p), le(add(column.p, 4), line.p)), "distinct counters")


def c_two(k, line, column, *a):
    two(k, line, column)
    return lambda r: None


def c_strchr_loc(k, s, c, line, column):
    k.requires(k.valid_str(s), "text")
    two(k, line, column, s)
    N = k.nul(s)

    def post(r):
        k.ensures(Or(eq(r, NULL), And(eq(r.o, s.o), le(s.p, r.p), le(r.p, N), Or(eq(c, 0), lt(r.p, N)))), "inside the text, or NULL")
    return post


def c_strstr_loc(k, hay, needle, line, column):
    k.requires(And(k.valid_str(hay), k.valid_str(needle)), "texts")
    two(k, line, column, hay, needle)
    N, n = k.nul(hay), k.nul(needle)
    k.requires(lt(needle.p, n), "something to search for")

    def post(r):
        if k.case(eq(r.o, 0)):
            k.ensures(eq(r.p, 0), "NULL")
        else:
            k.ensures(And(eq(r.o, hay.o), le(hay.p, r.p), le(add(r.p, sub(n, needle.p)), N)), "inside the text")
    return post


def c_header(k, inp, frame, loc):
    s, N = input_cell(k, inp)
    cell(k, frame, 8, inp, s)
    k.modifies("ptr", inp, 8)
    k.modifies("ptr", frame, 8)
    k.may_alloc()
    k.requires(k.valid(loc, k.sizeof("sr_location")), "location")
    k.requires(And(separate(loc, inp), separate(loc, s), separate(loc, frame)), "the location is something else")
    k.modifies("i32", loc, 8)
    k.modifies("ptr", Ptr(loc.o, add(loc.p, k.foff("sr_location", "message")[0])), 8)
    f0 = k.ld("ptr", frame)

    def post(r):
        p = k.ld("ptr", inp)
        k.ensures(And(eq(p.o, s.o), le(s.p, p.p), le(p.p, N)), "stays inside the text")
        wm = k.eng.entry_wm if k.mode == "verify" else k.wm0
        f = k.ld("ptr", frame)
        if k.case(r):
            if k.case(eq(f.o, 0)):
                k.ensures(eq(f, NULL), "no crash frame")
            else:
                k.ensures(And(lt(wm, f.o), eq(f.p, 0), alive(k.st.al, f.o)), "a new crash frame")
            k.ensures(lt(s.p, p.p), "moves forward")
        else:
            k.ensures(Or(eq(f, NULL), eq(f, f0)), "no crash frame")
    return post


def trace_result(k, inp, loc):
    s, N = input_cell(k, inp)
    k.modifies("ptr", inp, 8)
    k.may_alloc()
    k.requires(k.valid(loc, k.sizeof("sr_location")), "location")
    k.requires(And(separate(loc, inp), separate(loc, s)), "the location is something else")
    k.modifies("i32", loc, 8)
    k.modifies("ptr", Ptr(loc.o, add(loc.p, k.foff("sr_location", "message")[0])), 8)

    def post(r):
        p = k.ld("ptr", inp)
        if k.case(eq(r.o, 0)):
            k.sets(inp, s, "nothing is consumed on failure")
            return
        k.ensures(And(eq(p.o, s.o), lt(s.p, p.p), le(p.p, N)), "moves forward inside the text")
        t = Ptr(k.fresh(r, k.sizeof(ST), "a new backtrace").o, 0)
        k.ensures(ne(k.fld(t, ST, "threads").o, 0), "at least one thread")
        k.ensures(eq(k.fld(t, ST, "type"), 5), "a gdb backtrace")
    return post


def c_tappend(k, dest, item):
    k.requires(And(k.valid(dest, k.sizeof(TH)), eq(k.fld(dest, TH, "next"), NULL)), "the last thread")
    k.modifies("ptr", Ptr(dest.o, add(dest.p, k.foff(TH, "next")[0])), 8)

    def post(r):
        k.ensures(eq(k.fld(dest, TH, "next"), item), "linked behind the last one")
        k.ensures(eq(r, dest), "the list")
    return post


def t_free(e, st, a, ins):
    """releases the objects of the new backtrace and nothing else (see the assumptions); nothing is used behind it"""
    e.oblige(st, And(lt(e.entry_wm, a[0].o), e.valid_cond(st, a[0], 8)), "precondition of sr_gdb_stacktrace_free/the new backtrace")
    return None


GSTR["sr_gdb_stacktrace_free"] = t_free
C.update({"sr_location_add_ext": c_two, "sr_location_eat_char_ext": c_two, "sr_strchr_location": c_strchr_loc, "sr_strstr_location": c_strstr_loc,
          "sr_gdb_stacktrace_parse_header": c_header, "sr_gdb_stacktrace_parse": trace_result, "sr_gdb_thread_append": c_tappend})

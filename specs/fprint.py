"""Fingerprints: the text that is hashed, and how much of it.

The text in a GString is a term: NONE, or a text followed by a character, by a string (its content, as a rank), or by the digits of a
number.  The term of a GString (and of a string made from one) is kept in ghost memory; the length in the GString itself."""
from spec import *
from engine import Skip
from lists import GList, fun, pats
from cmp import FRAMES, CODES, STRS
from lst import CONT, STR_ALL, register
from trusted import T as TRUSTED, req_str, SubRank
import lookup
import re

TX = -970000                     # ghost object: text term of the GString/string with the id that is the offset
NONE = z3.Int("NoText")
CHR = z3.Function("TextChar", I, I, I)
STR = z3.Function("TextStr", I, R, I)
NUM = {c: z3.Function("TextNum_" + c, I, I, I) for c in "dux"}
SHA = z3.Function("Sha1Of", I, I)
DFR = z3.Function("DuphashText", I, I, I, I)     # text, frame, flags
BFR = z3.Function("BthashText", I, I, I, I)
THR = z3.Function("ThreadText", I, I, I, I)
DLEN = z3.Function("DuphashLen", I, I, I)        # length of what is appended for a frame
SLEN = z3.Function("StrLenOfRank", R, I)
COMPAT, NOHASH, NONORM = 8, 2, 4


def tx(k, st, p):
    e = k.eng if hasattr(k, "eng") else k
    return Z(e._read(st, st.mem["i64"], "i64", TX, Z(p.o), False))


def set_tx(e, st, o, t):
    st.mem["i64"] = Store(st.mem["i64"], TX, Z(o), t)
    for d in e.dryloops:
        d.writes.append(("i64", TX, Z(o), st))


def lits(t, s):
    for c in s if isinstance(s, bytes) else s.encode("latin1"):
        t = CHR(t, z3.IntVal(c if c < 128 else c - 256))
    return t


def glen(k, st, g):
    e = k.eng if hasattr(k, "eng") else k
    return Z(e._read(st, st.mem["i64"], "i64", g.o, add(g.p, 8), False))


# ---- GString operations on text terms
def grow(e, st, g, t, n):
    e.oblige(st, e.valid_cond(st, g, 24), "precondition of g_string_append/valid GString")
    l = glen(e, st, g)
    e.store(st, "i64", Ptr(g.o, add(g.p, 8)), S(l + Z(n)))
    set_tx(e, st, g.o, t)


def add_str(e, st, t, s, who):
    """text term and length after the string s"""
    l = e.lit(s)
    if l is not None:
        return lits(t, l), len(l)
    req_str(e, st, s, who)
    n = sub(e.nul(st, s.o, s.p), s.p)
    return STR(t, e.rank(st, s)), n


def t_new(e, st, a, ins):
    g = Ptr(e.alloc(st, 24), 0)
    b = Ptr(e.alloc(st, 1 << 60), 0)
    e.store(st, "ptr", g, b)
    e.store(st, "i64", Ptr(g.o, 8), 0)
    st.ghost["texts"] = st.ghost.get("texts", ()) + ((g, b),)
    set_tx(e, st, g.o, NONE)
    if "sized" not in ins.text and not (is_c(a[0].o) and a[0].o == 0):
        t, n = add_str(e, st, NONE, a[0], "g_string_new")
        grow(e, st, g, t, n)
    return g


def t_append(e, st, a, ins):
    t, n = add_str(e, st, tx(e, st, a[0]), a[1], "g_string_append")
    grow(e, st, a[0], t, n)
    return a[0]


def t_append_c(e, st, a, ins):
    c = a[1] if not is_c(a[1]) else wrap_c(a[1], 8)
    e.oblige(st, ne(c, 0), "precondition of g_string_append_c/not a NUL")
    grow(e, st, a[0], CHR(tx(e, st, a[0]), Z(c)), 1)
    return a[0]


def t_printf(e, st, a, ins):
    f = e.lit(a[1])
    if f is None:
        raise Unsupported("format that is not a literal")
    f = f.decode("latin1")
    t, n, i, args = tx(e, st, a[0]), 0, 0, list(a[2:])
    while i < len(f):
        if f[i] != "%":
            t, n, i = lits(t, f[i]), add(n, 1), i + 1
        elif f.startswith("%%", i):
            t, n, i = lits(t, "%"), add(n, 1), i + 2
        elif f.startswith("%s", i):
            t, m = add_str(e, st, t, args.pop(0), "g_string_append_printf")
            n, i = add(n, m), i + 2
        elif f.startswith("%c", i):
            t, n, i = CHR(t, Z(e.wrap(st, args.pop(0), 8))), add(n, 1), i + 2
        else:
            m = re.match(r"%(l|ll|h|hh|z)?([dux])", f[i:])
            if not m:
                raise Unsupported("format %s" % f)
            w = 64 if m.group(1) in ("l", "ll", "z") else 32
            v, kind = args.pop(0), m.group(2)
            if m.group(1) in ("h", "hh"):
                v = e.wrap(st, v, 16 if m.group(1) == "h" else 8)
                w = 16 if m.group(1) == "h" else 8
            v = u(v, w) if kind != "d" else v
            # a number that is printed the same signed and unsigned
            if kind == "d" and e.must(st, le(0, v)):
                kind = "u"
            t, i = NUM[kind](t, Z(v)), i + m.end()
            ln = fresh_int("digits")
            st.fact(z3.And(ln >= 1, ln <= 21))
            n = add(n, ln)
    grow(e, st, a[0], t, n)
    return None


def t_free(e, st, a, ins):
    g = a[0]
    b = e.read(st, "ptr", g.o, g.p)
    t, n = tx(e, st, g), glen(e, st, g)
    e.free(st, g)
    if not is_c(a[1]):
        raise Unsupported("g_string_free with a varying flag")
    if a[1]:
        e.free(st, b)
        return NULL
    set_tx(e, st, b.o, t)
    st.ghost["gfreed"] = st.ghost.get("gfreed", ()) + (b.o,)
    return b


def buffer_of(e, st, p):
    for g, b in st.ghost.get("texts", ()):
        if e.must(st, And(eq(p.o, b.o), eq(p.p, 0))):
            return g
    return None


def t_strlen(e, st, a, ins):
    g = buffer_of(e, st, a[0])
    if g is None:
        return TRUSTED["strlen"](e, st, a, ins)
    return S(glen(e, st, g))


def t_sha(e, st, a, ins):
    kind, s, n = a
    g = buffer_of(e, st, s)
    if g is None:
        raise Unsupported("checksum of something else than the collected text")
    e.oblige(st, eq(kind, 1), "precondition of g_compute_checksum_for_string/SHA-1")
    e.oblige(st, Or(eq(n, glen(e, st, g)), eq(n, -1), eq(n, (1 << 64) - 1)), "precondition of g_compute_checksum_for_string/the whole text")
    r = Ptr(e.alloc(st, 41), 0)
    set_tx(e, st, r.o, SHA(tx(e, st, g)))
    return r


TEXT = {"g_string_new": t_new, "g_string_sized_new": t_new, "g_string_append": t_append, "g_string_append_c": t_append_c, "g_string_append_printf": t_printf,
        "g_string_free": t_free, "strlen": t_strlen, "g_compute_checksum_for_string": t_sha}


# ---------------------------------------------------------------- what a frame contributes
# pieces: text, or a field name (a string, absent: <unknown>), or ("u"/"d"/"x", field) a number
BT = {"core": [("addr", "address"), "$build_id", "+0x", ("x", "build_id_offset"), ", ", "$file_name", ", ", "$fingerprint", "\n"],
      "gdb": ["$function_name", ", ", "$function_type", ", ", ("u", "number"), ", ", "$source_file", ", ", ("u", "source_line"), ", ", ("u", "signal_handler_called"), ", 0x", ("x", "address"), ", ", "$library_name", "\n"],
      "java": ["$name", ", ", "$file_name", ", ", ("u", "file_line"), ", ", "$class_path", ", ", ("u", "is_native"), ", ", ("u", "is_exception"), ", ", "$message", "\n"],
      "koops": ["0x", ("x", "address"), ", ", ("u", "reliable"), ", ", "$function_name", ", 0x", ("x", "function_offset"), ", 0x", ("x", "function_length"), ", ", "$module_name", ", 0x", ("x", "from_address"), ", ",
                "$from_function_name", ", 0x", ("x", "from_function_offset"), ", 0x", ("x", "from_function_length"), ", ", "$from_module_name", "\n"],
      "python": ["$file_name", ", ", ("u", "special_file"), ", ", ("u", "file_line"), ", ", "$function_name", ", ", ("u", "special_function"), ", ", "$line_contents", "\n"],
      "ruby": ["$file_name", ", ", ("u", "file_line"), ", ", "$function_name", ", ", ("u", "special_function"), ", ", ("u", "block_level"), ", ", ("u", "rescue_level"), "\n"],
      "js": ["$file_name", ", ", ("u", "file_line"), ", ", "$function_name", "\n"]}
FILELINE = ["$file_name", ":", ("u", "file_line"), "\n"]
TH = {"gdb": ["Thread ", ("u", "number"), "\n"], "java": ["Thread ", "$name", "\n"]}
ST = {"core": ["Executable: ", "$executable", "\nSignal: ", ("u", "signal"), "\n\n"], "python": ["Exception: ", "$exception_name", "\n\n"], "ruby": ["Exception: ", "$exception_name", "\n\n"],
      "js": ["Error: ", "$exception_name", "\n\n"], "java": []}


def value(k, p, sn, f):
    v = k.fldu(p, sn, f)
    if isinstance(v, bool) or z3.is_expr(v) and z3.is_bool(v):
        return z3.If(v, 1, 0) if not isinstance(v, bool) else int(v)
    return v


def has(k, p, sn, f):
    s = k.fld(p, sn, f)
    k.requires(Or(eq(s.o, 0), k.valid_str(s)), "%s is absent or a string" % f)
    return k.case(ne(s.o, 0))


def text(k, t, p, sn, pieces):
    for x in pieces:
        if isinstance(x, tuple) and x[0] == "addr":
            a = value(k, p, sn, x[1])
            t = lits(t, "<unknown>, ") if k.case(eq(a, 0)) else lits(NUM["x"](lits(t, "0x"), Z(a)), ", ")
        elif isinstance(x, tuple):
            t = NUM[x[0]](t, Z(value(k, p, sn, x[1])))
        elif x.startswith("$"):
            if has(k, p, sn, x[1:]):
                t = STR(t, k.rank(k.fld(p, sn, x[1:])))
            else:
                t = lits(t, "<unknown>")
        else:
            t = lits(t, x)
    return t


def dup_pieces(k, t, p, sn):
    if t == "core":
        if has(k, p, sn, "build_id"):
            return ["$build_id", "+0x", ("x", "build_id_offset"), "\n"]
        if has(k, p, sn, "function_name"):
            return ["  ", "$function_name", "\n"]
        if has(k, p, sn, "fingerprint"):
            return ["$fingerprint", "+0x", ("x", "build_id_offset"), "\n"]
        return ["0x", ("x", "address"), "\n"]
    if t == "gdb":
        r = [" "]
        for f in ("function_type", "function_name"):
            if has(k, p, sn, f):
                r += [" ", "$" + f]
        if k.case(k.fld(p, sn, "signal_handler_called")):
            r.append(" <signal handler called>")
        return r + ["\n"]
    if t == "java":
        return ["$name", "\n"] if has(k, p, sn, "name") else ["$class_path", "/", "$file_name", ":", ("u", "file_line"), "\n"]
    if t == "koops":
        return ["$function_name", "\n"] if has(k, p, sn, "function_name") else ["0x", ("x", "address"), "\n"]
    return FILELINE


def bit(flags, b):
    n = b.bit_length() - 1
    return S((Z(u(flags, 32)) / b) % 2 == 1)


def gstring(k, g):
    k.requires(And(k.valid(g, 24), eq(g.p, 0), lt(0, g.o)), "GString")
    l = glen(k, k.st, g)
    k.requires(le(0, l), "GString length")
    k.modifies("i64", Ptr(g.o, 8), 8)
    k.modifies("i64", Ptr(TX, Z(g.o)), 8)
    return tx(k, k.st, g), l


def mk_app(t, what):
    """text of a frame (bthash, duphash) or of a thread (bthash)"""
    sn = CONT[t] if what == "thread" else FRAMES[t][0]

    def c(k, p, flags, g):
        k.requires(And(k.valid(p, k.sizeof(sn)), eq(p.p, 0), ne(p.o, g.o), eq(k.fld(p, sn, "type"), CODES[t])), "a %s %s" % (t, "thread" if what == "thread" else "frame"))
        t0, l0 = gstring(k, g)
        if what == "dup" and t == "koops" and k.case(bit(flags, COMPAT)) and k.case(Not(k.fld(p, sn, "reliable"))):
            def post(res):
                k.ensures(tx(k, k.st, g) == t0, "an unreliable frame contributes nothing")
                k.ensures(glen(k, k.st, g) == l0, "an unreliable frame contributes nothing: length")
            return post
        ps = BT[t] if what == "bt" else dup_pieces(k, t, p, sn) if what == "dup" else TH.get(t, [])
        want = text(k, t0, p, sn, ps)

        def post(res):
            k.ensures(tx(k, k.st, g) == want, "exactly the listed fields, in order")
            if ps:
                k.ensures(glen(k, k.st, g) > l0, "the text grows")
            else:
                k.ensures(glen(k, k.st, g) == l0, "the text does not grow")
        return post
    return c


# ---------------------------------------------------------------- sr_thread_get_duphash
LIST = z3.Function("FramesAfter", I, I, I)       # ghost list of the frames of a copied thread, (normalized or not)
NORMED = -970001
MINE = z3.Function("PartOfCopy", I, z3.BoolSort())
LIMF = (1 << 31) - 1


def dupes(k, c):
    """the frame list of the copy, as it is now"""
    nz = Z(k.eng._read(k.st, k.st.mem["i64"], "i64", NORMED, 0, False))
    return GList(k, "sr_gdb_frame", LIST(Z(c.o), nz), tag="hash")


def c_dup(k, t):
    k.requires(eq(t, k.eng.k_main.vals[0]), "the thread")
    k.may_alloc()

    def post(res):
        o = z3.Int("o!mine")
        wm0 = k.wm0
        k.ensures(And(lt(wm0, res.o), eq(res.p, 0), alive(k.st.al, res.o)))
        k.ensures(z3.ForAll([o], z3.Implies(MINE(o), o > Z(wm0)), patterns=[MINE(o)]))
        k.ensures(MINE(Z(res.o)))
        k.st.ghost["copy"] = res
    return post


def the_copy(k, t):
    c = k.st.ghost.get("copy")
    k.requires(eq(t, c) if c is not None else False, "the copy")
    return c


def c_norm(k, t):
    the_copy(k, t)
    k.modifies_if("*", lambda o, p: MINE(Z(o)))
    k.modifies("i64", Ptr(NORMED, 0), 8)
    k.may_alloc()

    def post(res):
        k.ensures(Z(k.eng._read(k.st, k.st.mem["i64"], "i64", NORMED, 0, False)) == 1)
    return post


def c_frames(k, t):
    the_copy(k, t)
    g = dupes(k, t)
    k.lists.pop()

    o = z3.Int("o!mine")

    def post(res):
        k.ensures(g.is_at(res, 0))
        # what belongs to the copy exists by now
        k.ensures(z3.ForAll([o], z3.Implies(MINE(o), o <= Z(k.st.wm)), patterns=[MINE(o)]))
    return post


def which(k, f):
    return dupes(k, k.st.ghost["copy"]) if "copy" in k.st.ghost else None


def c_next(k, f):
    g = which(k, f)
    k.lists.pop()
    i = g.pos(f.o)
    k.requires(z3.And(0 <= i, i < g.n, g.at(i) == Z(f.o), Z(f.p) == 0), "a frame of the copy")

    def post(res):
        k.ensures(g.is_at(res, i + 1))
    return post


def c_app(k, f, flags, s):
    g = which(k, f)
    k.lists.pop()
    i = g.pos(f.o)
    k.requires(z3.And(0 <= i, i < g.n, g.at(i) == Z(f.o), Z(f.p) == 0), "a frame of the copy")
    t0, l0 = gstring(k, s)

    def post(res):
        k.ensures(tx(k, k.st, s) == DFR(t0, Z(f.o), Z(flags)))
        k.ensures(glen(k, k.st, s) == l0 + DLEN(Z(f.o), Z(flags)))
        k.ensures(DLEN(Z(f.o), Z(flags)) >= 0)
        k.ensures(DLEN(Z(f.o), Z(flags)) < 1 << 36)
    return post


def c_free(k, t):
    the_copy(k, t)
    k.may_free(lambda o: MINE(Z(o)))
    k.modifies_if("*", lambda o, p: MINE(Z(o)))
    k.st.ghost["copyfreed"] = True
    return lambda res: None


XT = z3.Function("TextSoFar", I, I, I)      # list, number of frames
XL = z3.Function("LenSoFar", I, I, I)
XC = z3.Function("CountSoFar", I, I, I)
AT3 = z3.Function("AtFrame", I, z3.BoolSort())


def duphash(k, t, nframes, prefix, flags):
    k.requires(And(ne(t.o, 0), eq(t.p, 0)), "a thread")
    k.requires(Or(eq(prefix.o, 0), k.valid_str(prefix)), "prefix")
    k.requires(Z(k.eng._read(k.st, k.st.mem["i64"], "i64", NORMED, 0, False)) == 0, "not normalized yet (ghost)")
    k.modifies("i64", Ptr(NORMED, 0), 8)
    k.may_alloc()
    compat, nohash, nonorm = bit(flags, COMPAT), bit(flags, NOHASH), bit(flags, NONORM)
    pre = k.case(ne(prefix.o, 0))
    t0, l0 = NONE, z3.IntVal(0)
    if pre:
        t0, l0 = STR(NONE, k.rank(prefix)), Z(sub(k.nul(prefix), prefix.p))
        k.requires(l0 < 1 << 32, "prefix shorter than 2^32")
    t1 = z3.If(Z(compat), t0, lits(t0, "Thread\n"))
    l1 = z3.If(Z(compat), l0, l0 + 7)
    N = z3.If(Z(nframes) == 0, LIMF, Z(nframes))
    L, i, q = z3.Ints("l!hash i!hash q!hash")
    ln = lambda L: fun("Len.hash", I, I)(L)
    nd = lambda L, i: fun("Node.hash", I, I, I)(L, i)
    ix = fun("Idx.hash", I, I, I)
    # the frame lists of the copy, before and after normalization: finite lists of distinct elements (P10, P11, P15)
    k.st.fact(z3.ForAll([L], z3.And(0 <= ln(L), ln(L) < LIM2), patterns=[ln(L)]))
    k.st.fact(z3.ForAll([L, i], z3.Implies(z3.And(0 <= i, i < ln(L)), z3.And(nd(L, i) > 0, ix(L, nd(L, i)) == i)), patterns=[nd(L, i)]))
    # text, length and number of counted frames after i frames
    F = Z(flags)
    k.st.fact(z3.ForAll([L], z3.And(XT(L, 0) == t1, XL(L, 0) == l1, XC(L, 0) == 0), patterns=[ln(L)]))
    k.st.fact(z3.ForAll([L, i], z3.Implies(z3.And(0 <= i, i < ln(L)), z3.And(
        XT(L, i + 1) == DFR(XT(L, i), nd(L, i), F), XL(L, i + 1) == XL(L, i) + DLEN(nd(L, i), F), XC(L, i + 1) == XC(L, i) + z3.If(DLEN(nd(L, i), F) > 0, 1, 0))), patterns=[nd(L, i)]))
    k.st.fact(z3.ForAll([L, i], z3.Implies(z3.And(0 <= i, i <= ln(L)), z3.And(0 <= XC(L, i), XC(L, i) <= i, 0 <= XL(L, i))), patterns=[XC(L, i)]))
    cut = z3.Int("HashedFrames")     # the first number of frames that reaches the limit, or all
    k.data["dh"] = (N, compat, cut, F)

    def post(res):
        c = k.st.ghost.get("copy")
        if c is None:
            k.ensures(False, "works on a copy")
            return
        D = LIST(Z(c.o), z3.IntVal(0 if k.case(nonorm) else 1))
        k.ensures(bool(k.st.ghost.get("copyfreed")), "the copy is freed")
        # definition of the cut
        k.st.fact(z3.And(0 <= cut, cut <= ln(D), z3.Or(cut == ln(D), XC(D, cut) >= N), z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < cut), XC(D, i) < N), patterns=[XC(D, i)])))
        want = XT(D, cut)
        none = z3.And(Z(compat), XL(D, cut) == 0)
        k.ensures(Iff(eq(res.o, 0), S(none)), "NULL for an empty text in compatibility mode only")
        k.ensures(Implies(ne(res.o, 0), And(lt(k.eng.entry_wm, res.o), eq(res.p, 0), alive(k.st.al, res.o))), "a new string")
        k.ensures(Implies(ne(res.o, 0), S(tx(k, k.st, res) == z3.If(Z(nohash), want, SHA(want)))), "prefix, header and the frames in order up to the limit, or the SHA-1 of that")
    return post


LIM2 = 1 << 30
HASHC = {"sr_thread_dup": c_dup, "sr_thread_normalize": c_norm, "sr_thread_frames": c_frames, "sr_frame_next": c_next, "frame_append_duphash_text": c_app, "sr_thread_free": c_free}
register("sr_thread_get_duphash", duphash, "generic_thread.c")


@loops("sr_thread_get_duphash")
def _(eng, Lp):
    k = eng.k_main
    if "dh" not in k.data:
        return
    N, compat, cut, F = k.data["dh"]
    st = Lp.entry
    c = st.ghost.get("copy")
    if c is None:
        return
    nz = Z(eng._read(st, st.mem["i64"], "i64", NORMED, 0, False))
    L = LIST(Z(c.o), nz)
    g = GList(k, "sr_gdb_frame", L, tag="hash")
    k.lists.pop()
    i = z3.Int("i!before")
    for s, b in st.ghost.get("texts", ()):
        yield "text so far", lambda lv: z3.And(tx(k, lv.s, s) == XT(L, Z(lv.it)), glen(k, lv.s, s) == XL(L, Z(lv.it)), Z(lv.it) <= g.n, Z(lv.it) >= 0,
                                              Z(eng._read(lv.s, lv.s.mem["i64"], "i64", NORMED, 0, False)) == nz,
                                              z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < Z(lv.it)), XC(L, i) < N), patterns=[XC(L, i)]))
        yield "buffer", lambda lv: z3.And(Z(eng._read(lv.s, lv.s.mem["ptr"], "ptr", s.o, 0, False).o) == Z(b.o), Z(eng._read(lv.s, lv.s.mem["ptr"], "ptr", s.o, 0, False).p) == 0)
    for n, cls, cur, old in items(eng, Lp):
        if cls == "ptr":
            yield "%s is the next frame" % n, lambda lv, cur=cur: g.is_at(cur(lv), lv.it)
        elif cls == "i32":
            yield "%s counts down" % n, lambda lv, cur=cur: Z(cur(lv)) == N - XC(L, Z(lv.it))
            yield "%s counts up" % n, lambda lv, cur=cur: Z(cur(lv)) == XC(L, Z(lv.it))


# ---------------------------------------------------------------- sr_stacktrace_get_bthash
# the threads of a stack trace and their frames, as the accessors deliver them (P11): Len/Node/Idx "bth" of the trace, "bfr" of a thread
def bl(tag):
    return fun("Len." + tag, I, I), fun("Node." + tag, I, I, I), fun("Idx." + tag, I, I, I)


FROF = z3.Function("ThreadOfFrame", I, I)
TT = z3.Function("TextBeforeThread", I, I)
FR = z3.Function("TextInThread", I, I, I)
LT = z3.Function("TextOfLibs", I, I)
MT = z3.Function("TextOfModules", I, I)


def at_(tag, owner, i):
    ln, nd, ix = bl(tag)
    return z3.If(z3.And(0 <= Z(i), Z(i) < ln(owner)), nd(owner, Z(i)), 0)


def b_threads(k, s):
    k.requires(eq(s, k.eng.k_main.vals[0]), "the stack trace")

    def post(res):
        k.ensures(And(eq(res.o, at_("bth", Z(s.o), 0)), eq(res.p, 0), le(0, res.o)))
    return post


def isthread(k, t):
    ln, nd, ix = bl("bth")
    s = Z(k.eng.k_main.vals[0].o)
    i = ix(s, Z(t.o))
    k.requires(z3.And(0 <= i, i < ln(s), nd(s, i) == Z(t.o), Z(t.p) == 0), "a thread of the stack trace")
    return s, i


def isframe(k, f):
    ln, nd, ix = bl("bfr")
    t = FROF(Z(f.o))
    i = ix(t, Z(f.o))
    k.requires(z3.And(0 <= i, i < ln(t), nd(t, i) == Z(f.o), Z(f.p) == 0), "a frame of a thread")
    return t, i


def b_next(k, t):
    s, i = isthread(k, t)

    def post(res):
        k.ensures(And(eq(res.o, at_("bth", s, i + 1)), eq(res.p, 0), le(0, res.o)))
    return post


def b_frames(k, t):
    isthread(k, t)

    def post(res):
        k.ensures(And(eq(res.o, at_("bfr", Z(t.o), 0)), eq(res.p, 0), le(0, res.o)))
    return post


def b_fnext(k, f):
    t, i = isframe(k, f)

    def post(res):
        k.ensures(And(eq(res.o, at_("bfr", t, i + 1)), eq(res.p, 0), le(0, res.o)))
    return post


def mk_bapp(F, isx):
    def c(k, x, flags, s):
        isx(k, x)
        k.requires(eq(flags, k.eng.k_main.vals[1]), "the caller's flags")
        t0, l0 = gstring(k, s)

        def post(res):
            k.ensures(tx(k, k.st, s) == F(t0, Z(x.o), Z(flags)))
            k.ensures(glen(k, k.st, s) >= l0)
        return post
    return c


BTC = {"sr_stacktrace_threads": b_threads, "sr_thread_next": b_next, "sr_thread_frames": b_frames, "sr_frame_next": b_fnext,
       "thread_append_bthash_text": mk_bapp(THR, isthread), "frame_append_bthash_text": mk_bapp(BFR, isframe)}


def mk_bthash(t):
    sn = "sr_%s_stacktrace" % t

    def c(k, s, flags):
        k.requires(And(k.valid(s, k.sizeof(sn)), eq(s.p, 0), lt(0, s.o), eq(k.fld(s, sn, "type"), CODES[t])), "a %s stack trace" % t)
        k.may_alloc()
        so, F = Z(s.o), Z(flags)
        i, j = z3.Ints("i!bt j!bt")
        ln, nd, ix = bl("bth")
        fl, fn, fi = bl("bfr")
        n = ln(so)
        k.st.fact(z3.And(0 <= n, n < LIM2))
        k.st.fact(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < n), z3.And(nd(so, i) > 0, ix(so, nd(so, i)) == i, 0 <= fl(nd(so, i)), fl(nd(so, i)) < LIM2)), patterns=[nd(so, i)]))
        th = nd(so, i)
        f = fn(th, j)
        k.st.fact(z3.ForAll([i, j], z3.Implies(z3.And(0 <= i, i < n, 0 <= j, j < fl(th)), z3.And(f > 0, fi(th, f) == j, FROF(f) == th)), patterns=[f]))
        # what is hashed
        if t == "gdb":
            g = GList(k, "sr_gdb_sharedlib", so, strs=["soname"])
            g.require(head=k.fld(s, sn, "libs"))
            so_ = g.fread("soname", g.at(i))
            x = g.fread("from", g.at(i)), g.fread("to", g.at(i))
            a = lits(NUM["x"](lits(NUM["x"](LT(i), Z(u(x[0], 64))), "-"), Z(u(x[1], 64))), ", ")
            from cmp import rnk
            b = z3.If(Z(so_.o) == 0, lits(a, "<unknown>"), STR(a, rnk(k, k.st, so_)))
            k.st.fact(LT(0) == NONE)
            k.st.fact(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < g.n), LT(i + 1) == lits(b, "\n")), patterns=[g.at(i)]))
            S0 = lits(LT(g.n), "\n")
            k.data["libs"] = g
        else:
            S0 = text(k, NONE, s, sn, ST[t])
        k.st.fact(TT(0) == S0)
        k.st.fact(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < n), z3.And(FR(i, 0) == THR(TT(i), th, F),
                  TT(i + 1) == z3.If(i + 1 < n, CHR(FR(i, fl(th)), 10), FR(i, fl(th))))), patterns=[nd(so, i)]))
        k.st.fact(z3.ForAll([i, j], z3.Implies(z3.And(0 <= i, i < n, 0 <= j, j < fl(th)), FR(i, j + 1) == BFR(FR(i, j), f, F)), patterns=[f]))
        k.data["bh"] = (so, n)

        def post(res):
            k.ensures(And(lt(k.eng.entry_wm, res.o), eq(res.p, 0), alive(k.st.al, res.o)), "a new string")
            k.ensures(tx(k, k.st, res) == z3.If(Z(bit(flags, NOHASH)), TT(n), SHA(TT(n))), "the data of the trace, of every thread and of every frame in order, or the SHA-1 of that")
        return post
    return c


@loops("sr_stacktrace_get_bthash")
def _(eng, L):
    k = eng.k_main
    if "bh" not in k.data:
        return
    so, n = k.data["bh"]
    ln, nd, ix = bl("bth")
    fl, fn, fi = bl("bfr")
    for s, b in L.entry.ghost.get("texts", ()):
        same = lambda lv: z3.And(Z(eng._read(lv.s, lv.s.mem["ptr"], "ptr", s.o, 0, False).o) == Z(b.o), Z(eng._read(lv.s, lv.s.mem["ptr"], "ptr", s.o, 0, False).p) == 0)
        yield "buffer", same
        yield "length", lambda lv: 0 <= glen(k, lv.s, s)
        yield "text: threads", lambda lv: z3.And(0 <= Z(lv.it), Z(lv.it) <= n, tx(k, lv.s, s) == TT(Z(lv.it)))
        if "libs" in k.data:
            yield "text: libraries", lambda lv: tx(k, lv.s, s) == LT(Z(lv.it))
        for a, v in sorted(L.entry.frames[-1].loc.items()):
            if isinstance(v, Ptr) and a not in [x for x, _ in L.locals]:
                i = ix(so, Z(v.o))
                yield "text: frames of %s" % a, lambda lv, i=i, v=v: z3.And(0 <= i, i < n, nd(so, i) == Z(v.o), 0 <= Z(lv.it), Z(lv.it) <= fl(Z(v.o)), tx(k, lv.s, s) == FR(i, Z(lv.it)))
                for m, cls, cur, old in items(eng, L):
                    if cls == "ptr":
                        yield "%s is the next frame of %s" % (m, a), lambda lv, cur=cur, v=v: z3.And(Z(cur(lv).o) == at_("bfr", Z(v.o), lv.it), Z(cur(lv).p) == 0)
    for m, cls, cur, old in items(eng, L):
        if cls == "ptr":
            yield "%s is the next thread" % m, lambda lv, cur=cur: z3.And(Z(cur(lv).o) == at_("bth", so, lv.it), Z(cur(lv).p) == 0)

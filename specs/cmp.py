"""Comparison functions: every contract says that the sign of the result is the lexicographic order of a list of keys."""
from spec import *
from engine import Skip, K
from lists import GList, fun, pats
import lists
import ghost

# (field, kind, direction): s string or NULL, u number, b boolean;  the key list of each struct IS the set of covered fields
FRAMES = {
    "koops": ("sr_koops_frame", [("address", "u", -1), ("reliable", "b", -1), ("function_name", "s", 1), ("function_offset", "u", -1),
                                 ("function_length", "u", -1), ("module_name", "s", 1), ("from_address", "u", -1), ("from_function_name", "s", 1),
                                 ("from_function_offset", "u", -1), ("from_function_length", "u", -1), ("from_module_name", "s", 1), ("special_stack", "s", 1)]),
    "core": ("sr_core_frame", [("build_id", "s", 1), ("build_id_offset", "u", 1), ("function_name", "s", 1), ("file_name", "s", 1), ("fingerprint", "s", 1)]),
    "python": ("sr_python_frame", [("function_name", "s", 1), ("file_name", "s", 1), ("file_line", "u", 1), ("special_function", "b", 1),
                                   ("special_file", "b", 1), ("line_contents", "s", 1)]),
    "ruby": ("sr_ruby_frame", [("function_name", "s", 1), ("file_name", "s", 1), ("file_line", "u", 1), ("special_function", "b", 1),
                               ("block_level", "u", 1), ("rescue_level", "u", 1)]),
    "js": ("sr_js_frame", [("function_name", "s", 1), ("file_name", "s", 1), ("file_line", "u", 1), ("line_column", "u", 1)]),
    "gdb": ("sr_gdb_frame", [("signal_handler_called", "b", 1), ("function_name", "s", 1), ("function_type", "s", 1), ("source_file", "s", 1),
                             ("source_line", "u", 1), ("library_name", "s", 1), ("number", "u", 1)]),
    "java": ("sr_java_frame", [("is_exception", "b", 1), ("name", "s", 1), ("class_path", "s", 1), ("file_name", "s", 1), ("is_native", "b", 1), ("file_line", "u", 1)]),
}
# frames whose later fields count only while the mask field is false
MASK = {"gdb": ("signal_handler_called", 1), "java": ("is_exception", 2)}
CODES = {"core": 1, "python": 2, "koops": 3, "java": 4, "gdb": 5, "ruby": 6, "js": 7}
STRS = {t: [f for f, kd, _ in ks if kd == "s"] for t, (_, ks) in FRAMES.items()}


def b01(x):
    return z3.If(Z(x) if not isinstance(x, bool) else z3.BoolVal(x), z3.RealVal(1), z3.RealVal(0)) if not z3.is_int(x) else z3.If(x != 0, z3.RealVal(1), z3.RealVal(0))


def rnk(k, st, p):
    """rank of a possibly NULL string, usable under a binder (memory as at entry)"""
    b = st.mem["i8"]
    if not isinstance(b, Base):
        return k.eng.rank0(st, p)
    return z3.If(Z(p.o) == 0, z3.RealVal(-1), b.rank(Z(p.o), Z(p.p)))


def field(k, st, ptr, sname, f, kind, quant):
    off, cls = k.foff(sname, f)
    w = k.struct(sname)[1][f][1]
    o = add(ptr.p, off)
    v = k.eng._read(st, st.mem[cls], cls, ptr.o, o, False) if quant else k.eng.read(st, cls, ptr.o, o)
    if kind == "s":
        return rnk(k, st, v) if quant else k.eng.rank0(st, v)
    if kind == "b":
        return b01(v)
    return z3.ToReal(Z(u(v, 8 * w)))


def keys(k, t, ptr, quant=False, number=True, st=None):
    """the comparison keys of a frame, as reals, smaller first"""
    st = st or k.st
    sname, fl = FRAMES[t]
    out = []
    mask, frm = MASK.get(t, (None, 99))
    m = None
    for i, (f, kd, d) in enumerate(fl):
        v = field(k, st, ptr, sname, f, kd, quant)
        if f == "number":
            if number is False:
                continue
            if number is not True:
                v = z3.If(number, v, z3.RealVal(0))
        if f == mask:
            m = v
        if i >= frm:
            v = z3.If(m == 1, z3.RealVal(-5), v)
        out.append(v if d == 1 else -v)
    return out


def lex(a, b):
    r = z3.IntVal(0)
    for x, y in reversed(list(zip(a, b))):
        r = z3.If(x < y, -1, z3.If(x > y, 1, r))
    return r


def same(a, b):
    return z3.And(*[x == y for x, y in zip(a, b)])


def sign_is(k, res, r, name):
    k.ensures(And((Z(res) < 0) == (r < 0), (Z(res) > 0) == (r > 0)), name)


def frame_ok(k, t, p):
    sname, fl = FRAMES[t]
    k.requires(k.valid(p, k.sizeof(sname)), "frame")
    for f in STRS[t]:
        v = k.fld(p, sname, f)
        k.requires(Or(eq(v.o, 0), k.valid_str(v)), "%s is a string or NULL" % f)


def mk_cmp(t):
    def c(k, f1, f2, number=True):
        for p in (f1, f2):
            frame_ok(k, t, p)
        a, b = keys(k, t, f1, number=number), keys(k, t, f2, number=number)

        def post(res):
            sign_is(k, res, lex(a, b), "the sign is the order of the fields %s" % ", ".join(x[0] for x in FRAMES[t][1]))
        return post
    CONTRACTS["sr_%s_frame_cmp" % t] = c
    INFO["sr_%s_frame_cmp" % t] = {"file": "%s_frame.c" % t, "opts": {}}


for _t in FRAMES:
    mk_cmp(_t)


def mk_dist(t, body):
    def c(k, f1, f2):
        for p in (f1, f2):
            frame_ok(k, t, p)
        v = lambda p, f: field(k, k.st, p, FRAMES[t][0], f, dict((x[0], x[1]) for x in FRAMES[t][1]).get(f), False)
        r = body(k, lambda f: (v(f1, f), v(f2, f)))

        def post(res):
            if k.mode == "verify":
                sign_is(k, res, r, "the documented matching rule")
                return
            sign_is(k, res, r, "the documented matching rule")
        return post
    CONTRACTS["sr_%s_frame_cmp_distance" % t] = c
    INFO["sr_%s_frame_cmp_distance" % t] = {"file": "%s_frame.c" % t, "opts": {}}


def cmp3(xy):
    return z3.If(xy[0] < xy[1], -1, z3.If(xy[0] > xy[1], 1, 0))


def lexf(*fs):
    def body(k, g):
        r = z3.IntVal(0)
        for f in reversed(fs):
            c = cmp3(g(f))
            r = z3.If(c != 0, c, r)
        return r
    return body


def qq():
    from engine import Engine
    return z3.RealVal(Engine.lit_rank(b"??"))


def both(xy):
    return z3.And(xy[0] != -1, xy[1] != -1)


def dist_core(k, g):
    fn, bi, off, fp = g("function_name"), g("build_id"), g("build_id_offset"), g("fingerprint")
    return z3.If(both(fn), cmp3(fn),
                 z3.If(z3.And(cmp3(bi) == 0, cmp3(off) == 0), 0,
                       z3.If(both(fp), cmp3(fp), z3.If(cmp3(bi) != 0, cmp3(bi), cmp3(off)))))


def dist_gdb(k, g):
    fn, lib = g("function_name"), g("library_name")
    unk = z3.And(fn[0] == qq(), fn[1] == qq())
    return z3.If(unk, -1, z3.If(cmp3(fn) != 0, cmp3(fn), z3.If(both(lib), cmp3(lib), 0)))


mk_dist("koops", lexf("function_name"))
mk_dist("java", lexf("name"))
mk_dist("python", lexf("function_name", "file_name", "special_function", "special_file"))
mk_dist("ruby", lexf("function_name", "file_name", "special_function"))
mk_dist("js", lexf("file_line", "function_name", "file_name"))
mk_dist("core", dist_core)
mk_dist("gdb", dist_gdb)


# ---------------------------------------------------------------- type-generic dispatch, one job per type
def mk_generic(fn, t, dist):
    def c(k, f1, f2):
        k.requires(k.valid(f1, 4))
        k.requires(eq(k.ld("i32", f1), CODES[t]), "type %s" % t)
        k.requires(eq(k.ld("i32", f2), CODES[t]), "type %s" % t)
        name = "sr_%s_frame_cmp%s" % (t, "_distance" if dist else "")
        extra = (False,) if (t == "gdb" and not dist) else ()
        return CONTRACTS[name](k, f1, f2, *extra)
    return c


def mk_generic_diff(fn):
    def c(k, f1, f2):
        k.requires(And(k.valid(f1, 4), k.valid(f2, 4)))
        a, b = k.ld("i32", f1), k.ld("i32", f2)
        for x in (a, b):
            k.requires(And(le(1, x), le(x, 7)), "a valid type")
        k.requires(ne(a, b), "different types")

        def post(res):
            sign_is(k, res, z3.If(Z(a) < Z(b), -1, 1), "frames of different types are ordered by type")
        return post
    return c


# ---------------------------------------------------------------- threads
def frames_of(k, t, th, sname):
    g = GList(k, FRAMES[t][0], th.o, strs=STRS[t])
    k.requires(k.valid(th, k.sizeof(sname)), "thread")
    g.require(head=k.fld(th, sname, "frames"))
    return g


def frame_keys(k, t, g, i):
    return keys(k, t, g.ptr(i), quant=True)


def seq_cmp(k, tag, g1, g2, kf, bound=(), guard=True, order=None, q="i!k"):
    """K: first position where the sequences differ or one ends (a definition); result: the order of the sequences.
    kf(g, i): keys of the i-th element, or order(i): the order of the i-th elements"""
    K = fun("FirstDiff." + tag, I, I, I)(g1.owner, g2.owner)
    i = z3.Int(q)
    bs = list(bound)
    lo = z3.If(g1.n < g2.n, g1.n, g2.n)
    order = order or (lambda i: lex(kf(g1, i), kf(g2, i)))
    fa = lambda vs, body, *ts: z3.ForAll(vs, body, patterns=list(ts)) if vs else body
    k.requires(fa(bs, z3.Implies(Z(guard), z3.And(0 <= K, K <= lo)), K), "definition of the first difference")
    k.requires(fa(bs + [i], z3.Implies(z3.And(Z(guard), 0 <= i, i < K), order(i) == 0),
                  z3.MultiPattern(g1.at(i), g2.at(i))), "definition of the first difference")
    k.requires(fa(bs, z3.Implies(z3.And(Z(guard), K < lo), order(K) != 0), K), "definition of the first difference")
    if not bs:
        k.bounds.append(("first difference", K))
    return z3.If(K < lo, order(K), z3.If(g1.n > g2.n, 1, z3.If(g1.n < g2.n, -1, 0)))


def mk_thread(name, t, sname, head=(), file=None, **kw):
    def c(k, t1, t2):
        g1 = frames_of(k, t, t1, sname)
        g2 = frames_of(k, t, t2, sname)
        a, b = [], []
        for f, kd in head:
            for p, out in ((t1, a), (t2, b)):
                if kd == "s":
                    v = k.fld(p, sname, f)
                    k.requires(Or(eq(v.o, 0), k.valid_str(v)), "%s is a string or NULL" % f)
                out.append(field(k, k.st, p, sname, f, kd, False))
        r = seq_cmp(k, t, g1, g2, lambda g, i: frame_keys(k, t, g, i))
        h = lex(a, b)

        def post(res):
            sign_is(k, res, z3.If(h != 0, h, r), "order of the threads: %s then the frames in order" % ", ".join(x[0] for x in head))
        return post
    CONTRACTS[name] = c
    INFO[name] = {"file": file, "opts": kw}


@contract("sr_java_stacktrace_cmp", file="java_stacktrace.c")
def _(k, s1, s2):
    T = []
    for s in (s1, s2):
        k.requires(k.valid(s, k.sizeof("sr_java_stacktrace")), "stack trace")
        g = GList(k, "sr_java_thread", s.o, strs=["name"])
        g.require(head=k.fld(s, "sr_java_stacktrace", "threads"))
        T.append(g)
    i = z3.Int("i!t")

    def frames(g, i):
        f = GList(k, "sr_java_frame", g.at(i), strs=STRS["java"])
        k.lists.pop()
        return f
    for g in T:
        f = frames(g, i)
        f.require(bound=[i], guard=z3.And(0 <= i, i < g.n), head=g.fread("frames", g.at(i)))
    fs = [frames(g, i) for g in T]
    inner = seq_cmp(k, "java", fs[0], fs[1], lambda g, j: frame_keys(k, "java", g, j), bound=[i],
                    guard=z3.And(0 <= i, i < T[0].n, i < T[1].n), q="j!k")

    def order(x):
        nm = [field(k, k.st, g.ptr(x), "sr_java_thread", "name", "s", True) for g in T]
        h = cmp3(nm)
        return z3.If(h != 0, h, z3.substitute(inner, (i, Z(x))))
    r = seq_cmp(k, "javathreads", T[0], T[1], None, order=order)

    def post(res):
        sign_is(k, res, r, "the order of the sequences of threads")
    return post


mk_thread("sr_core_thread_cmp", "core", "sr_core_thread", file="core_thread.c")
mk_thread("sr_gdb_thread_cmp", "gdb", "sr_gdb_thread", [("number", "u")], file="gdb_thread.c")
mk_thread("thread_cmp_dont_compare_number", "gdb", "sr_gdb_thread", file="gdb_stacktrace.c")
mk_thread("sr_java_thread_cmp", "java", "sr_java_thread", [("name", "s")], file="java_thread.c")


def mk_generic_thread(t, name):
    def c(k, t1, t2):
        k.requires(And(k.valid(t1, 4), k.valid(t2, 4)))
        k.requires(eq(k.ld("i32", t1), CODES[t]), "type %s" % t)
        k.requires(eq(k.ld("i32", t2), CODES[t]), "type %s" % t)
        return CONTRACTS[name](k, t1, t2)
    return c


# ---------------------------------------------------------------- packages, locations
NVR = [("name", "s"), ("version", "s"), ("release", "s")]
NEVRA = NVR + [("epoch", "u"), ("architecture", "s")]
CONS = [("path", "s")] + [(x, "b") for x in ("owner_changed", "group_changed", "mode_changed", "md5_mismatch", "size_changed",
                                             "major_number_changed", "minor_number_changed", "symlink_changed", "modification_time_changed")]


def struct_ok(k, p, sname, fl):
    k.requires(k.valid(p, k.sizeof(sname)), sname)
    for f, kd in fl:
        if kd == "s":
            v = k.fld(p, sname, f)
            k.requires(Or(eq(v.o, 0), k.valid_str(v)), "%s is a string or NULL" % f)


def struct_keys(k, p, sname, fl, quant=False):
    return [field(k, k.st, p, sname, f, kd, quant) for f, kd in fl]


def mk_struct(name, sname, fl, file):
    def c(k, p1, p2):
        for p in (p1, p2):
            struct_ok(k, p, sname, fl)
        a, b = struct_keys(k, p1, sname, fl), struct_keys(k, p2, sname, fl)

        def post(res):
            sign_is(k, res, lex(a, b), "the sign is the order of the fields " + ", ".join(x[0] for x in fl))
        return post
    CONTRACTS[name] = c
    INFO[name] = {"file": file, "opts": {}}


mk_struct("sr_rpm_package_cmp_nvr", "sr_rpm_package", NVR, "rpm.c")
mk_struct("sr_rpm_package_cmp_nevra", "sr_rpm_package", NEVRA, "rpm.c")
mk_struct("sr_rpm_consistency_cmp", "sr_rpm_consistency", CONS, "rpm.c")


def cons_lists(k, o1, o2):
    gs = [GList(k, "sr_rpm_consistency", o, strs=["path"]) for o in (o1, o2)]
    for g in gs:
        g.require()
    r = seq_cmp(k, "cons", gs[0], gs[1], lambda g, i: struct_keys(k, g.ptr(i), "sr_rpm_consistency", CONS, True))
    return gs, k.bounds[-1][1], r


@contract("sr_rpm_consistency_cmp_recursive", file="rpm.c")
def _(k, c1, c2):
    gs, K, r = cons_lists(k, z3.Int("consOwner1"), z3.Int("consOwner2"))
    if k.mode == "call" and k.eng.fnname == "sr_rpm_consistency_cmp_recursive":
        i = S(Z(k.eng.k_main.data["i"]) + 1)    # the recursive call is one element further
    elif k.mode == "call":
        i = 0
    else:
        i = z3.Int("consPos")
    k.data["i"] = i
    k.requires(And(le(0, i), le(i, K)), "no difference before this element")
    for g, p in zip(gs, (c1, c2)):
        k.requires(g.is_at(p, i), "the i-th elements of the two lists")

    def post(res):
        sign_is(k, res, r, "order of the two lists")
    return post


@contract("sr_rpm_package_cmp", file="rpm.c")
def _(k, p1, p2):
    fl = NEVRA + [("install_time", "u")]
    for p in (p1, p2):
        struct_ok(k, p, "sr_rpm_package", fl)
    gs, K, r = cons_lists(k, z3.Int("consOwner1"), z3.Int("consOwner2"))
    for g, p in zip(gs, (p1, p2)):
        k.requires(g.is_at(k.fld(p, "sr_rpm_package", "consistency"), 0), "consistency list")
    a, b = struct_keys(k, p1, "sr_rpm_package", fl), struct_keys(k, p2, "sr_rpm_package", fl)
    h = lex(a, b)

    def post(res):
        sign_is(k, res, z3.If(h != 0, h, r), "order of all fields, then of the consistency records")
    return post


@contract("sr_location_cmp", file="location.c")
def _(k, l1, l2, msgs):
    fl = [("line", "i"), ("column", "i")]
    for p in (l1, l2):
        k.requires(k.valid(p, k.sizeof("sr_location")))
        v = k.fld(p, "sr_location", "message")
        k.requires(Or(eq(v.o, 0), k.valid_str(v)), "message")
        for f in ("line", "column"):
            k.requires(le(0, k.fld(p, "sr_location", f)), "positions are not negative")

    def ks(p):
        m = k.rank0(k.fld(p, "sr_location", "message"))
        return [z3.ToReal(Z(k.fld(p, "sr_location", f))) for f in ("line", "column")] + [z3.If(k.eng.tobool(msgs), m, z3.RealVal(0))]
    a, b = ks(l1), ks(l2)

    def post(res):
        sign_is(k, res, lex(a, b), "line, column, message")
    return post

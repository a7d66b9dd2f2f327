#include "common.h"
#include "gen.h"
#include "internal_utils.h"

/* order of the covered fields, written down independently of the code: d = -1 where the larger value comes first */
typedef struct { const char *name; int d; } key;
static const key K_koops[] = { {"address",-1},{"reliable",-1},{"function_name",1},{"function_offset",-1},{"function_length",-1},{"module_name",1},{"from_address",-1},
    {"from_function_name",1},{"from_function_offset",-1},{"from_function_length",-1},{"from_module_name",1},{"special_stack",1},{0,0} };
static const key K_core[] = { {"build_id",1},{"build_id_offset",1},{"function_name",1},{"file_name",1},{"fingerprint",1},{0,0} };
static const key K_python[] = { {"function_name",1},{"file_name",1},{"file_line",1},{"special_function",1},{"special_file",1},{"line_contents",1},{0,0} };
static const key K_ruby[] = { {"function_name",1},{"file_name",1},{"file_line",1},{"special_function",1},{"block_level",1},{"rescue_level",1},{0,0} };
static const key K_js[] = { {"function_name",1},{"file_name",1},{"file_line",1},{"line_column",1},{0,0} };
static const key K_gdb[] = { {"signal_handler_called",1},{"function_name",1},{"function_type",1},{"source_file",1},{"source_line",1},{"library_name",1},{"number",1},{0,0} };
static const key K_java[] = { {"is_exception",1},{"name",1},{"class_path",1},{"file_name",1},{"is_native",1},{"file_line",1},{0,0} };
static const key *KEYS[7] = { K_core, K_gdb, K_java, K_koops, K_python, K_ruby, K_js };

static const fld *find(const fld *f, const char *n) { for (; f->name; ++f) if (!strcmp(f->name, n)) return f; abort(); }
static int sgn(int x) { return (x > 0) - (x < 0); }

/* -1/0/1 and whether all covered fields are equal */
static int expect(int k, const void *a, const void *b, bool number)
{
    for (const key *q = KEYS[k]; q->name; ++q) {
        if (!number && !strcmp(q->name, "number")) continue;
        const fld *f = find(KIND[k].f, q->name);
        int c = field_order(a, b, f);
        if (c) return c * q->d;
        if (k == K_GDB && q == K_gdb && AT(a, f->off, bool)) return 0;         /* signal handler: nothing else counts */
        if (k == K_JAVA && !strcmp(q->name, "name") && AT(a, find(KIND[k].f, "is_exception")->off, bool)) return 0;
    }
    return 0;
}
static int call(int k, void *a, void *b, bool number)
{
    switch (k) {
    case K_CORE: return sr_core_frame_cmp(a, b);
    case K_GDB: return sr_gdb_frame_cmp(a, b, number);
    case K_JAVA: return sr_java_frame_cmp(a, b);
    case K_KOOPS: return sr_koops_frame_cmp(a, b);
    case K_PYTHON: return sr_python_frame_cmp(a, b);
    case K_RUBY: return sr_ruby_frame_cmp(a, b);
    default: return sr_js_frame_cmp(a, b);
    }
}
#define S(p, n) AT(p, find(KIND[k].f, n)->off, char *)
#define O(n) field_order(a, b, find(KIND[k].f, n))
static int expect_dist(int k, void *a, void *b)
{
    int c;
    switch (k) {
    case K_KOOPS: return O("function_name");
    case K_JAVA: return O("name");
    case K_JS: return (c = O("file_line")) ? c : (c = O("function_name")) ? c : O("file_name");
    case K_PYTHON: return (c = O("function_name")) ? c : (c = O("file_name")) ? c : (c = O("special_function")) ? c : O("special_file");
    case K_RUBY: return (c = O("function_name")) ? c : (c = O("file_name")) ? c : O("special_function");
    case K_GDB:
        if (S(a, "function_name") && !strcmp(S(a, "function_name"), "??") && S(b, "function_name") && !strcmp(S(b, "function_name"), "??")) return -1;
        if ((c = O("function_name"))) return c;
        return S(a, "library_name") && S(b, "library_name") ? O("library_name") : 0;
    default:
        if (S(a, "function_name") && S(b, "function_name")) return O("function_name");
        if (!O("build_id") && !O("build_id_offset")) return 0;
        if (S(a, "fingerprint") && S(b, "fingerprint")) return O("fingerprint");
        return (c = O("build_id")) ? c : O("build_id_offset");
    }
}
static int call_dist(int k, void *a, void *b)
{
    switch (k) {
    case K_CORE: return sr_core_frame_cmp_distance(a, b);
    case K_GDB: return sr_gdb_frame_cmp_distance(a, b);
    case K_JAVA: return sr_java_frame_cmp_distance(a, b);
    case K_KOOPS: return sr_koops_frame_cmp_distance(a, b);
    case K_PYTHON: return sr_python_frame_cmp_distance(a, b);
    case K_RUBY: return sr_ruby_frame_cmp_distance(a, b);
    default: return sr_js_frame_cmp_distance(a, b);
    }
}
static void laws(const char *what, int ab, int ba, int bc, int ac, bool eqab)
{
    CHECK(sgn(ab) == -sgn(ba), "opposite signs when the arguments are swapped", "%s: cmp(a,b)=%d cmp(b,a)=%d", what, ab, ba);
    CHECK((ab == 0) == eqab, "zero exactly when all covered fields are equal", "%s: cmp(a,b)=%d, fields %s", what, ab, eqab ? "equal" : "differ");
    if (ab <= 0 && bc <= 0)
        CHECK(ac < 0 || (ac == 0 && ab == 0 && bc == 0), "transitive", "%s: cmp(a,b)=%d cmp(b,c)=%d cmp(a,c)=%d", what, ab, bc, ac);
}
static void t_frames(void)
{
    int k = rnd(7);
    void *a = gen_frame(k), *b = chance(60) ? vary_frame(k, a) : chance(50) ? clone_frame(k, a) : gen_frame(k), *c = chance(60) ? vary_frame(k, b) : gen_frame(k);
    bool num = k != K_GDB || chance(50);
    desc("%s frames a=%s b=%s c=%s", KIND[k].name, show_frame(k, a), show_frame(k, b), show_frame(k, c));
    vwhere_ = "frame comparison";
    laws("frame_cmp", call(k, a, b, num), call(k, b, a, num), call(k, b, c, num), call(k, a, c, num), expect(k, a, b, num) == 0);
    CHECK(sgn(call(k, a, b, num)) == expect(k, a, b, num), "frame order of the covered fields", "%s: %d expected %d", KIND[k].name, call(k, a, b, num), expect(k, a, b, num));
    int g = sr_frame_cmp(a, b);
    CHECK(sgn(g) == expect(k, a, b, k != K_GDB), "sr_frame_cmp dispatches to the type", "%s: %d expected sign %d", KIND[k].name, g, expect(k, a, b, k != K_GDB));
    int d = call_dist(k, a, b), e = expect_dist(k, a, b);
    CHECK(sgn(d) == e, "distance comparison follows the matching rule", "%s: %d expected sign %d", KIND[k].name, d, e);
    CHECK((d == 0) == (call_dist(k, b, a) == 0), "distance comparison agrees in both orders", "%s: %d %d", KIND[k].name, d, call_dist(k, b, a));
    CHECK(sgn(sr_frame_cmp_distance(a, b)) == e, "sr_frame_cmp_distance dispatches to the type", "%s", KIND[k].name);
    int k2 = rnd(7);
    void *o = gen_frame(k2);
    if (k2 != k) {
        CHECK(sgn(sr_frame_cmp(a, o)) == -sgn(sr_frame_cmp(o, a)) && sr_frame_cmp(a, o) != 0 && sr_frame_cmp_distance(a, o) != 0, "frames of different types", "%s %s", KIND[k].name, KIND[k2].name);
        nontrivial();
    }
    free_frame1(k, a); free_frame1(k, b); free_frame1(k, c); free_frame1(k2, o);
}

static int expect_thread(int k, void *a, void *b, bool head)
{
    if (head && k == K_GDB && field_order(a, b, find(KIND[k].tf, "number"))) return field_order(a, b, find(KIND[k].tf, "number"));
    if (head && k == K_JAVA && field_order(a, b, find(KIND[k].tf, "name"))) return field_order(a, b, find(KIND[k].tf, "name"));
    void *x = FRAMES(k, a), *y = FRAMES(k, b);
    for (; x && y; x = NEXT(k, x), y = NEXT(k, y)) {
        int c = expect(k, x, y, true);
        if (c) return c;
    }
    return (x != NULL) - (y != NULL);
}
static void *clone_thread(int k, void *t)
{
    void *n = KIND[k].tnew();
    for (const fld *f = KIND[k].tf; f->name; ++f) copy_field(n, t, f);
    void **tail = &FRAMES(k, n);
    for (void *f = FRAMES(k, t); f; f = NEXT(k, f)) { *tail = clone_frame(k, f); tail = &NEXT(k, *tail); *tail = NULL; }
    return n;
}
static void *vary_thread(int k, void *t)
{
    void *n = clone_thread(k, t);
    int len = list_len(k, FRAMES(k, n));
    int r = rnd(3);
    if (r == 0 && len) {            /* change one frame */
        void **f = &FRAMES(k, n);
        for (int i = rnd(len); i; --i) f = &NEXT(k, *f);
        void *nx = NEXT(k, *f), *v = vary_frame(k, *f);
        free_frame1(k, *f);
        *f = v; NEXT(k, v) = nx;
    } else if (r == 1 && len) {     /* cut */
        void **f = &FRAMES(k, n);
        for (int i = rnd(len); i; --i) f = &NEXT(k, *f);
        free_list(k, *f); *f = NULL;
    } else if (KIND[k].tf[0].name)
        gen_field(n, &KIND[k].tf[0]);
    return n;
}
static int call_thread(int k, void *a, void *b)
{
    return k == K_CORE ? sr_core_thread_cmp(a, b) : k == K_GDB ? sr_gdb_thread_cmp(a, b) : sr_java_thread_cmp(a, b);
}
static void t_threads(void)
{
    int k = rnd(3);
    void *a = gen_thread(k, rnd(5)), *b = chance(60) ? vary_thread(k, a) : chance(50) ? clone_thread(k, a) : gen_thread(k, rnd(5)), *c = chance(60) ? vary_thread(k, b) : gen_thread(k, rnd(4));
    desc("%s threads a=%s b=%s c=%s", KIND[k].name, show_frames(k, FRAMES(k, a)), show_frames(k, FRAMES(k, b)), show_frames(k, FRAMES(k, c)));
    vwhere_ = "thread comparison";
    int e = expect_thread(k, a, b, true);
    laws("thread_cmp", call_thread(k, a, b), call_thread(k, b, a), call_thread(k, b, c), call_thread(k, a, c), e == 0);
    CHECK(sgn(call_thread(k, a, b)) == e, "thread order", "%s: %d expected sign %d", KIND[k].name, call_thread(k, a, b), e);
    CHECK(sgn(sr_thread_cmp(a, b)) == e, "sr_thread_cmp dispatches to the type", "%s: %d expected sign %d", KIND[k].name, sr_thread_cmp(a, b), e);
    if (FRAMES(k, a) && FRAMES(k, b)) nontrivial();
    if (k == K_JAVA) {
        struct sr_java_stacktrace s = { .type = SR_REPORT_JAVA, .threads = a }, t = { .type = SR_REPORT_JAVA, .threads = b };
        struct sr_java_thread *a2 = chance(50) ? clone_thread(k, c) : NULL, *b2 = chance(50) ? clone_thread(k, c) : chance(50) ? vary_thread(k, c) : NULL;
        ((struct sr_java_thread *)a)->next = a2; ((struct sr_java_thread *)b)->next = b2;
        int x = e ? e : a2 && b2 ? expect_thread(k, a2, b2, true) : (a2 != NULL) - (b2 != NULL);
        CHECK(sgn(sr_java_stacktrace_cmp(&s, &t)) == x, "java stack trace order", "%d expected sign %d", sr_java_stacktrace_cmp(&s, &t), x);
        CHECK(sgn(sr_java_stacktrace_cmp(&t, &s)) == -x, "java stack trace order, swapped", "%d expected sign %d", sr_java_stacktrace_cmp(&t, &s), -x);
        if (a2) free_thread1(k, a2);
        if (b2) free_thread1(k, b2);
    }
    free_thread1(k, a); free_thread1(k, b); free_thread1(k, c);
}

static const fld PKG_F[] = { F(sr_rpm_package,'s',name), F(sr_rpm_package,'s',version), F(sr_rpm_package,'s',release), F(sr_rpm_package,'4',epoch), F(sr_rpm_package,'s',architecture), F(sr_rpm_package,'8',install_time), END };
static const fld CONS_F[] = { F(sr_rpm_consistency,'s',path), F(sr_rpm_consistency,'b',owner_changed), F(sr_rpm_consistency,'b',group_changed), F(sr_rpm_consistency,'b',mode_changed),
    F(sr_rpm_consistency,'b',md5_mismatch), F(sr_rpm_consistency,'b',size_changed), F(sr_rpm_consistency,'b',major_number_changed), F(sr_rpm_consistency,'b',minor_number_changed),
    F(sr_rpm_consistency,'b',symlink_changed), F(sr_rpm_consistency,'b',modification_time_changed), END };
static struct sr_rpm_package *pkg(struct sr_rpm_package *from)
{
    struct sr_rpm_package *p = sr_rpm_package_new();
    for (const fld *f = PKG_F; f->name; ++f) if (from) copy_field(p, from, f); else gen_field(p, f);
    struct sr_rpm_consistency **t = &p->consistency, *s = from ? from->consistency : NULL;
    for (int i = from ? 99 : rnd(3); i && (!from || s); --i) {
        *t = sr_rpm_consistency_new();
        for (const fld *f = CONS_F; f->name; ++f) if (s) copy_field(*t, s, f); else gen_field(*t, f);
        t = &(*t)->next;
        if (s) s = s->next;
    }
    if (from) {
        int r = rnd(4);
        if (r == 0) gen_field(p, &PKG_F[rnd(6)]);
        else if (r == 1 && p->consistency) gen_field(p->consistency->next && chance(60) ? p->consistency->next : p->consistency, &CONS_F[rnd(10)]);
        else if (r == 2 && p->consistency) { sr_rpm_consistency_free(p->consistency->next, true); p->consistency->next = NULL; }
    }
    return p;
}
static int pkg_order(struct sr_rpm_package *a, struct sr_rpm_package *b, int n)
{
    for (int i = 0; i < (n < 6 ? n : 6); ++i) if (field_order(a, b, &PKG_F[i])) return field_order(a, b, &PKG_F[i]);
    if (n > 6) {
        struct sr_rpm_consistency *x = a->consistency, *y = b->consistency;
        for (; x && y; x = x->next, y = y->next) { const fld *f = fields_differ(x, y, CONS_F); if (f) return field_order(x, y, f); }
        return (x != NULL) - (y != NULL);
    }
    return 0;
}
static void t_pkgs(void)
{
    struct sr_rpm_package *p[3];
    p[0] = pkg(NULL); p[1] = pkg(chance(75) ? p[0] : NULL); p[2] = pkg(chance(75) ? p[1] : NULL);
    char b0[700], b1[700], b2[700];
    put(b0, b0 + 690, p[0], PKG_F); put(b1, b1 + 690, p[1], PKG_F); put(b2, b2 + 690, p[2], PKG_F);
    desc("packages %s | %s | %s", b0, b1, b2);
    int (*fn[3])() = { sr_rpm_package_cmp_nvr, sr_rpm_package_cmp_nevra, sr_rpm_package_cmp };
    static const int NF[3] = { 3, 5, 7 };
    for (int i = 0; i < 3; ++i) {
        int e = pkg_order(p[0], p[1], NF[i]);
        vwhere_ = "package comparison";
        laws("package", fn[i](p[0], p[1]), fn[i](p[1], p[0]), fn[i](p[1], p[2]), fn[i](p[0], p[2]), e == 0);
        CHECK(sgn(fn[i](p[0], p[1])) == e, "package order", "function %d: %d expected sign %d", i, fn[i](p[0], p[1]), e);
    }
    struct sr_rpm_consistency *x = p[0]->consistency, *y = p[1]->consistency;
    if (x && y) {
        const fld *f = fields_differ(x, y, CONS_F);
        int e = f ? field_order(x, y, f) : 0;
        CHECK(sgn(sr_rpm_consistency_cmp(x, y)) == e, "consistency record order", "%d expected sign %d", sr_rpm_consistency_cmp(x, y), e);
        nontrivial();
    }
    for (int i = 0; i < 3; ++i) sr_rpm_package_free(p[i], true);
}
static void t_loc(void)
{
    struct sr_location l[3];
    for (int i = 0; i < 3; ++i) {
        sr_location_init(&l[i]);
        l[i].line = chance(20) ? INT_MAX - (int)rnd(2) : (int)rnd(3); l[i].column = chance(20) ? INT_MAX - (int)rnd(2) : (int)rnd(3); l[i].message = chance(30) ? NULL : chance(50) ? "a" : "b";
    }
    bool m = chance(50);
    desc("locations %d:%d:%s %d:%d:%s %d:%d:%s messages=%d", l[0].line, l[0].column, show(l[0].message), l[1].line, l[1].column, show(l[1].message), l[2].line, l[2].column, show(l[2].message), m);
    int e = l[0].line != l[1].line ? (l[0].line < l[1].line ? -1 : 1) : l[0].column != l[1].column ? (l[0].column < l[1].column ? -1 : 1) : m ? sgn(g_strcmp0(l[0].message, l[1].message)) : 0;
    laws("location", sr_location_cmp(&l[0], &l[1], m), sr_location_cmp(&l[1], &l[0], m), sr_location_cmp(&l[1], &l[2], m), sr_location_cmp(&l[0], &l[2], m), e == 0);
    CHECK(sgn(sr_location_cmp(&l[0], &l[1], m)) == e, "location order", "expected sign %d", e);
}
static void run_case(void)
{
    gen_variety = 2 + rnd(8);
    switch (rnd(8)) {
    case 0: case 1: case 2: case 3: t_frames(); break;
    case 4: case 5: t_threads(); break;
    case 6: t_pkgs(); break;
    default: t_loc();
    }
}

#include "common.h"
#include "location.h"
#include "gdb/frame.h"
#include "gdb/thread.h"
#include "gdb/sharedlib.h"
#include "gdb/stacktrace.h"

#define PICKC(a) ((a)[rnd(sizeof(a) - 1)])
/* a backtrace is printed in gdb's format from known data; what the parser reports must be that data */
typedef struct { uint32_t number, line; uint64_t addr; bool sig; char *type, *fn, *file; } F;
static F want[120];
static int nwant;
static struct { uint32_t number, tid; int first, n; } wthr[12];
static int nthr;
static struct { uint64_t from, to; int sym; char *so; } wlib[40];
static int nlib;

static uint64_t num(void)
{
    switch (rnd(6)) { case 0: return 0; case 1: return rnd(16); case 2: return rnd(4096); case 3: return UINT64_MAX; case 4: return rnd64() | 1ULL << 63; default: return rnd64() >> rnd(64); }
}
static uint32_t num32(void) { switch (rnd(4)) { case 0: return rnd(10); case 1: return rnd(2000); case 2: return UINT32_MAX - rnd(2); default: return (uint32_t)rnd64() >> rnd(32); } }
static void sp(GString *g) { int n = chance(80) ? 1 : 1 + rnd(4); while (n--) g_string_append_c(g, ' '); }
static char *word(const char *first, const char *rest, int max)
{
    GString *g = g_string_new(NULL);
    g_string_append_c(g, first[rnd(strlen(first))]);
    int l = rnd(rnd(20) ? 9 : max);
    while (l--) g_string_append_c(g, rest[rnd(strlen(rest))]);
    char *r = g_string_free(g, FALSE);
    /* these words mean something else */
    if (strstr(r, "operator") || g_str_has_prefix(r, "const")) r[0] = 'q';
    return r;
}
#define A "abcdefghijklmnpqrstuvwxyzABCXYZ_"
static void put(GString *g, char *w) { g_string_append(g, w); g_free(w); }
static void tmpl(GString *g, int depth)
{
    static const char *args[] = { "int", "char const*", "std::string", "(Foo)0", "unsigned long", "true", "3u, 4", "void (*)(int)", "QList<int>", "&Foo::bar", "(anonymous namespace)::X", "Eigen::Matrix<double, -1, -1, 0>", "T [with T = int[3]]" };
    g_string_append_c(g, '<');
    int n = 1 + rnd(3);
    while (n--) {
        if (depth < 4 && chance(25)) { put(g, word(A, A "0123456789:", 20)); tmpl(g, depth + 1); if (chance(40)) g_string_append_c(g, ' '); }
        else g_string_append(g, PICK(args));
        if (n) g_string_append(g, ", ");
    }
    g_string_append_c(g, '>');
}
static char *name(void)
{
    static const char *ops[] = { "operator<<", "operator()", "operator==", "operator new", "operator delete[]", "operator->", "operator[]", "operator,", "operator>>=", "operator<=", "operator!", "operator~", "operator new[]", "operator-", "operator>" };
    GString *g = g_string_new(NULL);
    if (chance(10)) g_string_append(g, "(anonymous namespace)::");
    if (chance(5)) g_string_append_c(g, PICKC("~*."));
    put(g, word(A, A "0123456789@.:~-", 300));
    int n = rnd(3);
    while (n--) {
        switch (rnd(5)) {
        case 0: tmpl(g, 0); break;
        case 1: g_string_append(g, "::"); put(g, word(A, A "0123456789", 30)); break;
        case 2: g_string_append(g, "(int, char)"); break;
        default: tmpl(g, 0); g_string_append(g, "::"); put(g, word(A, A, 20)); break;
        }
    }
    if (chance(12)) { g_string_append(g, "::"); g_string_append(g, PICK(ops)); }
    if (chance(8)) g_string_append(g, "(int) const");
    return g_string_free(g, FALSE);
}
static void args(GString *g)
{
    static const char *v[] = { "x=0x0", "s=0x41 \"a(b)\\\"c)\"", "this=<optimized out>", "c=40 '@'", "f=0x1 <foo(int)>", "a={1, 2}", "...", "p=@0x7f: {p = 0x0}", "argv=(void (*)(int)) 0x4", "q=\"\\\\\"", "e=\"\\\\\\\"\"", "n=\"#\"" };
    g_string_append_c(g, '(');
    int n = rnd(4);
    while (n--) { g_string_append(g, PICK(v)); if (n) g_string_append(g, chance(85) ? ", " : ", \n    "); }
    g_string_append_c(g, ')');
}
static void frame_text(GString *g, F *f)
{
    memset(f, 0, sizeof *f);
    f->number = num32(); f->addr = UINT64_MAX; f->line = UINT32_MAX;
    g_string_append_printf(g, "#%u", f->number);
    sp(g);
    if (chance(7)) { g_string_append(g, "<signal handler called>"); f->sig = true; return; }
    bool addr = chance(70);
    if (addr) {
        f->addr = num();
        g_string_append_printf(g, chance(60) ? "0x%016llx" : chance(20) ? "0x%llX" : "0x%llx", (unsigned long long)f->addr);
        sp(g); g_string_append(g, "in"); sp(g);
        if (chance(4)) { g_string_append(g, "vtable"); sp(g); g_string_append(g, "for"); sp(g); }
    }
    if (chance(10)) f->fn = g_strdup("??");
    else {
        f->fn = name();
        if (chance(12) && f->fn[0] != '(') {
            static const char *types[] = { "void", "int", "std::vector<int, std::allocator<int> >", "bool", "unsigned", "QMap<K,V>*" };
            f->type = g_strdup(PICK(types));
            g_string_append(g, f->type);
            g_string_append_c(g, ' ');
        }
    }
    g_string_append(g, f->fn);
    g_string_append_c(g, ' ');
    args(g);
    if (!addr || chance(70)) {
        g_string_append(g, chance(80) ? " " : "\n    ");
        bool from = addr && chance(40);
        g_string_append(g, from ? "from " : "at ");
        if (from) {
            static const char *so[] = { "/usr/lib64/libc.so.6", "/lib/libm.so", "/usr/lib/firefox/libxul.so", "/opt/lib/x.so.1.2", "/lib64/ld-linux-x86-64.so.2" };
            g_string_append(g, PICK(so));        /* a library, no source file */
        } else {
            static const char *dirs[] = { "", "/usr/src/debug/", "../sysdeps/", "/lib/", "./a+b/", "C:\\x\\" + 2 };
            static const char *ext[] = { ".c", ".cpp", ".S", "", ".so_c", ".h" };
            GString *p = g_string_new(PICK(dirs));
            put(p, word(A, A "0123456789.+-", 60));
            g_string_append(p, PICK(ext));
            char *lib = strstr(p->str, "/lib");
            if (lib && (strstr(lib, ".so.") || g_str_has_suffix(lib, ".so"))) { lib[1] = 'z'; }
            while ((lib = strstr(p->str, "/lib")) && (strstr(lib, ".so.") || g_str_has_suffix(lib, ".so"))) lib[1] = 'z';
            f->file = g_string_free(p, FALSE);
            g_string_append(g, f->file);
            if (chance(85)) { f->line = num32(); g_string_append_printf(g, ":%u", f->line); }
        }
    }
}
static void locals(GString *g)
{
    static const char *l[] = { "        x = 0\n", "No locals.\n", "        s = \"a \\\"#3\"\n", "        __PRETTY_FUNCTION__ = \"foo(int)\"\n", "   # no frame\n", "        Thread = 1\n", "\n", "No symbol table info available.\n", "(gdb) x\n" };
    int n = chance(60) ? 0 : rnd(4);
    while (n--) g_string_append(g, PICK(l));
}
static void clear(void)
{
    for (int i = 0; i < nwant; ++i) { g_free(want[i].type); g_free(want[i].fn); g_free(want[i].file); }
    for (int i = 0; i < nlib; ++i) g_free(wlib[i].so);
    nwant = nlib = nthr = 0;
}
static void same(const struct sr_gdb_frame *r, const F *f, int i)
{
    CHECK(r->type == SR_REPORT_GDB, "frame type", "frame %d has type %d", i, r->type);
    CHECK(r->number == f->number, "number as printed", "frame %d: %u, printed %u", i, r->number, f->number);
    CHECK(r->address == f->addr, "address as printed", "frame %d: %llx, printed %llx", i, (unsigned long long)r->address, (unsigned long long)f->addr);
    CHECK(!g_strcmp0(r->function_name, f->fn), "function name as printed", "frame %d: %s, printed %s", i, show(r->function_name), show(f->fn));
    CHECK(!g_strcmp0(r->function_type, f->type), "function type as printed", "frame %d: %s, printed %s", i, show(r->function_type), show(f->type));
    CHECK(!g_strcmp0(r->source_file, f->file), "source file as printed", "frame %d: %s, printed %s", i, show(r->source_file), show(f->file));
    CHECK(r->source_line == f->line, "line as printed", "frame %d: %u, printed %u", i, r->source_line, f->line);
    CHECK(r->signal_handler_called == f->sig, "signal handler as printed", "frame %d: %d", i, r->signal_handler_called);
}
static void thread_text(GString *g, bool header)
{
    int t = nthr++;
    wthr[t].number = wthr[t].tid = 0;
    if (header) {
        wthr[t].number = num32();
        g_string_append(g, "Thread"); sp(g); g_string_append_printf(g, "%u", wthr[t].number); sp(g);
        switch (rnd(3)) {
        case 0: g_string_append_printf(g, "(Thread %u)", rnd(30000)); break;
        case 1: wthr[t].tid = num32(); g_string_append_printf(g, "(Thread 0x%llx (LWP %u))", (unsigned long long)num(), wthr[t].tid); break;
        default: wthr[t].tid = num32(); g_string_append_printf(g, "(LWP %u)", wthr[t].tid); break;
        }
        g_string_append(g, ":\n");
    }
    wthr[t].first = nwant;
    wthr[t].n = 1 + rnd(5);
    for (int i = 0; i < wthr[t].n; ++i) { frame_text(g, &want[nwant++]); g_string_append_c(g, '\n'); locals(g); }
}
static void libs_text(GString *g)
{
    g_string_append(g, "From                To                  Syms Read   Shared Object Library\n");
    nlib = rnd(4);
    for (int i = 0; i < nlib; ++i) {
        static const char *so[] = { "/lib64/libc.so.6", "/usr/lib64/libX11.so.6.3.0", "/opt/a b/x.so", "x" };
        static const char *sym[] = { "Yes (*)", "Yes", "No" };
        int k = rnd(3);
        wlib[i].from = wlib[i].to = UINT64_MAX;
        if (chance(85)) {
            wlib[i].from = rnd64() >> rnd(60); wlib[i].to = wlib[i].from + rnd(1 << 20);
            g_string_append_printf(g, "0x%016llx  0x%016llx  ", (unsigned long long)wlib[i].from, (unsigned long long)wlib[i].to);
        } else g_string_append(g, "                                        ");
        wlib[i].sym = k == 0 ? SYMS_NOT_FOUND : k == 1 ? SYMS_OK : SYMS_WRONG;
        wlib[i].so = g_strdup(PICK(so));
        g_string_append_printf(g, "%-12s%s%s", sym[k], "", wlib[i].so);
        g_string_append_c(g, '\n');
    }
}
static void case_frame(void)
{
    GString *g = g_string_new(NULL);
    nwant = 1;
    frame_text(g, &want[0]);
    size_t end = g->len;
    unsigned m = rnd(4);
    if (m == 0) ;
    else {
        g_string_append_c(g, '\n');
        if (chance(50)) locals(g);
        /* what the frame consumes: everything before the next frame or thread */
        end = g->len;
        if (m == 2) g_string_append(g, "#1  0x1 in x () from /lib/y.so\n");
        if (m == 3) g_string_append(g, "Thread 2 (Thread 3):\n#0 x () at y.c:3\n");
    }
    char *t = exact(g->str);
    desc("frame %s", show(t));
    const char *in = t;
    struct sr_location loc;
    sr_location_init(&loc);
    vwhere_ = "sr_gdb_frame_parse";
    struct sr_gdb_frame *r = sr_gdb_frame_parse(&in, &loc);
    CHECK(r, "printed frame accepted", "%s", loc.message ? loc.message : "NULL");
    same(r, &want[0], 0);
    CHECK(!r->next && !r->library_name, "one frame without library", "next or library is set");
    if (in != t + end) {
        /* a frame header may go over several lines, but never hides a frame */
        CHECK(0, "consumes exactly the frame", "%ld characters of %ld", (long)(in - t), (long)end);
    }
    nontrivial();
    sr_gdb_frame_free(r);
    clear(); free(t); g_string_free(g, TRUE);
}
static void same_thread(const struct sr_gdb_thread *r, int t)
{
    CHECK(r->number == wthr[t].number, "thread number as printed", "%u, printed %u", r->number, wthr[t].number);
    CHECK(r->tid == wthr[t].tid || !wthr[t].tid, "thread id as printed", "%u, printed %u", r->tid, wthr[t].tid);
    const struct sr_gdb_frame *f = r->frames;
    for (int i = 0; i < wthr[t].n; ++i, f = f->next) { CHECK(f, "every frame of the thread", "%d of %d", i, wthr[t].n); same(f, &want[wthr[t].first + i], i); }
    CHECK(!f, "no other frames", "more than %d", wthr[t].n);
}
static void case_thread(void)
{
    GString *g = g_string_new(NULL);
    bool header = chance(80);
    thread_text(g, header);
    size_t end = g->len;
    if (header && chance(50)) g_string_append(g, "Thread 9 (Thread 9):\n");
    char *t = exact(g->str);
    desc("thread %s", show(t));
    const char *in = t;
    struct sr_location loc;
    sr_location_init(&loc);
    vwhere_ = "sr_gdb_thread_parse";
    struct sr_gdb_thread *r = sr_gdb_thread_parse(&in, &loc);
    CHECK(r, "printed thread accepted", "%s", loc.message ? loc.message : "NULL");
    same_thread(r, 0);
    CHECK(in == t + end, "consumes exactly the thread", "%ld characters of %ld", (long)(in - t), (long)end);
    nontrivial();
    sr_gdb_thread_free(r);
    clear(); free(t); g_string_free(g, TRUE);
}
static const char *soname(const char *s, size_t *n)
{
    const char *b = strrchr(s, '/');
    b = b ? b + 1 : s;
    const char *e = strstr(b, ".so");
    *n = e ? (size_t)(e - b) + 3 : strlen(b);
    return b;
}
static GString *make(bool *crash)
{
    static const char *head[] = { "[New Thread 123]\n", "Core was generated by `./x'.\n", "warning: foo\n", "Program terminated with signal 11, Segmentation fault.\n", "\n" };
    GString *g = g_string_new(NULL);
    int n = 1 + rnd(3);
    while (n--) g_string_append(g, PICK(head));
    bool libs_first = chance(50), libs = chance(50);
    if (libs && libs_first) libs_text(g);
    *crash = chance(85);
    if (*crash) { frame_text(g, &want[nwant++]); g_string_append_c(g, '\n'); locals(g); }
    if (libs && !libs_first) libs_text(g);
    n = 1 + rnd(4);
    for (int i = 0; i < n; ++i) { if (i == 0 && g->str[g->len - 1] != '\n') g_string_append_c(g, '\n'); thread_text(g, true); }
    return g;
}
static void case_trace(void)
{
    bool crash;
    GString *g = make(&crash);
    char *t = exact(g->str);
    size_t n = strlen(t);
    desc("backtrace %s", show(t));
    const char *in = t;
    struct sr_location loc;
    sr_location_init(&loc);
    vwhere_ = "sr_gdb_stacktrace_parse";
    struct sr_gdb_stacktrace *s = sr_gdb_stacktrace_parse(&in, &loc);
    CHECK(s, "printed backtrace accepted", "%s", loc.message ? loc.message : "NULL");
    CHECK(!!s->crash == crash, "crash frame iff printed", "%d", !!s->crash);
    if (crash) same(s->crash, &want[0], -1);
    struct sr_gdb_thread *r = s->threads;
    for (int i = 0; i < nthr; ++i, r = r->next) { CHECK(r, "every thread", "%d of %d", i, nthr); same_thread(r, i); }
    CHECK(!r, "no other threads", "more than %d", nthr);
    CHECK(in == t + n, "consumes the whole text", "%ld of %ld", (long)(in - t), (long)n);
    struct sr_gdb_sharedlib *l = s->libs;
    for (int i = 0; i < nlib; ++i, l = l->next) {
        CHECK(l, "every library", "%d of %d", i, nlib);
        CHECK(l->from == wlib[i].from && l->to == wlib[i].to && l->symbols == wlib[i].sym && !strcmp(l->soname, wlib[i].so), "library as printed",
              "%d: %llx %llx %d %s", i, (unsigned long long)l->from, (unsigned long long)l->to, l->symbols, show(l->soname));
    }
    CHECK(!l, "no other libraries", "more than %d", nlib);
    vwhere_ = "sr_gdb_stacktrace_set_libnames";
    sr_gdb_stacktrace_set_libnames(s);
    for (r = s->threads; r; r = r->next)
        for (struct sr_gdb_frame *f = r->frames; f; f = f->next) {
            int k = -1;
            for (int i = nlib - 1; i >= 0; --i) if (f->address != UINT64_MAX && wlib[i].from <= f->address && f->address <= wlib[i].to) k = i;
            if (k < 0) CHECK(!f->library_name, "no library for an unmapped address", "%s", show(f->library_name));
            else {
                size_t m; const char *so = soname(wlib[k].so, &m);
                CHECK(f->library_name && strlen(f->library_name) == m && !strncmp(f->library_name, so, m), "library of the address", "%s, expected %.*s", show(f->library_name), (int)m, so);
            }
        }
    nontrivial();
    sr_gdb_stacktrace_free(s);
    clear(); free(t); g_string_free(g, TRUE);
}
/* arbitrary text: safety, and all or nothing */
static void case_fuzz(void)
{
    bool crash;
    GString *g;
    unsigned kind = rnd(3);
    if (kind == 0) g = make(&crash);
    else { g = g_string_new(NULL); if (kind == 1) { nwant = 1; frame_text(g, &want[0]); } else libs_text(g); }
    clear();
    static const char *tok[] = { "#", "0x", " in ", " at ", " from ", "(", ")", "<", ">", "operator", "operator<", "operator new", " const", "\"", "\\", "Thread ", "(LWP ", "\n", "\n#1 ", "\nThread ", "From", "To", "Syms Read", "Shared Object Library\n", "Yes", "No", "Yes (*)", " [with ", "]", "[", "??", "vtable for ", "(truncated)", "<signal handler called>", ":", "4294967296", "99999999999999999999", "0xffffffffffffffffff ", "~", " " };
    int m = rnd(7);
    while (m--) {
        size_t p = rnd(g->len + 1);
        switch (rnd(6)) {
        case 0: case 1: g_string_truncate(g, p); break;
        case 2: g_string_insert(g, p, PICK(tok)); break;
        case 3: if (p < g->len) g_string_erase(g, p, 1); break;
        case 4: if (p < g->len) g->str[p] = PICKC(" []<>()+/#x0\n\t.\"\\:\xff" "a"); break;
        case 5: { int n = rnd(6); while (n--) g_string_append(g, PICK(tok)); } break;
        }
    }
    char *t = exact(g->str);
    desc("arbitrary text %s", show(t));
    size_t n = strlen(t), start = chance(50) ? 0 : rnd(n + 1);
    struct sr_location loc;
#define TRY(T, call, fre) do { const char *in = t + start; sr_location_init(&loc); vwhere_ = #call; T *x = call; \
        if (!x) CHECK(in == t + start, "nothing parsed, pointer unchanged", "moved by %ld", (long)(in - t - start)); \
        else { CHECK(in > t + start && in <= t + n, "stays inside the text", "at %ld", (long)(in - t)); fre(x); nontrivial(); } } while (0)
    TRY(struct sr_gdb_frame, sr_gdb_frame_parse(&in, &loc), sr_gdb_frame_free);
    TRY(struct sr_gdb_frame, sr_gdb_frame_parse_header(&in, &loc), sr_gdb_frame_free);
    TRY(struct sr_gdb_thread, sr_gdb_thread_parse(&in, &loc), sr_gdb_thread_free);
    TRY(struct sr_gdb_stacktrace, sr_gdb_stacktrace_parse(&in, &loc), sr_gdb_stacktrace_free);
    vwhere_ = "sr_gdb_sharedlib_parse";
    struct sr_gdb_sharedlib *l = sr_gdb_sharedlib_parse(t + start);
    sr_gdb_sharedlib_free(l);
    vwhere_ = "sr_gdb_thread_parse_funs";
    sr_gdb_thread_free(sr_gdb_thread_parse_funs(t + start));
    free(t); g_string_free(g, TRUE);
}
static void run_case(void)
{
    unsigned m = rnd(10);
    if (m < 2) case_frame(); else if (m < 4) case_thread(); else if (m < 6) case_trace(); else case_fuzz();
}
static unsigned run_fixed(void) { return 0; }

#include "common.h"
#include "gen.h"
#include "normalize.h"
#include "p15_table.h"

typedef struct { const char *name, *files[7]; } rule;
static const rule GDB_EXIT[] = {
    { "__run_exit_handlers", { "exit.c" } }, { "raise", { "pt-raise.c", "libc.so", "libc-", "libpthread.so", "raise.c" } }, { "__GI_raise", { "raise.c" } },
    { "exit", { "exit.c" } }, { "abort", { "abort.c", "libc.so", "libc-" } }, { "__GI_abort", { "abort.c" } }, { "__chk_fail", { "chk_fail.c", "libc.so" } },
    { "__stack_chk_fail", { "stack_chk_fail.c", "libc.so" } }, { "do_exit", { "exit.c" } }, { "kill", { "syscall-template.S" } } };
/* no files: wherever it comes from */
static const rule CORE_EXIT[] = {
    { "__run_exit_handlers", { NULL } }, { "raise", { "libc.so", "libc-", "libpthread.so" } }, { "__GI_raise", { NULL } }, { "exit", { NULL } }, { "abort", { "libc.so", "libc-" } },
    { "__GI_abort", { NULL } }, { "__chk_fail", { "libc.so" } }, { "__stack_chk_fail", { "libc.so" } }, { "kill", { NULL } } };
static const rule ABOVE[] = {
    { "__assert_fail", { "" } }, { "__assert_fail_base", { "" } }, { "__chk_fail", { "" } }, { "__longjmp_chk", { "" } }, { "__malloc_assert", { "" } }, { "__strcat_chk", { "" } },
    { "__strcpy_chk", { "" } }, { "__strncpy_chk", { "" } }, { "__vsnprintf_chk", { "" } }, { "___vsnprintf_chk", { "" } }, { "__snprintf_chk", { "" } }, { "___snprintf_chk", { "" } },
    { "__vasprintf_chk", { "" } }, { "__vsprintf_chk", { "" } }, { "___sprintf_chk", { "" } }, { "__fwprintf_chk", { "" } }, { "__asprintf_chk", { "" } }, { "___printf_chk", { "" } },
    { "___fprintf_chk", { "" } }, { "__vswprintf_chk", { "" } }, { "malloc_consolidate", { "malloc.c", "libc" } }, { "malloc_printerr", { "malloc.c", "libc" } },
    { "_int_malloc", { "malloc.c", "libc" } }, { "_int_free", { "malloc.c", "libc" } }, { "_int_realloc", { "malloc.c", "libc" } }, { "_int_memalign", { "malloc.c" } },
    { "__libc_free", { "malloc.c" } }, { "__libc_malloc", { "malloc.c" } }, { "__libc_memalign", { "malloc.c" } }, { "__libc_realloc", { "malloc.c" } },
    { "__posix_memalign", { "malloc.c" } }, { "__libc_calloc", { "malloc.c" } }, { "__libc_fatal", { "libc" } } };
static const char *ARCH[] = { "memchr", "memcmp", "memcpy", "memmove", "memset", "rawmemchr", "strcasecmp", "strcasecmp_l", "strcat", "strchr", "strchrnul", "strcmp", "strcpy", "strcspn", "strlen",
    "strncmp", "strncpy", "strpbrk", "strrchr", "strspn", "strstr", "strtok" };
static const char *SUFFIX[] = { "_sse2", "_sse2_bsf", "_ssse3", "_ssse3_rep", "_ssse3_back", "_sse42", "_ia32" };
static const char *BLACK[] = { "do_softirq", "do_vfs_ioctl", "dump_stack", "flush_kthread_worker", "gs_change", "irq_exit", "kernel_thread_helper", "kthread", "process_one_work",
    "system_call_fastpath", "warn_slowpath_common", "warn_slowpath_fmt", "warn_slowpath_fmt_taint", "warn_slowpath_null", "worker_thread" };
#define N_OF(a) ((int)G_N_ELEMENTS(a))

static bool has(const char *s, const char *sub)
{
    size_t n = strlen(sub);
    for (;; ++s) { if (!strncmp(s, sub, n)) return true; if (!*s) return false; }
}
static bool eqs(const char *a, const char *b) { return a && b ? !strcmp(a, b) : a == b; }
static bool in_rules(const rule *r, int n, const char *name, const char *file, bool any)
{
    for (int i = 0; i < n; ++i) {
        if (!eqs(r[i].name, name)) continue;
        if (any && !r[i].files[0]) return true;
        for (int j = 0; file && r[i].files[j]; ++j) if (has(file, r[i].files[j])) return true;
    }
    return false;
}
static bool exits(int k, const char *n, const char *f) { return n && (k == K_GDB ? in_rules(GDB_EXIT, N_OF(GDB_EXIT), n, f, false) : in_rules(CORE_EXIT, N_OF(CORE_EXIT), n, f, true)); }
static bool drops_above(int k, const char *n, const char *f) { return n && (exits(k, n, f) || in_rules(ABOVE, N_OF(ABOVE), n, f, false)); }
static bool removable(const char *n, const char *f)
{
    if (!n || !f) return false;
    for (int i = 0; i < N_OF(REMOVABLE); ++i)
        if (eqs(REMOVABLE[i].name, n)) {
            for (int j = 0; REMOVABLE[i].files[j]; ++j) if (has(f, REMOVABLE[i].files[j])) return true;
            return false;
        }
    return false;
}
static char *strip(char *n)
{
    static const char *P[] = { "IA__gdk", "IA__g_", "IA__gtk", "__GI_" };
    if (n) for (int i = 0; i < 4; ++i) if (!strncmp(n, P[i], strlen(P[i]))) { char *x = g_strdup(n + (i < 3 ? 4 : 5)); g_free(n); n = x; }
    return n;
}
static const char *plain(const char *n, const char *f)
{
    if (!n || !f) return NULL;
    for (int i = 0; i < N_OF(ARCH); ++i) for (int j = 0; j < 7; ++j) {
        char b[100]; sprintf(b, "__%s%s", ARCH[i], SUFFIX[j]);
        if (!strcmp(b, n)) return has(f, ARCH[i]) || has(f, j == 6 ? "/sysdeps" : "/sysdeps/") || has(f, "libc.so") ? ARCH[i] : NULL;
    }
    return NULL;
}

/* ---------------------------------------------------------------- frames as the oracle sees them */
typedef struct { void *copy; char *name, *file; uint64_t addr; } of;
static size_t off_name(int k) { return k == K_GDB ? offsetof(struct sr_gdb_frame, function_name) : offsetof(struct sr_core_frame, function_name); }
static size_t off_file(int k) { return k == K_GDB ? offsetof(struct sr_gdb_frame, source_file) : offsetof(struct sr_core_frame, file_name); }
static size_t off_addr(int k) { return k == K_GDB ? offsetof(struct sr_gdb_frame, address) : offsetof(struct sr_core_frame, address); }
#define NAME(k, p) AT(p, off_name(k), char *)
#define FILE_(k, p) AT(p, off_file(k), char *)
#define ADDR(k, p) AT(p, off_addr(k), uint64_t)
/* a: frames (clones), n of them; normalizes the array in place, returns the new count */
static void cut(int k, void **a, int *n, int lo, int hi)   /* remove [lo,hi) */
{
    for (int i = lo; i < hi; ++i) free_frame1(k, a[i]);
    memmove(a + lo, a + hi, (*n - hi) * sizeof *a);
    *n -= hi - lo;
}
static bool unknown(int k, void *p) { return ADDR(k, p) == 0 && (k == K_GDB ? eqs(NAME(k, p), "??") : !NAME(k, p)); }
static int oracle(int k, void **a, int n)
{
    int x = -1;
    for (int i = 0; i < n; ++i) if (exits(k, NAME(k, a[i]), FILE_(k, a[i]))) x = i;
    cut(k, a, &n, 0, x + 1);
    for (int i = 0; i < n; ++i) {
        if (k == K_CORE || FILE_(k, a[i])) NAME(k, a[i]) = strip(NAME(k, a[i]));
        const char *p = plain(NAME(k, a[i]), FILE_(k, a[i]));
        if (p) { g_free(NAME(k, a[i])); NAME(k, a[i]) = g_strdup(p); }
    }
    for (int i = 0; i < n; ) {
        if (drops_above(k, NAME(k, a[i]), FILE_(k, a[i]))) cut(k, a, &n, 0, i + 1), i = 0;
        else if (removable(NAME(k, a[i]), FILE_(k, a[i]))) cut(k, a, &n, i, i + 1);
        else ++i;
    }
    if (k == K_CORE)
        for (int i = 0; i < n; ++i) {
            char *f = FILE_(k, a[i]), *e;
            if (f && !strncmp(f, "/home/", 6) && (e = strchr(f + 6, '/'))) { FILE_(k, a[i]) = g_strconcat("/home/anonymized", e, NULL); g_free(f); }
        }
    if (n && unknown(k, a[0])) cut(k, a, &n, 0, 1);
    if (n && unknown(k, a[n - 1])) cut(k, a, &n, n - 1, n);
    for (int i = 1; i < n; )
        if (eqs(NAME(k, a[i]), NAME(k, a[i - 1])) && NAME(k, a[i]) && !(k == K_GDB && eqs(NAME(k, a[i]), "??"))) cut(k, a, &n, i, i + 1);
        else if (k == K_GDB && !NAME(k, a[i]) && !NAME(k, a[i - 1])) cut(k, a, &n, i, i + 1);
        else ++i;
    return n;
}
static void **cloned(int k, void *fr, int *n)
{
    *n = list_len(k, fr);
    void **a = malloc((*n + 1) * sizeof *a);
    for (int i = 0; i < *n; ++i, fr = NEXT(k, fr)) a[i] = clone_frame(k, fr);
    return a;
}
static void compare(int k, void *fr, void **a, int n, const char *what)
{
    int i = 0;
    for (; fr && i < n; fr = NEXT(k, fr), ++i) {
        const fld *f = fields_differ(fr, a[i], KIND[k].f);
        CHECK(!f, what, "frame %d: field %s is not what it should be\n  got %s\n  expected %s", i, f->name, show_frame(k, fr), show_frame(k, a[i]));
    }
    CHECK(i == n, what, "a frame is missing after %d frames: %s", i, show_frame(k, a[i]));
    CHECK(!fr, what, "more than %d frames are left: %s", n, show_frame(k, fr));
}
static void drop(int k, void **a, int n) { for (int i = 0; i < n; ++i) free_frame1(k, a[i]); free(a); }

static char *some_file(const char *const *files)
{
    static const char *POOL[] = { "", "main.c", "malloc.c", "../sysdeps/x86_64/memcpy.S", "/lib64/libc.so.6", "/lib64/libc-2.12.so", "libpthread.so.0", "abort.c", "../nptl/sysdeps/unix/sysv/linux/raise.c", "exit.c",
        "/home/joe/lib/libc.so", "/home/joe", "/home//x.c", "/home/a/home/b/c.c", "libglib-2.0.so", "strlen.S", "/sysdeps", "syscall-template.S", "chk_fail.c", "libX11", "libc" };
    if (files && chance(75)) {
        int n = 0; while (files[n]) ++n;
        if (n) { const char *f = files[rnd(n)];
            switch (rnd(8)) { case 0: return g_strdup_printf("/usr/lib64/%s", f); case 6: return g_strdup_printf("src/%s", f); case 7: return g_strdup_printf("%c%s", 33 + rnd(90), f); case 1: return g_strdup_printf("../%s.6", f); case 2: return g_strdup_printf("%s%s", f, f);
                              case 3: return strlen(f) > 1 ? g_strndup(f, strlen(f) - 1) : g_strdup(f); default: return g_strdup(f); } }
    }
    if (chance(15)) return NULL;
    return g_strdup(PICK(POOL));
}
static void *norm_frame(int k)
{
    void *p = gen_frame(k);
    static const char *PRE[] = { "IA__", "__GI_", "IA__IA__", "__GI___GI_", "__GI_IA__", "IA__gdk", "IA__g_", "IA__gtk", "__", "_" };
    static const char *PLAIN[] = { "main", "foo", "bar", "g_foo", "gdk_bar", "gtk_main", "a", "", "??", "g_", "raise2", "abort_", "GI_exit" };
    const char *const *files = NULL;
    char *n = NULL;
    int allow = chance(45);
    switch (allow ? 9 + rnd(4) : rnd(14)) {
    case 0: case 1: { int i = rnd(N_OF(REMOVABLE)); n = g_strdup(REMOVABLE[i].name); files = REMOVABLE[i].files; break; }
    case 2: { const rule *r = &ABOVE[rnd(N_OF(ABOVE))]; n = g_strdup(r->name); files = r->files; break; }
    case 3: { const rule *r = chance(50) ? &GDB_EXIT[rnd(N_OF(GDB_EXIT))] : &CORE_EXIT[rnd(N_OF(CORE_EXIT))]; n = g_strdup(r->name); files = r->files; break; }
    case 4: { const char *A[4] = { ARCH[rnd(N_OF(ARCH))], "/sysdeps/", "libc.so", NULL }; n = g_strdup_printf("__%s%s", A[0], PICK(SUFFIX)); g_free(FILE_(k, p)); FILE_(k, p) = some_file(A); goto named; }
    case 5: { const rule *r = &GDB_EXIT[rnd(N_OF(GDB_EXIT))]; n = g_strdup_printf("%s%s", PICK(PRE), r->name); files = r->files; break; }
    case 6: n = g_strdup_printf("%s%s", PICK(PRE), PICK(PLAIN)); break;
    case 7: { int i = rnd(N_OF(REMOVABLE)); n = g_strdup_printf("%s%s", PICK(PRE), REMOVABLE[i].name); files = REMOVABLE[i].files; break; }
    case 8: { int i = rnd(N_OF(REMOVABLE)); n = g_strdup(REMOVABLE[i].name); if (*n) n[rnd(strlen(n))] ^= 1; files = REMOVABLE[i].files; break; }
    case 9: n = k == K_CORE ? NULL : g_strdup("??"); ADDR(k, p) = chance(60) ? 0 : rnd(3); break;
    case 10: n = NULL; if (chance(50)) ADDR(k, p) = 0; break;
    default: n = g_strdup(PICK(PLAIN)); break;
    }
    g_free(FILE_(k, p));
    FILE_(k, p) = some_file(files);
named:
    g_free(NAME(k, p));
    NAME(k, p) = n;
    return p;
}
static void *norm_thread(int k, int n)
{
    void *t = KIND[k].tnew(), **tail = &FRAMES(k, t), *prev = NULL;
    for (int i = 0; i < n; ++i) {
        void *f = prev && chance(20) ? clone_frame(k, prev) : norm_frame(k);
        if (prev && chance(15)) ADDR(k, f) = rnd(3);
        *tail = f; tail = &NEXT(k, f); *tail = NULL; prev = f;
    }
    return t;
}
static void t_thread(void)
{
    int k = chance(50) ? K_GDB : K_CORE, n = chance(4) ? 0 : chance(5) ? 30 + rnd(30) : 1 + rnd(9), m;
    void *t = norm_thread(k, n);
    desc("normalize %s thread: %s", KIND[k].name, show_frames(k, FRAMES(k, t)));
    void **a = cloned(k, FRAMES(k, t), &m);
    if (k == K_GDB) {
        int x = -1;
        for (int i = 0; i < n; ++i) if (exits(k, NAME(k, a[i]), FILE_(k, a[i]))) x = i;
        void *e = FRAMES(k, t);
        for (int i = 0; i < x; ++i) e = NEXT(k, e);
        vwhere_ = "find_exit_frame";
        CHECK((void *)sr_glibc_thread_find_exit_frame(t) == (x < 0 ? NULL : e), "the lowest exit frame is found", "expected frame %d", x);
    }
    vwhere_ = "normalize";
    for (int pass = 0; pass < 2; ++pass) {
        m = oracle(k, a, m);
        if (pass == 0 && chance(30)) sr_thread_normalize((struct sr_thread *)t);
        else if (k == K_GDB) sr_normalize_gdb_thread(t); else sr_normalize_core_thread(t);
        compare(k, FRAMES(k, t), a, m, pass ? "normalizing again" : "normalization removes and rewrites exactly what it is meant to");
    }
    if (m && m < n) nontrivial();
    if (k == K_GDB && chance(30)) {
        vwhere_ = "optimize";
        sr_gdb_normalize_optimize_thread(t);
        for (int i = 0; i < m; ) if (eqs(NAME(k, a[i]), "main")) cut(k, a, &m, i, i + 1); else ++i;
        compare(k, FRAMES(k, t), a, m, "only main is removed");
    }
    free_thread1(k, t); drop(k, a, m);
}
static void t_stack(void)
{
    struct sr_gdb_stacktrace *s = sr_gdb_stacktrace_new();
    int nt = rnd(4), cnt[4];
    void **a[4];
    struct sr_gdb_thread *th[4], **tail = &s->threads;
    char d[4000], *o = d;
    *o = 0;
    for (int i = 0; i < nt; ++i) {
        th[i] = norm_thread(K_GDB, chance(10) ? 0 : 1 + rnd(5));
        th[i]->tid = chance(80) ? 100 + i : 100; th[i]->number = i;
        if (i && chance(30) && th[0]->frames && th[i]->frames) { g_free(th[i]->frames->function_name); th[i]->frames->function_name = g_strdup(th[0]->frames->function_name); }
        *tail = th[i]; tail = &th[i]->next;
        a[i] = cloned(K_GDB, th[i]->frames, &cnt[i]);
        if (o - d < 2500) { char b[1200]; snprintf(b, sizeof b, "thread %d: %s; ", i, show_frames(K_GDB, th[i]->frames)); o += sprintf(o, "%s", b); }
    }
    if (chance(60)) { s->crash = nt && th[0]->frames && chance(60) ? clone_frame(K_GDB, th[0]->frames) : norm_frame(K_GDB); s->crash->next = NULL; }
    if (chance(30)) s->crash_tid = 99 + rnd(4);
    desc("normalize gdb stack trace: crash_tid %u crash %s %s", s->crash_tid, s->crash ? show_frame(K_GDB, s->crash) : "none", d);
    struct sr_gdb_frame *c = s->crash ? clone_frame(K_GDB, s->crash) : NULL;
    struct sr_gdb_thread *ct = sr_gdb_stacktrace_find_crash_thread(s);
    uint32_t tid = s->crash_tid == UINT32_MAX && ct ? ct->tid : s->crash_tid;
    struct sr_gdb_frame *first = NULL;
    vwhere_ = "crash frame";
    first = sr_gdb_stacktrace_get_crash_frame(s);
    vwhere_ = "normalize stack trace";
    sr_normalize_gdb_stacktrace(s);
    CHECK(s->crash_tid == tid, "the crash thread is remembered", "crash_tid %u expected %u", s->crash_tid, tid);
    struct sr_gdb_thread *t = s->threads;
    for (int i = 0; i < nt; ++i, t = t->next) {
        CHECK(t == th[i] && t->number == (uint32_t)i, "threads stay", "thread %d", i);
        cnt[i] = oracle(K_GDB, a[i], cnt[i]);
        compare(K_GDB, t->frames, a[i], cnt[i], "every thread is normalized");
        if (cnt[i]) nontrivial();
        if (t == ct) {
            CHECK(!first == !cnt[i], "the crash frame is the first frame of the normalized crash thread", "%s", first ? show_frame(K_GDB, first) : "none");
            if (first) { const fld *f = fields_differ(first, a[i][0], GDB_F); CHECK(!f, "the crash frame is the first frame of the normalized crash thread", "field %s", f->name); }
        }
    }
    CHECK(!t, "threads stay", "too many threads");
    if (!ct) CHECK(!first, "no crash frame without a crash thread", "%s", show_frame(K_GDB, first));
    if (c) {
        if (c->source_file) c->function_name = strip(c->function_name);
        const fld *f = fields_differ(s->crash, c, GDB_F);
        CHECK(!f, "the crash frame loses its prefixes", "field %s: %s expected %s", f->name, show_frame(K_GDB, s->crash), show_frame(K_GDB, c));
        free_frame1(K_GDB, c); free_frame1(K_GDB, s->crash);
    }
    if (first) free_frame1(K_GDB, first);
    for (int i = 0; i < nt; ++i) { free_thread1(K_GDB, th[i]); drop(K_GDB, a[i], cnt[i]); }
    free(s);
}
static void t_koops(void)
{
    int n = chance(4) ? 0 : 1 + rnd(9), m;
    void *t = gen_thread(K_KOOPS, n);
    static const char *SUF[] = { "", "", "", ".isra.0", ".part.1.constprop.2", ".", "_", "..x" };
    for (struct sr_koops_frame *f = FRAMES(K_KOOPS, t); f; f = f->next) {
        if (chance(70)) { g_free(f->function_name); f->function_name = g_strdup_printf("%s%s", chance(60) ? PICK(BLACK) : PICK(STRPOOL), PICK(SUF)); }
        if (f->function_name && *f->function_name && chance(8)) f->function_name[rnd(strlen(f->function_name))] ^= 1;
        if (chance(50)) { g_free(f->module_name); f->module_name = NULL; }
    }
    desc("normalize koops: %s", show_frames(K_KOOPS, FRAMES(K_KOOPS, t)));
    void **a = cloned(K_KOOPS, FRAMES(K_KOOPS, t), &m);
    for (int i = 0; i < m; ) {
        struct sr_koops_frame *f = a[i];
        if (f->function_name) f->function_name[strcspn(f->function_name, ".")] = 0;
        bool b = false;
        for (int j = 0; j < N_OF(BLACK); ++j) b |= eqs(f->function_name, BLACK[j]);
        if (b && !f->module_name) cut(K_KOOPS, a, &m, i, i + 1); else ++i;
    }
    vwhere_ = "normalize koops";
    for (int pass = 0; pass < 2; ++pass) {
        if (chance(50)) sr_thread_normalize((struct sr_thread *)t); else sr_normalize_koops_stacktrace(t);
        compare(K_KOOPS, FRAMES(K_KOOPS, t), a, m, pass ? "normalizing again changes nothing" : "normalization removes and rewrites exactly what it is meant to");
    }
    if (m && m < n) nontrivial();
    free_thread1(K_KOOPS, t); drop(K_KOOPS, a, m);
}
static void t_none(void)
{
    static const int K[] = { K_JAVA, K_PYTHON, K_RUBY, K_JS };
    int k = PICK(K), m;
    void *t = gen_thread(k, rnd(6));
    desc("normalize %s: %s", KIND[k].name, show_frames(k, FRAMES(k, t)));
    void **a = cloned(k, FRAMES(k, t), &m);
    vwhere_ = "normalize";
    sr_thread_normalize((struct sr_thread *)t);
    compare(k, FRAMES(k, t), a, m, "nothing to normalize");
    free_thread1(k, t); drop(k, a, m);
}
static bool lib_clash(struct sr_gdb_frame *a, struct sr_gdb_frame *b) { return a->library_name && b->library_name && strcmp(a->library_name, b->library_name); }
static bool below_similar(struct sr_gdb_frame **a, int n, int i, struct sr_gdb_frame **b, int m, int j)
{
    if ((i + 1 < n) != (j + 1 < m)) return false;
    if (i + 1 >= n) return true;
    return eqs(a[i + 1]->function_name, b[j + 1]->function_name) && !eqs(a[i + 1]->function_name, "??") && !lib_clash(a[i + 1], b[j + 1]);
}
static void t_paired(void)
{
    void *t[2];
    struct sr_gdb_frame **a[2];
    int n[2], c = 0;
    static const char *NM[] = { "??", "??", "??", "x", "y", "z", NULL };
    static const char *LB[] = { NULL, NULL, "l1", "l2" };
    for (int s = 0; s < 2; ++s) {
        t[s] = gen_thread(K_GDB, chance(4) ? 0 : 1 + rnd(7));
        for (struct sr_gdb_frame *f = FRAMES(K_GDB, t[s]); f; f = f->next) {
            g_free(f->function_name); f->function_name = g_strdup(PICK(NM));
            g_free(f->library_name); f->library_name = g_strdup(PICK(LB));
        }
    }
    desc("paired unknown functions: %s / %s", show_frames(K_GDB, FRAMES(K_GDB, t[0])), show_frames(K_GDB, FRAMES(K_GDB, t[1])));
    for (int s = 0; s < 2; ++s) a[s] = (struct sr_gdb_frame **)cloned(K_GDB, FRAMES(K_GDB, t[s]), &n[s]);
    for (int i = 0; i < n[0] && n[1]; ++i) {
        for (int j = i ? 1 : 0; j < (i ? n[1] : 1); ++j) {
            struct sr_gdb_frame *x = a[0][i], *y = a[1][j];
            if (!eqs(x->function_name, "??") || !eqs(y->function_name, "??") || lib_clash(x, y) || !below_similar(a[0], n[0], i, a[1], n[1], j)) continue;
            if (i && (eqs(a[1][j - 1]->function_name, "??") || !eqs(a[0][i - 1]->function_name, a[1][j - 1]->function_name) || lib_clash(a[0][i - 1], a[1][j - 1]))) continue;
            g_free(x->function_name); g_free(y->function_name);
            x->function_name = g_strdup_printf("__unknown_function_%d", c); y->function_name = g_strdup_printf("__unknown_function_%d", c);
            ++c;
            break;
        }
    }
    vwhere_ = "paired unknown functions";
    sr_normalize_gdb_paired_unknown_function_names(t[0], t[1]);
    for (int s = 0; s < 2; ++s) compare(K_GDB, FRAMES(K_GDB, t[s]), (void **)a[s], n[s], "unknown functions between the same neighbours get the same name");
    if (c) nontrivial();
    for (int s = 0; s < 2; ++s) { free_thread1(K_GDB, t[s]); drop(K_GDB, (void **)a[s], n[s]); }
}
static void run_case(void)
{
    gen_variety = 2 + rnd(8);
    switch (rnd(12)) {
    case 0: case 1: case 2: case 3: case 4: t_thread(); break;
    case 5: case 6: t_stack(); break;
    case 7: case 8: t_koops(); break;
    case 9: t_none(); break;
    default: t_paired();
    }
}


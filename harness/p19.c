#include "common.h"
#include "gen.h"
#include "gdb/sharedlib.h"
#include "gdb/stacktrace.h"
#include "core/stacktrace.h"
#include "java/stacktrace.h"
#include "stacktrace.h"
#include "unstrip.h"
#include "normalize.h"

static uint64_t addr_pool[12];
static uint64_t gen_addr(void)
{
    static const uint64_t V[] = { 0, 1, 0x1000, 0x400000, 0x7ffff7dd5000ULL, 0xffffffffff600000ULL, UINT64_MAX, UINT64_MAX - 1, 0x8000000000000000ULL, 0x7fffffffffffffffULL };
    uint64_t a = chance(60) ? addr_pool[rnd(12)] : chance(60) ? PICK(V) : rnd64();
    return a + (chance(40) ? (uint64_t)(int64_t)((int)rnd(5) - 2) : 0);
}
static void t_sharedlib(void)
{
    int n = rnd(7);
    for (int i = 0; i < 12; ++i) addr_pool[i] = rnd64() >> rnd(50);
    struct sr_gdb_sharedlib *l[8], *head = NULL, c[8];
    char *d = vdesc_ + sprintf(vdesc_, "libraries:");
    for (int i = 0; i < n; ++i) {
        l[i] = sr_gdb_sharedlib_new();
        l[i]->from = gen_addr(); l[i]->to = chance(60) ? l[i]->from + rnd(0x3000) : gen_addr();
        if (chance(10)) l[i]->from = l[i]->to = UINT64_MAX;
        l[i]->soname = g_strdup("lib");
        d += sprintf(d, " %llx-%llx", (unsigned long long)l[i]->from, (unsigned long long)l[i]->to);
        head = sr_gdb_sharedlib_append(head, l[i]);
        CHECK(sr_gdb_sharedlib_count(head) == i + 1, "count", "%d", i + 1);
    }
    for (int i = 0; i < n; ++i) c[i] = *l[i];
    for (int r = 0; r < 12; ++r) {
        uint64_t a = n && chance(60) ? (chance(50) ? l[rnd(n)]->from : l[rnd(n)]->to) + rnd(3) - 1 : gen_addr();
        vwhere_ = "sr_gdb_sharedlib_find_address";
        struct sr_gdb_sharedlib *got = sr_gdb_sharedlib_find_address(head, a), *want = NULL;
        for (int i = 0; i < n && !want && a != UINT64_MAX; ++i) if (l[i]->from <= a && a <= l[i]->to) want = l[i];
        CHECK(got == want, "the first library whose range contains the address", "address %llx", (unsigned long long)a);
        if (want) nontrivial();
    }
    for (int i = 0; i < n; ++i) CHECK(!memcmp(&c[i], l[i], sizeof c[i]), "the search modifies nothing", "library %d", i);
    for (int i = 0; i < n; ++i) sr_gdb_sharedlib_free(l[i]);
}
static void t_unstrip(void)
{
    int n = rnd(7);
    for (int i = 0; i < 12; ++i) addr_pool[i] = rnd64() >> rnd(50);
    GString *t = g_string_new(NULL);
    uint64_t st[8], len[8];
    char *bid[8], *fn[8], *mn[8];
    int m = 0;
    for (int i = 0; i < n; ++i) {
        if (chance(12)) { g_string_append(t, PICK(((const char *[]){ "garbage\n", "\n", "0x12 0x13\n", "x0x1+0x2 - - - -\n" }))); continue; }
        st[m] = gen_addr(); len[m] = chance(70) ? rnd(0x4000) : chance(30) ? -st[m] : gen_addr();
        if (chance(60) && st[m] + len[m] < st[m]) len[m] = -st[m];
        bid[m] = chance(20) ? "" : PICK(((char *[]){ "0123456789abcdef0123456789abcdef01234567", "ab", "7f2b76a1b0d6a5b2" }));
        fn[m] = PICK(((char *[]){ "/usr/lib64/libc-2.17.so", "-", ".", "/bin/sleep" }));
        mn[m] = PICK(((char *[]){ "libc.so.6", "[exe]", "linux-vdso.so.1", "ld" }));
        g_string_append_printf(t, "0x%llx+0x%llx %s%s %s %s %s%s", (unsigned long long)st[m], (unsigned long long)len[m], *bid[m] ? bid[m] : "-", chance(50) ? "@0x1234" : "",
                               fn[m], chance(50) ? "-" : "/usr/lib/debug/x.debug", mn[m], i + 1 < n || chance(50) ? "\n" : "");
        ++m;
    }
    char *text = exact(t->str);
    g_string_free(t, TRUE);
    desc("unstrip data %s", show(text));
    vwhere_ = "sr_unstrip_parse";
    struct sr_unstrip_entry *e = sr_unstrip_parse(text), *q = e, *el[8];
    for (int i = 0; i < m; ++i, q = q->next) {
        CHECK(q, "every line of the list is read", "entry %d is missing", i);
        el[i] = q;
        CHECK(q->start == st[i] && q->length == len[i], "start and length", "entry %d: %llx+%llx", i, (unsigned long long)q->start, (unsigned long long)q->length);
        CHECK(!strcmp(q->build_id, bid[i]) && !strcmp(q->file_name, fn[i]) && !strcmp(q->mod_name, mn[i]), "the columns of the line", "entry %d: %s %s %s", i, q->build_id, q->file_name, q->mod_name);
    }
    CHECK(!q, "nothing but the lines of the list", "trailing entry");
    for (int r = 0; r < 12; ++r) {
        uint64_t a = m && chance(60) ? (chance(50) ? st[rnd(m)] : ({ int i = rnd(m); st[i] + len[i]; })) + rnd(3) - 1 : gen_addr();
        vwhere_ = "sr_unstrip_find_address";
        struct sr_unstrip_entry *got = sr_unstrip_find_address(e, a), *want = NULL;
        for (int i = 0; i < m && !want; ++i) if (a >= st[i] && (unsigned __int128)a < (unsigned __int128)st[i] + len[i]) want = el[i];
        CHECK(got == want, "the first mapping whose range contains the address", "address %llx", (unsigned long long)a);
        if (want) nontrivial();
    }
    q = e;
    for (int i = 0; i < m; ++i, q = q->next) CHECK(q == el[i] && q->start == st[i] && q->length == len[i], "the search modifies nothing", "entry %d", i);
    sr_unstrip_free(e);
    free(text);
}
/* ---- crash thread */
static const char *EXITN[] = { "__run_exit_handlers", "raise", "__GI_raise", "exit", "abort", "__GI_abort", "__chk_fail", "__stack_chk_fail", "do_exit", "kill" };
static const char *FILES_[] = { "exit.c", "pt-raise.c", "libc.so", "/lib64/libc-2.17.so", "/lib64/libpthread.so.0", "raise.c", "../sysdeps/abort.c", "chk_fail.c", "stack_chk_fail.c", "syscall-template.S", "main.c", "" };
static int has(const char *file, const char *const *l) { for (; file && *l; ++l) if (strstr(file, *l)) return 1; return 0; }
static int exit_gdb(struct sr_gdb_frame *f)
{
    static const struct { const char *n; const char *const f[8]; } T[] = {
        { "__run_exit_handlers", { "exit.c" } }, { "raise", { "pt-raise.c", "libc.so", "libc-", "libpthread.so", "raise.c" } }, { "__GI_raise", { "raise.c" } }, { "exit", { "exit.c" } },
        { "abort", { "abort.c", "libc.so", "libc-" } }, { "__GI_abort", { "abort.c" } }, { "__chk_fail", { "chk_fail.c", "libc.so" } },
        { "__stack_chk_fail", { "stack_chk_fail.c", "libc.so" } }, { "do_exit", { "exit.c" } }, { "kill", { "syscall-template.S" } } };
    for (unsigned i = 0; i < G_N_ELEMENTS(T); ++i) if (f->function_name && !strcmp(f->function_name, T[i].n) && has(f->source_file, T[i].f)) return 1;
    return 0;
}
static int exit_core(struct sr_core_frame *f)
{
    static const struct { const char *n; const char *const f[4]; } T[] = {
        { "__run_exit_handlers" }, { "raise", { "libc.so", "libc-", "libpthread.so" } }, { "__GI_raise" }, { "exit" }, { "abort", { "libc.so", "libc-" } }, { "__GI_abort" },
        { "__chk_fail", { "libc.so" } }, { "__stack_chk_fail", { "libc.so" } }, { "kill" } };
    for (unsigned i = 0; i < G_N_ELEMENTS(T); ++i) if (f->function_name && !strcmp(f->function_name, T[i].n) && (!T[i].f[0] || has(f->file_name, T[i].f))) return 1;
    return 0;
}
static const char *gen_name(void) { return chance(35) ? PICK(EXITN) : PICK(((const char *[]){ "main", "foo", "poll", "??", "exi", "aborted", "abort " })); }
static struct sr_gdb_stacktrace *gen_gdb(int n)
{
    struct sr_gdb_stacktrace *s = sr_gdb_stacktrace_new();
    char *d = vdesc_ + sprintf(vdesc_, "gdb trace:");
    if (chance(60)) { s->crash = sr_gdb_frame_new(); s->crash->function_name = chance(10) ? NULL : g_strdup(gen_name()); d += sprintf(d, " crash=%s", s->crash->function_name ? s->crash->function_name : "NULL"); }
    s->crash_tid = chance(60) ? UINT32_MAX : rnd(5);
    d += sprintf(d, " tid=%u", s->crash_tid);
    for (int i = 0; i < n; ++i) {
        struct sr_gdb_thread *t = sr_gdb_thread_new();
        t->number = rnd(4); t->tid = chance(20) ? UINT32_MAX : rnd(6);
        d += sprintf(d, " | %u:", t->tid);
        int m = rnd(5);
        for (int j = 0; j < m; ++j) {
            struct sr_gdb_frame *f = sr_gdb_frame_new();
            f->function_name = chance(8) ? NULL : g_strdup(j == 0 && s->crash && chance(50) ? (s->crash->function_name ? s->crash->function_name : "x") : gen_name());
            f->source_file = chance(30) ? NULL : g_strdup(PICK(FILES_)); f->number = rnd(3); f->source_line = rnd(3);
            d += sprintf(d, " %s@%s:%u", f->function_name ? f->function_name : "NULL", f->source_file ? f->source_file : "NULL", f->source_line);
            t->frames = sr_gdb_frame_append(t->frames, f);
        }
        s->threads = sr_gdb_thread_append(s->threads, t);
    }
    return s;
}
static int cmp_frames(struct sr_gdb_frame *a, struct sr_gdb_frame *b)
{
    for (; a && b; a = a->next, b = b->next) {
        int c = sr_gdb_frame_cmp(a, b, true);
        if (c) return c;
    }
    return a ? 1 : b ? -1 : 0;
}
static void t_gdb(void)
{
    int n = rnd(6);
    struct sr_gdb_stacktrace *s = gen_gdb(n);
    struct sr_gdb_thread *th[6], *t = s->threads, *want = NULL, *got;
    for (int i = 0; i < n; ++i, t = t->next) th[i] = t;
    snap_t sn[6];
    struct sr_gdb_thread tc[6];
    for (int i = 0; i < n; ++i) { sn[i] = snap_frames(K_GDB, th[i]->frames); tc[i] = *th[i]; }
    struct sr_gdb_stacktrace sc = *s;
    if (n == 1) want = th[0];
    if (n > 1) {
        if (s->crash_tid != UINT32_MAX) for (int i = n - 1; i >= 0; --i) if (th[i]->tid == s->crash_tid) want = th[i];
        if (!want && s->crash && s->crash->function_name) {
            int m[6], k = 0, ex[6], e = 0;
            for (int i = 0; i < n; ++i) {
                struct sr_gdb_frame *f = th[i]->frames;
                if (!f || g_strcmp0(f->function_name, s->crash->function_name)) continue;
                m[k++] = i;
                for (; f; f = f->next) if (exit_gdb(f)) { ex[e++] = i; break; }
            }
            if (k == 1) want = th[m[0]];
            else if (e == 1) want = th[ex[0]];
            else if (k) { want = th[m[0]]; for (int i = 1; i < k; ++i) if (cmp_frames(th[m[i]]->frames, want->frames) < 0) want = th[m[i]]; }
            if (k > 1) nontrivial();
        }
    }
    vwhere_ = "sr_gdb_stacktrace_find_crash_thread";
    got = chance(50) ? sr_gdb_stacktrace_find_crash_thread(s) : (struct sr_gdb_thread *)sr_stacktrace_find_crash_thread((struct sr_stacktrace *)s);
    CHECK(got == want, "the thread the trace designates", "thread %d expected %d", got ? sr_gdb_stacktrace_get_thread_count(s) - ({ int c = 0; for (t = got; t; t = t->next) ++c; c; }) : -1,
          want ? sr_gdb_stacktrace_get_thread_count(s) - ({ int c = 0; for (t = want; t; t = t->next) ++c; c; }) : -1);
    if (want) {
        struct sr_gdb_frame *x = NULL;
        for (struct sr_gdb_frame *f = want->frames; f; f = f->next) if (exit_gdb(f)) x = f;
        CHECK(sr_glibc_thread_find_exit_frame(want) == x, "the last frame that ends the program", "%s", show_frames(K_GDB, want->frames));
    }
    if (!want || want->frames) {
        vwhere_ = "sr_gdb_stacktrace_get_crash_frame";
        struct sr_gdb_stacktrace *dup = sr_gdb_stacktrace_dup(s);
        struct sr_gdb_thread *ct = sr_gdb_stacktrace_find_crash_thread(dup);
        sr_normalize_gdb_stacktrace(dup);
        if (ct && !ct->frames) ; /* nothing is left of the thread: outside the contract of get_crash_frame */
        else {
            struct sr_gdb_frame *f = sr_gdb_stacktrace_get_crash_frame(s);
            CHECK(!f == !ct, "there is a crash frame iff there is a crash thread", "%d %d", !f, !ct);
            if (f) { CHECK(!sr_gdb_frame_cmp(f, ct->frames, true), "the crash frame is the top frame of the normalized crash thread", "%s", show_frame(K_GDB, f)); CHECK(!f->next, "a single frame", "it has a successor"); sr_gdb_frame_free(f); }
        }
        sr_gdb_stacktrace_free(dup);
    }
    CHECK(!memcmp(&sc, s, sizeof sc), "the search modifies nothing", "the stack trace changed");
    for (int i = 0; i < n; ++i) {
        CHECK(!memcmp(&tc[i], th[i], sizeof tc[i]), "the search modifies nothing", "thread %d changed", i);
        struct sr_gdb_frame *f = th[i]->frames;
        for (int j = 0; j < sn[i].n; ++j, f = f->next) CHECK(f == sn[i].p[j] && !fields_differ(f, sn[i].c[j], KIND[K_GDB].f), "the search modifies nothing", "frame %d of thread %d changed", j, i);
        CHECK(!f, "the search modifies nothing", "thread %d grew", i);
        snap_free(&sn[i]);
    }
    sr_gdb_stacktrace_free(s);
}
static void t_core(void)
{
    int n = rnd(6);
    struct sr_core_stacktrace *s = sr_core_stacktrace_new();
    struct sr_core_thread *th[6], *want = NULL;
    char *d = vdesc_ + sprintf(vdesc_, "core trace:");
    for (int i = 0; i < n; ++i) {
        struct sr_core_thread *t = th[i] = sr_core_thread_new();
        struct sr_core_frame *x = NULL;
        t->id = rnd(4);
        int m = rnd(5);
        d += sprintf(d, " |");
        for (int j = 0; j < m; ++j) {
            struct sr_core_frame *f = sr_core_frame_new();
            f->function_name = chance(8) ? NULL : g_strdup(gen_name());
            f->file_name = chance(30) ? NULL : g_strdup(PICK(FILES_));
            d += sprintf(d, " %s@%s", f->function_name ? f->function_name : "NULL", f->file_name ? f->file_name : "NULL");
            t->frames = sr_core_frame_append(t->frames, f);
            if (exit_core(f)) x = f;
        }
        vwhere_ = "sr_core_thread_find_exit_frame";
        CHECK(sr_core_thread_find_exit_frame(t) == x, "the last frame that ends the program", "%s", show_frames(K_CORE, t->frames));
        if (x && !want) want = t;
        s->threads = sr_core_thread_append(s->threads, t);
    }
    if (n == 1) want = th[0];
    if (n && chance(20)) { s->crash_thread = want = th[rnd(n)]; sprintf(d, " marked"); }
    if (n > 1 && want) nontrivial();
    struct sr_core_stacktrace sc = *s;
    snap_t sn[6];
    struct sr_core_thread tc[6];
    for (int i = 0; i < n; ++i) { sn[i] = snap_frames(K_CORE, th[i]->frames); tc[i] = *th[i]; }
    vwhere_ = "sr_core_stacktrace_find_crash_thread";
    struct sr_core_thread *got = chance(50) ? sr_core_stacktrace_find_crash_thread(s) : (struct sr_core_thread *)sr_stacktrace_find_crash_thread((struct sr_stacktrace *)s);
    CHECK(got == want, "the thread the trace designates", "another thread");
    CHECK(!memcmp(&sc, s, sizeof sc), "the search modifies nothing", "the stack trace changed");
    for (int i = 0; i < n; ++i) {
        CHECK(!memcmp(&tc[i], th[i], sizeof tc[i]), "the search modifies nothing", "thread %d changed", i);
        struct sr_core_frame *f = th[i]->frames;
        for (int j = 0; j < sn[i].n; ++j, f = f->next) CHECK(f == sn[i].p[j] && !fields_differ(f, sn[i].c[j], KIND[K_CORE].f), "the search modifies nothing", "frame %d of thread %d changed", j, i);
        snap_free(&sn[i]);
    }
    sr_core_stacktrace_free(s);
}
static void t_one(void)
{
    static const int ONE[] = { K_KOOPS, K_PYTHON, K_RUBY, K_JS };
    int k = PICK(ONE);
    void *t = gen_thread(k, rnd(4));
    desc("%s trace", KIND[k].name);
    vwhere_ = "sr_stacktrace_find_crash_thread";
    CHECK((void *)sr_stacktrace_find_crash_thread((struct sr_stacktrace *)t) == t, "a trace of one thread is its crash thread", "another object");
    free_thread1(k, t);
}
static void run_case(void)
{
    switch (rnd(9)) { case 0: case 1: t_sharedlib(); break; case 2: case 3: t_unstrip(); break; case 4: case 5: t_gdb(); break; case 6: case 7: t_core(); break; default: t_one(); }
}

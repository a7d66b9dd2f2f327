/* Generators and independent field-by-field views of frames, threads and stack traces of every crash type. */
#ifndef VERIF_GEN_H
#define VERIF_GEN_H
#include <stddef.h>
#include "report_type.h"
#include "frame.h"
#include "thread.h"
#include "stacktrace.h"
#include "location.h"
#include "rpm.h"
#include "koops/frame.h"
#include "koops/stacktrace.h"
#include "core/frame.h"
#include "core/thread.h"
#include "core/stacktrace.h"
#include "gdb/frame.h"
#include "gdb/thread.h"
#include "gdb/stacktrace.h"
#include "gdb/sharedlib.h"
#include "java/frame.h"
#include "java/thread.h"
#include "java/stacktrace.h"
#include "python/frame.h"
#include "python/stacktrace.h"
#include "ruby/frame.h"
#include "ruby/stacktrace.h"
#include "js/frame.h"
#include "js/stacktrace.h"

typedef struct { const char *name; char kind; size_t off; } fld;   /* kind: s string, b bool, 4 uint32, 8 uint64, i int, 2 uint16, e enum */
#define F(st, k, f) { #f, k, offsetof(struct st, f) }
#define END { NULL, 0, 0 }
static const fld KOOPS_F[] = { F(sr_koops_frame,'8',address), F(sr_koops_frame,'b',reliable), F(sr_koops_frame,'s',function_name), F(sr_koops_frame,'8',function_offset),
    F(sr_koops_frame,'8',function_length), F(sr_koops_frame,'s',module_name), F(sr_koops_frame,'8',from_address), F(sr_koops_frame,'s',from_function_name),
    F(sr_koops_frame,'8',from_function_offset), F(sr_koops_frame,'8',from_function_length), F(sr_koops_frame,'s',from_module_name), F(sr_koops_frame,'s',special_stack), END };
static const fld CORE_F[] = { F(sr_core_frame,'8',address), F(sr_core_frame,'s',build_id), F(sr_core_frame,'8',build_id_offset), F(sr_core_frame,'s',function_name),
    F(sr_core_frame,'s',file_name), F(sr_core_frame,'s',fingerprint), F(sr_core_frame,'b',fingerprint_hashed), END };
static const fld GDB_F[] = { F(sr_gdb_frame,'s',function_name), F(sr_gdb_frame,'s',function_type), F(sr_gdb_frame,'4',number), F(sr_gdb_frame,'s',source_file),
    F(sr_gdb_frame,'4',source_line), F(sr_gdb_frame,'b',signal_handler_called), F(sr_gdb_frame,'8',address), F(sr_gdb_frame,'s',library_name), END };
static const fld JAVA_F[] = { F(sr_java_frame,'s',name), F(sr_java_frame,'s',file_name), F(sr_java_frame,'4',file_line), F(sr_java_frame,'s',class_path),
    F(sr_java_frame,'b',is_native), F(sr_java_frame,'b',is_exception), F(sr_java_frame,'s',message), END };
static const fld PYTHON_F[] = { F(sr_python_frame,'b',special_file), F(sr_python_frame,'s',file_name), F(sr_python_frame,'4',file_line), F(sr_python_frame,'b',special_function),
    F(sr_python_frame,'s',function_name), F(sr_python_frame,'s',line_contents), END };
static const fld RUBY_F[] = { F(sr_ruby_frame,'s',file_name), F(sr_ruby_frame,'4',file_line), F(sr_ruby_frame,'b',special_function), F(sr_ruby_frame,'s',function_name),
    F(sr_ruby_frame,'4',block_level), F(sr_ruby_frame,'4',rescue_level), END };
static const fld JS_F[] = { F(sr_js_frame,'s',file_name), F(sr_js_frame,'4',file_line), F(sr_js_frame,'4',line_column), F(sr_js_frame,'s',function_name), END };

typedef struct {
    const char *name; int code; const fld *f; size_t size, next; void *(*fnew)(void);
    const fld *tf; size_t tsize, tframes, tnext; void *(*tnew)(void);     /* thread; tnew NULL: the stack trace is the thread */
} kind_t;
static const fld CORE_T[] = { F(sr_core_thread,'8',id), END };
static const fld GDB_T[] = { F(sr_gdb_thread,'4',number), F(sr_gdb_thread,'4',tid), END };
static const fld JAVA_T[] = { F(sr_java_thread,'s',name), END };
static const fld KOOPS_T[] = { F(sr_koops_stacktrace,'s',version), F(sr_koops_stacktrace,'b',taint_module_proprietary), F(sr_koops_stacktrace,'b',taint_module_out_of_tree),
    F(sr_koops_stacktrace,'b',taint_forced_module), F(sr_koops_stacktrace,'b',taint_forced_removal), F(sr_koops_stacktrace,'b',taint_smp_unsafe), F(sr_koops_stacktrace,'b',taint_mce),
    F(sr_koops_stacktrace,'b',taint_page_release), F(sr_koops_stacktrace,'b',taint_userspace), F(sr_koops_stacktrace,'b',taint_died_recently), F(sr_koops_stacktrace,'b',taint_acpi_overridden),
    F(sr_koops_stacktrace,'b',taint_warning), F(sr_koops_stacktrace,'b',taint_staging_driver), F(sr_koops_stacktrace,'b',taint_firmware_workaround), F(sr_koops_stacktrace,'b',taint_unsigned_module),
    F(sr_koops_stacktrace,'b',taint_soft_lockup), F(sr_koops_stacktrace,'b',taint_live_patched), F(sr_koops_stacktrace,'s',raw_oops), F(sr_koops_stacktrace,'s',reason), END };
static const fld PYTHON_T[] = { F(sr_python_stacktrace,'s',exception_name), END };
static const fld RUBY_T[] = { F(sr_ruby_stacktrace,'s',exception_name), END };
static const fld JS_T[] = { F(sr_js_stacktrace,'s',exception_name), F(sr_js_stacktrace,'4',platform), END };
#define N(x) (void *(*)(void))x
static const kind_t KIND[7] = {
    { "core", SR_REPORT_CORE, CORE_F, sizeof(struct sr_core_frame), offsetof(struct sr_core_frame, next), N(sr_core_frame_new), CORE_T, sizeof(struct sr_core_thread), offsetof(struct sr_core_thread, frames), offsetof(struct sr_core_thread, next), N(sr_core_thread_new) },
    { "gdb", SR_REPORT_GDB, GDB_F, sizeof(struct sr_gdb_frame), offsetof(struct sr_gdb_frame, next), N(sr_gdb_frame_new), GDB_T, sizeof(struct sr_gdb_thread), offsetof(struct sr_gdb_thread, frames), offsetof(struct sr_gdb_thread, next), N(sr_gdb_thread_new) },
    { "java", SR_REPORT_JAVA, JAVA_F, sizeof(struct sr_java_frame), offsetof(struct sr_java_frame, next), N(sr_java_frame_new), JAVA_T, sizeof(struct sr_java_thread), offsetof(struct sr_java_thread, frames), offsetof(struct sr_java_thread, next), N(sr_java_thread_new) },
    { "koops", SR_REPORT_KERNELOOPS, KOOPS_F, sizeof(struct sr_koops_frame), offsetof(struct sr_koops_frame, next), N(sr_koops_frame_new), KOOPS_T, sizeof(struct sr_koops_stacktrace), offsetof(struct sr_koops_stacktrace, frames), 0, N(sr_koops_stacktrace_new) },
    { "python", SR_REPORT_PYTHON, PYTHON_F, sizeof(struct sr_python_frame), offsetof(struct sr_python_frame, next), N(sr_python_frame_new), PYTHON_T, sizeof(struct sr_python_stacktrace), offsetof(struct sr_python_stacktrace, frames), 0, N(sr_python_stacktrace_new) },
    { "ruby", SR_REPORT_RUBY, RUBY_F, sizeof(struct sr_ruby_frame), offsetof(struct sr_ruby_frame, next), N(sr_ruby_frame_new), RUBY_T, sizeof(struct sr_ruby_stacktrace), offsetof(struct sr_ruby_stacktrace, frames), 0, N(sr_ruby_stacktrace_new) },
    { "js", SR_REPORT_JAVASCRIPT, JS_F, sizeof(struct sr_js_frame), offsetof(struct sr_js_frame, next), N(sr_js_frame_new), JS_T, sizeof(struct sr_js_stacktrace), offsetof(struct sr_js_stacktrace, frames), 0, N(sr_js_stacktrace_new) },
};
enum { K_CORE, K_GDB, K_JAVA, K_KOOPS, K_PYTHON, K_RUBY, K_JS };
#define AT(p, off, T) (*(T *)((char *)(p) + (off)))
#define NEXT(k, fr) AT(fr, KIND[k].next, void *)
#define FRAMES(k, th) AT(th, KIND[k].tframes, void *)

static int gen_variety = 3;     /* how many different values: small numbers make equal frames frequent */
static const char *STRPOOL[] = { "main", "foo", "", "??", "a", "b", "bar", "malloc", "abort", "Foo", "foo ", "x\"y\\z", "tab\there", "\xc3\xa9t\xc3\xa9", "new\nline",
    "raise", "free", "<module>", "/usr/lib64/libc.so.6", "f", "foobar", "A", "org.x.Y", "~", "0", "g_malloc" };
static int gen_nul = 15;        /* percentage of NULL strings */
static char *gen_str(void)
{
    if (chance(gen_nul)) return NULL;
    unsigned n = G_N_ELEMENTS(STRPOOL), v = gen_variety < (int)n ? gen_variety : n;
    return g_strdup(STRPOOL[chance(80) ? rnd(v) : rnd(n)]);
}
static uint64_t gen_u64(void)
{
    static const uint64_t V[] = { 0, 1, 2, 0x80000000ULL, 0x7fffffffULL, 0xffffffffULL, 0x100000000ULL, 0x100000001ULL, 0x7fffffffffffffffULL, 0x8000000000000000ULL,
        0xffffffffffffffffULL, 0xfffffffffffffffeULL, 0xffffffff81000000ULL, 0x200000000ULL, 42 };
    if (chance(70)) return V[rnd(chance(60) && gen_variety < 4 ? 3 : G_N_ELEMENTS(V))];
    return chance(50) ? rnd(100) : rnd64();
}
static uint32_t gen_u32(void)
{
    static const uint32_t V[] = { 0, 1, 2, 0x80000000U, 0x7fffffffU, 0xffffffffU, 0xfffffffeU, 0x80000001U, 100 };
    if (chance(70)) return V[rnd(chance(60) && gen_variety < 4 ? 3 : G_N_ELEMENTS(V))];
    return chance(50) ? rnd(100) : (uint32_t)rnd64();
}
static void gen_field(void *p, const fld *f)
{
    switch (f->kind) {
    case 's': g_free(AT(p, f->off, char *)); AT(p, f->off, char *) = gen_str(); break;
    case 'b': AT(p, f->off, bool) = chance(30); break;
    case '4': AT(p, f->off, uint32_t) = gen_u32(); break;
    case '8': AT(p, f->off, uint64_t) = gen_u64(); break;
    }
}
static void copy_field(void *d, const void *s, const fld *f)
{
    switch (f->kind) {
    case 's': g_free(AT(d, f->off, char *)); AT(d, f->off, char *) = AT(s, f->off, char *) ? g_strdup(AT(s, f->off, char *)) : NULL; break;
    case 'b': AT(d, f->off, bool) = AT(s, f->off, bool); break;
    case '4': AT(d, f->off, uint32_t) = AT(s, f->off, uint32_t); break;
    case '8': AT(d, f->off, uint64_t) = AT(s, f->off, uint64_t); break;
    }
}
/* independent three-way comparison of one field: absent < any string, byte order; numbers as numbers */
static int field_order(const void *a, const void *b, const fld *f)
{
    switch (f->kind) {
    case 's': {
        const unsigned char *x = AT(a, f->off, unsigned char *), *y = AT(b, f->off, unsigned char *);
        if (!x || !y) return (x != NULL) - (y != NULL);
        while (*x && *x == *y) ++x, ++y;
        return (*x > *y) - (*x < *y);
    }
    case 'b': return (int)AT(a, f->off, bool) - (int)AT(b, f->off, bool);
    case '4': { uint32_t x = AT(a, f->off, uint32_t), y = AT(b, f->off, uint32_t); return (x > y) - (x < y); }
    case '8': { uint64_t x = AT(a, f->off, uint64_t), y = AT(b, f->off, uint64_t); return (x > y) - (x < y); }
    }
    return 0;
}
static const fld *fields_differ(const void *a, const void *b, const fld *f)
{
    for (; f->name; ++f)
        if (field_order(a, b, f)) return f;
    return NULL;
}
static void *gen_frame(int k)
{
    void *p = KIND[k].fnew();
    for (const fld *f = KIND[k].f; f->name; ++f)
        gen_field(p, f);
    if (k == K_GDB) AT(p, offsetof(struct sr_gdb_frame, signal_handler_called), bool) = chance(12);
    if (k == K_CORE) AT(p, offsetof(struct sr_core_frame, fingerprint_hashed), bool) = chance(60);
    return p;
}
static void *clone_frame(int k, const void *s)
{
    void *p = KIND[k].fnew();
    for (const fld *f = KIND[k].f; f->name; ++f)
        copy_field(p, s, f);
    return p;
}
/* a variation of a frame: a copy with one or two fields changed */
static void *vary_frame(int k, const void *s)
{
    void *p = clone_frame(k, s);
    int n = 0; while (KIND[k].f[n].name) ++n;
    for (int i = 1 + rnd(2); i; --i) gen_field(p, &KIND[k].f[rnd(n)]);
    return p;
}
/* a list of n frames; frames resemble each other */
static void *gen_frames(int k, int n)
{
    void *head = NULL, **tail = &head, *prev = NULL;
    for (int i = 0; i < n; ++i) {
        void *f = prev && chance(35) ? vary_frame(k, prev) : prev && chance(15) ? clone_frame(k, prev) : gen_frame(k);
        *tail = f;
        tail = &NEXT(k, f);
        *tail = NULL;
        prev = f;
    }
    return head;
}
static void *gen_thread(int k, int n)
{
    void *t = KIND[k].tnew();
    for (const fld *f = KIND[k].tf; f->name; ++f) gen_field(t, f);
    if (k == K_JS) AT(t, offsetof(struct sr_js_stacktrace, platform), uint32_t) = 0;
    FRAMES(k, t) = gen_frames(k, n);
    return t;
}
static int list_len(int k, void *fr) { int n = 0; for (; fr; fr = NEXT(k, fr)) ++n; return n; }

static char *put(char *o, char *e, const void *p, const fld *f)
{
    for (; f->name; ++f) {
        if (e - o < 300) break;
        switch (f->kind) {
        case 's': { const char *s = AT(p, f->off, char *); if (!s) break;
                    o += sprintf(o, "%s=%s ", f->name, show_n(s, strlen(s) < 60 ? strlen(s) : 60)); break; }
        case 'b': if (AT(p, f->off, bool)) o += sprintf(o, "%s ", f->name); break;
        case '4': if (AT(p, f->off, uint32_t)) o += sprintf(o, "%s=%u ", f->name, AT(p, f->off, uint32_t)); break;
        case '8': if (AT(p, f->off, uint64_t)) o += sprintf(o, "%s=0x%llx ", f->name, (unsigned long long)AT(p, f->off, uint64_t)); break;
        }
    }
    *o = 0;
    return o;
}
static const char *show_frame(int k, const void *p)
{
    static char buf[4][1500]; static int i; i = (i + 1) % 4;
    char *o = buf[i];
    *o++ = '{'; o = put(o, buf[i] + 1400, p, KIND[k].f); strcpy(o, "}");
    return buf[i];
}
static const char *show_frames(int k, void *fr)
{
    static char buf[3][3000]; static int i; i = (i + 1) % 3;
    char *o = buf[i], *e = o + 2500;
    *o = 0;
    for (int n = 0; fr && o < e; fr = NEXT(k, fr), ++n) { o += sprintf(o, "#%d{", n); o = put(o, buf[i] + 2900, fr, KIND[k].f); o += sprintf(o, "} "); }
    return buf[i];
}
/* snapshot of a frame list: pointers and field values, to see that nothing else changed */
typedef struct { int k, n; void **p; void **c; } snap_t;
static snap_t snap_frames(int k, void *fr)
{
    snap_t s = { k, list_len(k, fr), NULL, NULL };
    s.p = malloc((s.n + 1) * sizeof(void *)); s.c = malloc((s.n + 1) * sizeof(void *));
    for (int i = 0; i < s.n; ++i, fr = NEXT(k, fr)) { s.p[i] = fr; s.c[i] = clone_frame(k, fr); }
    return s;
}
static void free_frame1(int k, void *p)
{
    for (const fld *f = KIND[k].f; f->name; ++f) if (f->kind == 's') g_free(AT(p, f->off, char *));
    free(p);
}
static void snap_free(snap_t *s) { for (int i = 0; i < s->n; ++i) free_frame1(s->k, s->c[i]); free(s->p); free(s->c); }
static void free_list(int k, void *fr) { while (fr) { void *n = NEXT(k, fr); free_frame1(k, fr); fr = n; } }
static void free_thread1(int k, void *t)
{
    free_list(k, FRAMES(k, t));
    for (const fld *f = KIND[k].tf; f->name; ++f) if (f->kind == 's') g_free(AT(t, f->off, char *));
    if (k == K_KOOPS) g_strfreev(AT(t, offsetof(struct sr_koops_stacktrace, modules), char **));
    free(t);
}
#endif

#include "common.h"
#include "gen.h"
#include "internal_utils.h"

/* independent texts of everything that is hashed */
static GString *T;
static void s_(const char *s) { for (; *s; ++s) g_string_append_c(T, *s); }
static void u_(const char *s) { s_(s ? s : "<unknown>"); }
static void num(uint64_t v, int base) { char b[30], *p = b + 29; *p = 0; do { *--p = "0123456789abcdef"[v % base]; v /= base; } while (v); s_(p); }
static void d_(uint64_t v) { num(v, 10); }
static void x_(uint64_t v) { s_("0x"); num(v, 16); }
#define C_ s_(", ")
static void bt_frame(int k, void *p)
{
    switch (k) {
    case K_CORE: { struct sr_core_frame *f = p; if (f->address) x_(f->address); else s_("<unknown>"); C_; u_(f->build_id); s_("+"); x_(f->build_id_offset); C_; u_(f->file_name); C_; u_(f->fingerprint); break; }
    case K_GDB: { struct sr_gdb_frame *f = p; u_(f->function_name); C_; u_(f->function_type); C_; d_(f->number); C_; u_(f->source_file); C_; d_(f->source_line); C_; d_(f->signal_handler_called ? 1 : 0); C_; x_(f->address); C_; u_(f->library_name); break; }
    case K_JAVA: { struct sr_java_frame *f = p; u_(f->name); C_; u_(f->file_name); C_; d_(f->file_line); C_; u_(f->class_path); C_; d_(f->is_native ? 1 : 0); C_; d_(f->is_exception ? 1 : 0); C_; u_(f->message); break; }
    case K_KOOPS: { struct sr_koops_frame *f = p; x_(f->address); C_; d_(f->reliable ? 1 : 0); C_; u_(f->function_name); C_; x_(f->function_offset); C_; x_(f->function_length); C_; u_(f->module_name); C_;
                    x_(f->from_address); C_; u_(f->from_function_name); C_; x_(f->from_function_offset); C_; x_(f->from_function_length); C_; u_(f->from_module_name); break; }
    case K_PYTHON: { struct sr_python_frame *f = p; u_(f->file_name); C_; d_(f->special_file ? 1 : 0); C_; d_(f->file_line); C_; u_(f->function_name); C_; d_(f->special_function ? 1 : 0); C_; u_(f->line_contents); break; }
    case K_RUBY: { struct sr_ruby_frame *f = p; u_(f->file_name); C_; d_(f->file_line); C_; u_(f->function_name); C_; d_(f->special_function ? 1 : 0); C_; d_(f->block_level); C_; d_(f->rescue_level); break; }
    case K_JS: { struct sr_js_frame *f = p; u_(f->file_name); C_; d_(f->file_line); C_; u_(f->function_name); break; }
    }
    s_("\n");
}
static bool dup_frame(int k, void *p, int flags)
{
    switch (k) {
    case K_CORE: { struct sr_core_frame *f = p;
        if (f->build_id) { s_(f->build_id); s_("+"); x_(f->build_id_offset); }
        else if (f->function_name) { s_("  "); s_(f->function_name); }
        else if (f->fingerprint) { s_(f->fingerprint); s_("+"); x_(f->build_id_offset); }
        else x_(f->address);
        break; }
    case K_GDB: { struct sr_gdb_frame *f = p; s_(" ");
        if (f->function_type) { s_(" "); s_(f->function_type); }
        if (f->function_name) { s_(" "); s_(f->function_name); }
        if (f->signal_handler_called) s_(" <signal handler called>");
        break; }
    case K_JAVA: { struct sr_java_frame *f = p;
        if (f->name) s_(f->name);
        else { u_(f->class_path); s_("/"); u_(f->file_name); s_(":"); d_(f->file_line); }
        break; }
    case K_KOOPS: { struct sr_koops_frame *f = p;
        if ((flags & SR_DUPHASH_KOOPS_COMPAT) && !f->reliable) return false;
        if (f->function_name) s_(f->function_name); else x_(f->address);
        break; }
    default: { const char *file = k == K_PYTHON ? ((struct sr_python_frame *)p)->file_name : k == K_RUBY ? ((struct sr_ruby_frame *)p)->file_name : ((struct sr_js_frame *)p)->file_name;
        uint32_t line = k == K_PYTHON ? ((struct sr_python_frame *)p)->file_line : k == K_RUBY ? ((struct sr_ruby_frame *)p)->file_line : ((struct sr_js_frame *)p)->file_line;
        u_(file); s_(":"); d_(line); }
    }
    s_("\n");
    return true;
}
static char *sha1(const char *s)
{
    GChecksum *c = g_checksum_new(G_CHECKSUM_SHA1);
    g_checksum_update(c, (const guchar *)s, strlen(s));
    char *r = g_strdup(g_checksum_get_string(c));
    g_checksum_free(c);
    return r;
}
static void unchanged(int k, void *fr, snap_t *s)
{
    for (int i = 0; i < s->n; ++i, fr = NEXT(k, fr))
        CHECK(fr == s->p[i] && !fields_differ(fr, s->c[i], KIND[k].f), "computing a hash does not modify the trace", "frame %d", i);
    CHECK(!fr, "computing a hash does not modify the trace", "list too long");
}
static void result(char *got, bool hashed, bool null, const char *what)
{
    if (null) { CHECK(!got, what, "%s instead of NULL", show(got)); return; }
    CHECK(got, what, "NULL");
    if (!hashed) CHECK(!strcmp(got, T->str), what, "text %s instead of %s", show(got), show(T->str));
    else {
        char *e = sha1(T->str);
        CHECK(!strcmp(got, e), what, "hash %s instead of %s, the SHA-1 of %s", got, e, show(T->str));
        g_free(e);
    }
    g_free(got);
}
static void t_dup(void)
{
    int k = rnd(7), n = rnd(9), flags = 0, limit = chance(35) ? 0 : chance(5) ? -1 - (int)rnd(3) : chance(10) ? INT_MAX : (int)rnd(n + 3);
    void *t = gen_thread(k, n);
    if (chance(50)) flags |= SR_DUPHASH_NONORMALIZE;
    if (chance(60)) flags |= SR_DUPHASH_NOHASH;
    if (chance(k == K_KOOPS ? 50 : 20)) flags |= SR_DUPHASH_KOOPS_COMPAT;
    if (chance(20)) flags |= SR_DUPHASH_NORMAL;
    if (k == K_KOOPS) for (void *f = FRAMES(k, t); f; f = NEXT(k, f)) AT(f, offsetof(struct sr_koops_frame, reliable), bool) = chance(60);
    char *prefix = chance(40) ? NULL : g_strdup(PICK(((const char *[]){ "", "bash", "kernel\n", "x", "\xff%s%n" })));
    snap_t s = snap_frames(k, FRAMES(k, t));
    desc("%s thread, limit %d, prefix %s, flags %s%s%s: %s", KIND[k].name, limit, show(prefix), flags & SR_DUPHASH_NONORMALIZE ? "no-normalize " : "", flags & SR_DUPHASH_NOHASH ? "no-hash " : "",
         flags & SR_DUPHASH_KOOPS_COMPAT ? "koops-compat" : "", show_frames(k, FRAMES(k, t)));
    /* the frames that count: of a normalized copy */
    vwhere_ = "normalize";
    void *c = sr_thread_dup(t);
    if (!(flags & SR_DUPHASH_NONORMALIZE)) sr_thread_normalize(c);
    T = g_string_new(NULL);
    if (prefix) s_(prefix);
    if (!(flags & SR_DUPHASH_KOOPS_COMPAT)) s_("Thread\n");
    int used = 0, all = 0;
    for (void *f = FRAMES(k, c); f && (limit == 0 || used < limit); f = NEXT(k, f), ++all) used += dup_frame(k, f, flags);
    vwhere_ = "sr_thread_get_duphash";
    for (int round = 0; round < 2; ++round) {
        char *h = sr_thread_get_duphash(t, limit, prefix, flags);
        result(h, !(flags & SR_DUPHASH_NOHASH), (flags & SR_DUPHASH_KOOPS_COMPAT) && T->len == 0, "the duplication hash is the one of the listed frames");
        unchanged(k, FRAMES(k, t), &s);
    }
    if (used > 1) nontrivial();
    g_string_free(T, TRUE); g_free(prefix); snap_free(&s);
    sr_thread_free(c); free_thread1(k, t);
}
static void t_bt(void)
{
    int k = rnd(7), nt = k <= K_JAVA ? (int)rnd(4) : 1, flags = chance(60) ? SR_BTHASH_NOHASH : chance(50) ? SR_BTHASH_NORMAL : 0;
    void *head = NULL, **tail = &head, *th[4], *st; snap_t s[4];
    for (int i = 0; i < nt; ++i) {
        th[i] = gen_thread(k, rnd(5)); s[i] = snap_frames(k, FRAMES(k, th[i]));
        if (k == K_JS) AT(th[i], offsetof(struct sr_js_stacktrace, platform), uint32_t) = rnd(64);
        if (k <= K_JAVA) { *tail = th[i]; tail = &AT(th[i], KIND[k].tnext, void *); *tail = NULL; }
    }
    T = g_string_new(NULL);
    struct sr_core_stacktrace *cs; struct sr_gdb_stacktrace *gs; struct sr_java_stacktrace *js;
    char extra[300] = "";
    switch (k) {
    case K_CORE: st = cs = sr_core_stacktrace_new(); cs->threads = head; cs->signal = gen_u32(); cs->executable = gen_str(); if (nt) cs->crash_thread = th[rnd(nt)];
        s_("Executable: "); u_(cs->executable); s_("\nSignal: "); d_(cs->signal); s_("\n\n");
        snprintf(extra, sizeof extra, "signal %d, executable %s", cs->signal, show(cs->executable)); break;
    case K_GDB: st = gs = sr_gdb_stacktrace_new(); gs->threads = head; gs->crash_tid = gen_u32(); gs->crash = chance(50) ? gen_frames(k, 1) : NULL;
        struct sr_gdb_sharedlib **lt = &gs->libs;
        for (int i = rnd(4); i; --i) {
            struct sr_gdb_sharedlib *l = sr_gdb_sharedlib_new();
            l->from = gen_u64(); l->to = gen_u64(); l->symbols = rnd(3); l->soname = gen_str();
            *lt = l; lt = &l->next;
            num(l->from, 16); s_("-"); num(l->to, 16); C_; u_(l->soname); s_("\n");
        }
        snprintf(extra, sizeof extra, "libraries %s", show(T->str));
        s_("\n"); break;
    case K_JAVA: st = js = sr_java_stacktrace_new(); js->threads = head; break;
    case K_KOOPS: { struct sr_koops_stacktrace *ks = st = th[0]; int nm = rnd(5);
        if (chance(80)) { ks->modules = g_new0(char *, nm + 1); for (int i = 0; i < nm; ++i) ks->modules[i] = g_strdup(PICK(((const char *[]){ "", "ext4", "nvidia(P)", "snd hda", "x" }))); }
        /* the taint flags are not listed: see known-findings.txt; with any listing at all, the line only has to be a function of the flags */
        s_("Version: "); u_(ks->version); s_("\nFlags: \nModules: ");
        for (int i = 0; ks->modules && i < nm; ++i) { if (i) s_(", "); s_(ks->modules[i]); }
        s_("\n\n");
        snprintf(extra, sizeof extra, "version %s, %d modules", show(ks->version), ks->modules ? nm : -1); break; }
    default: { const char *e = k == K_PYTHON ? ((struct sr_python_stacktrace *)(st = th[0]))->exception_name : k == K_RUBY ? ((struct sr_ruby_stacktrace *)(st = th[0]))->exception_name : ((struct sr_js_stacktrace *)(st = th[0]))->exception_name;
        s_(k == K_JS ? "Error: " : "Exception: "); u_(e); s_("\n\n"); snprintf(extra, sizeof extra, "exception %s", show(e)); }
    }
    int frames = 0;
    for (int i = 0; i < nt; ++i) {
        if (i) s_("\n");
        if (k == K_GDB) { s_("Thread "); d_(((struct sr_gdb_thread *)th[i])->number); s_("\n"); }
        if (k == K_JAVA) { s_("Thread "); u_(((struct sr_java_thread *)th[i])->name); s_("\n"); }
        for (void *f = FRAMES(k, th[i]); f; f = NEXT(k, f), ++frames) bt_frame(k, f);
    }
    desc("%s stack trace (%s) with %d threads, flags %d: %s", KIND[k].name, extra, nt, flags, nt ? show_frames(k, FRAMES(k, th[0])) : "");
    vwhere_ = "sr_stacktrace_get_bthash";
    for (int round = 0; round < 2; ++round) {
        char *h = sr_stacktrace_get_bthash(st, flags);
        if (k == K_KOOPS && (flags & SR_BTHASH_NOHASH) && h) {
            /* a repair that lists the flags is fine: what follows "Flags: " on its line is not compared */
            char *a = strstr(h, "\nFlags: "), *b = a ? strchr(a + 8, '\n') : NULL;
            if (a && b && b > a + 8) memmove(a + 8, b, strlen(b) + 1);
        }
        if (k == K_KOOPS && !(flags & SR_BTHASH_NOHASH) && h) {
            char *txt = sr_stacktrace_get_bthash(st, SR_BTHASH_NOHASH), *e = sha1(txt);
            CHECK(!strcmp(h, e), "the backtrace hash is the SHA-1 of the text", "%s instead of %s", h, e);
            g_free(txt); g_free(e); g_free(h);
        } else
            result(h, !(flags & SR_BTHASH_NOHASH), false, "the backtrace hash is the one of all threads and frames");
        void *t = sr_stacktrace_threads(st);
        for (int i = 0; i < nt; ++i) { CHECK(t == th[i], "computing a hash does not modify the trace", "thread %d", i); unchanged(k, FRAMES(k, th[i]), &s[i]); t = k <= K_JAVA ? AT(t, KIND[k].tnext, void *) : NULL; }
        CHECK(!t, "computing a hash does not modify the trace", "threads");
    }
    if (frames > 1) nontrivial();
    for (int i = 0; i < nt; ++i) snap_free(&s[i]);
    g_string_free(T, TRUE);
    sr_stacktrace_free(st);
}
static void run_case(void)
{
    gen_variety = 3 + rnd(24);
    if (chance(50)) t_dup(); else t_bt();
}

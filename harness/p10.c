#include "common.h"
#include "gen.h"
#include "internal_utils.h"

static void *(*const FDUP[7])() = { (void *)sr_core_frame_dup, (void *)sr_gdb_frame_dup, (void *)sr_java_frame_dup, (void *)sr_koops_frame_dup, (void *)sr_python_frame_dup, (void *)sr_ruby_frame_dup, (void *)sr_js_frame_dup };
static void *(*const TDUP[3])() = { (void *)sr_core_thread_dup, (void *)sr_gdb_thread_dup, (void *)sr_java_thread_dup };
#define TNEXT(k, p) AT(p, KIND[k].tnext, void *)

/* every block reachable from the object, in a set: originals and copies must be disjoint */
static const void *seen[4000]; static int nseen;
static void add(const void *p, bool fresh, const char *what)
{
    if (!p) return;
    if (fresh) for (int i = 0; i < nseen; ++i) CHECK(seen[i] != p, "the copy shares no memory", "%s is shared", what);
    CHECK(nseen < 4000, "harness", "too many");
    seen[nseen++] = p;
}
static void add_fields(const void *p, const fld *f, bool fresh)
{
    add(p, fresh, "an element");
    for (; f->name; ++f) if (f->kind == 's') add(AT(p, f->off, char *), fresh, f->name);
}
static void add_list(int k, void *fr, bool fresh) { for (; fr; fr = NEXT(k, fr)) add_fields(fr, KIND[k].f, fresh); }
static int TYPE(const void *p) { return *(const int *)p; }

static void eq_frames(int k, void *c, snap_t *s, int n, const char *what)
{
    for (int i = 0; i < n; ++i) {
        CHECK(c, what, "the copy ends before element %d of %d", i, n);
        CHECK(TYPE(c) == KIND[k].code, what, "type tag of element %d", i);
        const fld *f = fields_differ(c, s->c[i], KIND[k].f);
        CHECK(!f, what, "field %s of element %d: %s instead of %s", f->name, i, show_frame(k, c), show_frame(k, s->c[i]));
        c = NEXT(k, c);
    }
    CHECK(!c, what, "the copy is too long");
}
static void unchanged(int k, void *fr, snap_t *s)
{
    for (int i = 0; i < s->n; ++i, fr = NEXT(k, fr))
        CHECK(fr == s->p[i] && !fields_differ(fr, s->c[i], KIND[k].f), "the original is unchanged", "element %d", i);
    CHECK(!fr, "the original is unchanged", "list too long");
}
/* overwrite everything the frames own */
static void scribble_str(char *s) { if (s) memset(s, '#', strlen(s)); }
static void scribble(int k, void *fr)
{
    for (; fr; fr = NEXT(k, fr))
        for (const fld *f = KIND[k].f; f->name; ++f) if (f->kind == 's') scribble_str(AT(fr, f->off, char *));
}
static void t_frames(void)
{
    int k = rnd(7), n = 1 + rnd(6); bool sib = chance(70);
    void *a = gen_frames(k, n);
    snap_t s = snap_frames(k, a);
    desc("%s frames, siblings %d: %s", KIND[k].name, sib, show_frames(k, a));
    vwhere_ = "frame dup";
    void *c = FDUP[k](a, sib);
    nseen = 0; add_list(k, a, false); add_list(k, c, true);
    eq_frames(k, c, &s, sib ? n : 1, "a duplicated frame is equal");
    unchanged(k, a, &s);
    if (chance(50)) { scribble(k, c); free_list(k, c); unchanged(k, a, &s); free_list(k, a); }
    else { scribble(k, a); free_list(k, a); eq_frames(k, c, &s, sib ? n : 1, "the copy survives the original"); free_list(k, c); }
    if (n > 1) nontrivial();
    snap_free(&s);
}
static void eq_thread(int k, void *c, void *fields, snap_t *s)
{
    CHECK(TYPE(c) == KIND[k].code, "a duplicated thread is equal", "type tag");
    const fld *f = fields_differ(c, fields, KIND[k].tf);
    CHECK(!f, "a duplicated thread is equal", "field %s of the thread", f->name);
    eq_frames(k, FRAMES(k, c), s, s->n, "the frames of a duplicated thread are equal");
}
static void *field_copy(int k, void *t)
{
    void *p = calloc(1, KIND[k].tsize);
    for (const fld *f = KIND[k].tf; f->name; ++f) copy_field(p, t, f);
    return p;
}
static void free_fields(int k, void *p) { for (const fld *f = KIND[k].tf; f->name; ++f) if (f->kind == 's') g_free(AT(p, f->off, char *)); free(p); }
static void t_threads(void)
{
    int k = rnd(3), n = 1 + rnd(4); bool sib = chance(60), gen = !sib && chance(60);
    void *head = NULL, **tail = &head; snap_t s[5]; void *fc[5];
    for (int i = 0; i < n; ++i) {
        void *t = gen_thread(k, rnd(4));
        if (k == K_CORE) AT(t, offsetof(struct sr_core_thread, id), int64_t) = (int64_t)gen_u64();
        s[i] = snap_frames(k, FRAMES(k, t)); fc[i] = field_copy(k, t);
        *tail = t; tail = &TNEXT(k, t); *tail = NULL;
    }
    desc("%s threads %d, siblings %d", KIND[k].name, n, sib);
    vwhere_ = "thread dup";
    void *c = gen ? (void *)sr_thread_dup(head) : TDUP[k](head, sib);
    nseen = 0;
    for (void *t = head; t; t = TNEXT(k, t)) { add_fields(t, KIND[k].tf, false); add_list(k, FRAMES(k, t), false); }
    void *t = c;
    for (int i = 0; i < (sib ? n : 1); ++i, t = TNEXT(k, t)) {
        CHECK(t, "a duplicated thread list is equal", "ends before thread %d of %d", i, n);
        add_fields(t, KIND[k].tf, true); add_list(k, FRAMES(k, t), true);
        eq_thread(k, t, fc[i], &s[i]);
    }
    CHECK(!t, "a duplicated thread list is equal", "too long");
    t = head;
    for (int i = 0; i < n; ++i, t = TNEXT(k, t)) { eq_thread(k, t, fc[i], &s[i]); unchanged(k, FRAMES(k, t), &s[i]); }
    if (n > 1) nontrivial();
    while (head) { t = TNEXT(k, head); scribble(k, FRAMES(k, head)); free_thread1(k, head); head = t; }
    for (int i = 0; i < (sib ? n : 1); ++i) { t = TNEXT(k, c); eq_thread(k, c, fc[i], &s[i]); sr_thread_free(c); c = t; }
    for (int i = 0; i < n; ++i) { snap_free(&s[i]); free_fields(k, fc[i]); }
}
/* the stack traces that are threads themselves */
static void t_single(void)
{
    int k = K_KOOPS + rnd(4), n = rnd(5); bool gen = chance(40);
    void *a = gen_thread(k, n);
    if (k == K_JS) AT(a, offsetof(struct sr_js_stacktrace, platform), uint32_t) = rnd(64);
    char **mods = NULL; int nm = 0; static char keep[8][80];
    if (k == K_KOOPS && chance(70)) {
        nm = rnd(6);
        mods = g_new0(char *, nm + 1);
        for (int i = 0; i < nm; ++i) { strcpy(keep[i], PICK(((const char *[]){ "", "ext4", "nvidia(P)", "snd hda", "x" }))); mods[i] = g_strdup(keep[i]); }
        AT(a, offsetof(struct sr_koops_stacktrace, modules), char **) = mods;
    }
    snap_t s = snap_frames(k, FRAMES(k, a)); void *fc = field_copy(k, a);
    desc("%s stack trace with %d frames and %d modules", KIND[k].name, n, nm);
    vwhere_ = "stack trace dup";
    void *(*const DUP[])() = { (void *)sr_koops_stacktrace_dup, (void *)sr_python_stacktrace_dup, (void *)sr_ruby_stacktrace_dup, (void *)sr_js_stacktrace_dup };
    void *c = gen ? (void *)sr_thread_dup(a) : DUP[k - K_KOOPS](a);
    nseen = 0;
    for (int r = 0; r < 2; ++r) { void *o = r ? c : a; add_fields(o, KIND[k].tf, r); add_list(k, FRAMES(k, o), r);
        if (k == K_KOOPS) { char **m = AT(o, offsetof(struct sr_koops_stacktrace, modules), char **); add(m, r, "the module list"); for (; m && *m; ++m) add(*m, r, "a module"); } }
    eq_thread(k, a, fc, &s); unchanged(k, FRAMES(k, a), &s);
    for (int r = 0; r < 2; ++r) {
        eq_thread(k, c, fc, &s);
        if (k == K_KOOPS) {
            char **m = AT(c, offsetof(struct sr_koops_stacktrace, modules), char **);
            CHECK((m != NULL) == (mods != NULL), "the module list is duplicated", "absence");
            if (m) { for (int i = 0; i < nm; ++i) CHECK(m[i] && !strcmp(m[i], keep[i]), "the module list is duplicated", "module %d", i);
                     CHECK(!m[nm], "the module list is duplicated", "too long"); }
        }
        if (!r) { scribble(k, FRAMES(k, a)); sr_thread_free(a); }
    }
    if (n) nontrivial();
    sr_thread_free(c); snap_free(&s); free_fields(k, fc);
}
static void t_multi(void)
{
    int k = rnd(3), n = rnd(5), nl = 0, crash = -1;
    void *head = NULL, **tail = &head, *th[5]; snap_t s[5]; void *fc[5];
    for (int i = 0; i < n; ++i) {
        void *t = th[i] = gen_thread(k, rnd(4));
        s[i] = snap_frames(k, FRAMES(k, t)); fc[i] = field_copy(k, t);
        *tail = t; tail = &TNEXT(k, t); *tail = NULL;
    }
    void *st, *c;
    struct sr_core_stacktrace *cs = NULL, *cc = NULL; struct sr_gdb_stacktrace *gs = NULL, *gc = NULL; struct sr_java_stacktrace *js = NULL, *jc = NULL;
    struct sr_gdb_sharedlib lib[4]; snap_t cr = { 0 };
    vwhere_ = "stack trace dup";
    nseen = 0;
    if (k == K_CORE) {
        st = cs = sr_core_stacktrace_new(); cs->threads = head; cs->signal = gen_u32(); cs->executable = gen_str(); cs->only_crash_thread = chance(50);
        if (n && chance(70)) cs->crash_thread = th[crash = rnd(n)];
        desc("core stack trace, %d threads, crash thread %d, signal %u, executable %s", n, crash, cs->signal, show(cs->executable));
        add(cs, false, ""); add(cs->executable, false, "");
        c = cc = sr_core_stacktrace_dup(cs);
        add(cc, true, "the stack trace"); add(cc->executable, true, "executable");
        CHECK(cc->type == cs->type && cc->signal == cs->signal && cc->only_crash_thread == cs->only_crash_thread && !g_strcmp0(cc->executable, cs->executable),
              "a duplicated stack trace is equal", "signal %u executable %s only_crash_thread %d", cc->signal, show(cc->executable), cc->only_crash_thread);
    } else if (k == K_GDB) {
        st = gs = sr_gdb_stacktrace_new(); gs->threads = head; gs->crash_tid = gen_u32();
        if (chance(60)) { gs->crash = gen_frames(k, 1 + rnd(2)); cr = snap_frames(k, gs->crash); }
        nl = rnd(4);
        struct sr_gdb_sharedlib **lt = &gs->libs;
        for (int i = 0; i < nl; ++i) {
            struct sr_gdb_sharedlib *l = sr_gdb_sharedlib_new();
            l->from = gen_u64(); l->to = gen_u64(); l->symbols = rnd(4); l->soname = gen_str();
            lib[i] = *l; lib[i].soname = g_strdup(l->soname);
            add(l, false, ""); add(l->soname, false, "");
            *lt = l; lt = &l->next;
        }
        desc("gdb stack trace, %d threads, %d libraries, crash %d", n, nl, gs->crash != NULL);
        add(gs, false, ""); add_list(k, gs->crash, false);
        c = gc = sr_gdb_stacktrace_dup(gs);
        add(gc, true, "the stack trace"); add_list(k, gc->crash, true);
        CHECK(gc->type == gs->type && gc->crash_tid == gs->crash_tid && (gc->crash != NULL) == (gs->crash != NULL), "a duplicated stack trace is equal", "crash_tid, crash");
        if (gs->crash) unchanged(k, gs->crash, &cr);
    } else {
        st = js = sr_java_stacktrace_new(); js->threads = head;
        desc("java stack trace, %d threads", n);
        add(js, false, "");
        c = jc = sr_java_stacktrace_dup(js);
        add(jc, true, "the stack trace");
    }
    for (int i = 0; i < n; ++i) { add_fields(th[i], KIND[k].tf, false); add_list(k, FRAMES(k, th[i]), false); }
    void *t = head;
    for (int i = 0; i < n; ++i, t = TNEXT(k, t)) { CHECK(t == th[i], "the original is unchanged", "thread %d", i); eq_thread(k, t, fc[i], &s[i]); unchanged(k, FRAMES(k, t), &s[i]); }
    CHECK(!t, "the original is unchanged", "threads");
    bool first = true;
    t = cc ? (void *)cc->threads : gc ? (void *)gc->threads : (void *)jc->threads;
    void *ct = NULL;
    for (int i = 0; i < n; ++i, t = TNEXT(k, t)) { CHECK(t, "a duplicated stack trace is equal", "%d of %d threads", i, n); add_fields(t, KIND[k].tf, true); add_list(k, FRAMES(k, t), true); if (i == crash) ct = t; }
    CHECK(!t, "a duplicated stack trace is equal", "too many threads");
    if (cc) CHECK(cc->crash_thread == ct, "the crash thread of the copy is the copied crash thread", "thread %d of the original", crash);
    sr_stacktrace_free(st);
    while (first || 0) {
        first = false;
        t = cc ? (void *)cc->threads : gc ? (void *)gc->threads : (void *)jc->threads;
        for (int i = 0; i < n; ++i, t = TNEXT(k, t)) eq_thread(k, t, fc[i], &s[i]);
        if (gc) {
            struct sr_gdb_sharedlib *l = gc->libs;
            for (int i = 0; i < nl; ++i, l = l->next) {
                CHECK(l, "the library list is duplicated", "ends before library %d of %d", i, nl);
                CHECK(l->from == lib[i].from && l->to == lib[i].to && l->symbols == lib[i].symbols && !g_strcmp0(l->soname, lib[i].soname), "the library list is duplicated", "library %d", i);
                add(l, false, "");
                g_free(lib[i].soname);
            }
            CHECK(!l, "the library list is duplicated", "too long");
            if (gc->crash) eq_frames(k, gc->crash, &cr, 1, "the crash frame is duplicated");
        }
        if (cc) CHECK(sr_core_stacktrace_find_crash_thread(cc) == (ct ? ct : n == 1 ? (void *)cc->threads : sr_core_stacktrace_find_crash_thread(cc)), "the crash thread of the copy survives the original", "differs");
    }
    if (n > 1 || nl) nontrivial();
    if (cr.p) snap_free(&cr);
    sr_stacktrace_free(c);
    for (int i = 0; i < n; ++i) { snap_free(&s[i]); free_fields(k, fc[i]); }
}
static void t_lib(void)
{
    int n = 1 + rnd(4); bool sib = chance(60);
    struct sr_gdb_sharedlib *head = NULL, **tail = &head, *l;
    desc("library list of %d, siblings %d", n, sib);
    for (int i = 0; i < n; ++i) { l = *tail = sr_gdb_sharedlib_new(); l->from = gen_u64(); l->to = gen_u64(); l->symbols = rnd(4); l->soname = gen_str(); tail = &l->next; }
    vwhere_ = "library dup";
    struct sr_gdb_sharedlib *c = sr_gdb_sharedlib_dup(head, sib), *o = head, *x = c;
    for (int i = 0; i < (sib ? n : 1); ++i, o = o->next, x = x->next) {
        CHECK(x && x != o && (!x->soname || x->soname != o->soname), "the copy shares no memory", "library %d", i);
        CHECK(x->from == o->from && x->to == o->to && x->symbols == o->symbols && !g_strcmp0(x->soname, o->soname), "a duplicated library is equal", "library %d", i);
    }
    CHECK(!x, "the library list is duplicated", "too long");
    int m = 0; for (o = head; o; o = o->next) ++m;
    CHECK(m == n, "the original is unchanged", "%d libraries", m);
    while (head) { l = head->next; sr_gdb_sharedlib_free(head); head = l; }
    while (c) { l = c->next; sr_gdb_sharedlib_free(c); c = l; }
    if (n > 1) nontrivial();
}
static void run_case(void)
{
    gen_variety = 2 + rnd(20);
    switch (rnd(8)) {
    case 0: case 1: t_frames(); break;
    case 2: case 3: t_threads(); break;
    case 4: t_single(); break;
    case 5: case 6: t_multi(); break;
    default: t_lib();
    }
}

#include "common.h"
#include "gen.h"
#include "internal_utils.h"

typedef bool (*rm_fn)(void *, void *);
static rm_fn concrete(int k, int above)
{
    switch (k) {
    case K_GDB: return above ? (rm_fn)sr_gdb_thread_remove_frames_above : (rm_fn)sr_gdb_thread_remove_frame;
    case K_JAVA: return above ? (rm_fn)sr_java_thread_remove_frames_above : (rm_fn)sr_java_thread_remove_frame;
    case K_KOOPS: return above ? NULL : (rm_fn)sr_koops_stacktrace_remove_frame;
    }
    return NULL;
}
/* the list must consist of exactly the kept elements of the snapshot, same objects, same order, same contents */
static void same(int k, void *head, snap_t *s, int lo, int hi, int skip, const char *what)
{
    for (int i = lo; i < hi; ++i) {
        if (i == skip) continue;
        CHECK(head, what, "the list ends before original element %d", i);
        CHECK(head == s->p[i], what, "element %d of the original list is not where it should be", i);
        const fld *f = fields_differ(head, s->c[i], KIND[k].f);
        CHECK(!f, what, "field %s of element %d changed", f->name, i);
        head = NEXT(k, head);
    }
    CHECK(!head, what, "the list has more elements than it should");
}
static void t_remove(void)
{
    int k = rnd(7), n = chance(10) ? 0 : 1 + rnd(6);
    void *t = gen_thread(k, n), *other = gen_frame(k);
    int above = chance(50), viagen = chance(60);
    rm_fn f = viagen ? NULL : concrete(k, above);
    int pos = chance(20) || !n ? -1 : (int)rnd(n);
    void *fr = other;
    if (pos >= 0) { fr = FRAMES(k, t); for (int i = 0; i < pos; ++i) fr = NEXT(k, fr); }
    else if (n && chance(50)) { free_frame1(k, other); fr = other = clone_frame(k, FRAMES(k, t)); }   /* equal, but not in the list */
    snap_t s = snap_frames(k, FRAMES(k, t));
    desc("%s %s element %d of %d (%s): %s", KIND[k].name, above ? "remove everything above" : "remove", pos, n, f ? "concrete" : "generic", show_frames(k, FRAMES(k, t)));
    vwhere_ = "removal";
    bool r = f ? f(t, fr) : above ? sr_thread_remove_frames_above((struct sr_thread *)t, (struct sr_frame *)fr) : sr_thread_remove_frame((struct sr_thread *)t, (struct sr_frame *)fr);
    CHECK(r == (pos >= 0), "removal reports whether the frame was found", "returned %d", r);
    if (pos < 0) same(k, FRAMES(k, t), &s, 0, n, -1, "nothing is removed when the frame is absent");
    else if (above) same(k, FRAMES(k, t), &s, pos, n, -1, "exactly the frames above are removed");
    else same(k, FRAMES(k, t), &s, 0, n, pos, "exactly the frame is removed");
    int left = pos < 0 ? n : above ? n - pos : n - 1;
    CHECK(sr_thread_frame_count((struct sr_thread *)t) == left, "frame count", "%d expected %d", sr_thread_frame_count((struct sr_thread *)t), left);
    CHECK(sr_thread_frames((struct sr_thread *)t) == FRAMES(k, t), "generic access to the frames", "differs");
    if (n > 1) nontrivial();
    free_thread1(k, t); free_frame1(k, other); snap_free(&s);
}
static void t_below(void)
{
    int k = chance(50) ? K_GDB : K_JAVA, n = rnd(7), keep = rnd(9);
    void *t = gen_thread(k, n);
    snap_t s = snap_frames(k, FRAMES(k, t));
    desc("%s keep the first %d of %d", KIND[k].name, keep, n);
    vwhere_ = "remove_frames_below_n";
    if (k == K_GDB) sr_gdb_thread_remove_frames_below_n(t, keep); else sr_java_thread_remove_frames_below_n(t, keep);
    same(k, FRAMES(k, t), &s, 0, keep < n ? keep : n, -1, "exactly the first n frames stay");
    if (n) nontrivial();
    free_thread1(k, t); snap_free(&s);
}
static void t_append(void)
{
    int k = rnd(7), n = rnd(6), m = rnd(4);
    void *a = gen_frames(k, n), *b = gen_frames(k, m);
    snap_t s = snap_frames(k, a), u = snap_frames(k, b);
    desc("%s append %d frames to %d", KIND[k].name, m, n);
    void *(*const FN[7])() = { (void *)sr_core_frame_append, (void *)sr_gdb_frame_append, (void *)sr_java_frame_append, (void *)sr_koops_frame_append, (void *)sr_python_frame_append, (void *)sr_ruby_frame_append, (void *)sr_js_frame_append };
    vwhere_ = "append";
    void *r = FN[k](a, b);
    CHECK(r == (n ? a : b), "append returns the head", "wrong result");
    void *p = r;
    for (int i = 0; i < n; ++i) { CHECK(p == s.p[i] && !fields_differ(p, s.c[i], KIND[k].f), "append keeps the list", "element %d", i); p = NEXT(k, p); }
    same(k, p, &u, 0, m, -1, "the appended frames follow");
    if (n && m) nontrivial();
    free_list(k, r); snap_free(&s); snap_free(&u);
}
/* thread lists: append, count, keep one, limit depth, find */
static void t_threads(void)
{
    int k = PICK(((int[]){ K_GDB, K_CORE, K_JAVA })), n = rnd(6);
    void *head = NULL, *th[8]; snap_t s[8];
#define TNEXT(p) AT(p, KIND[k].tnext, void *)
    void *(*const AP[3])() = { (void *)sr_core_thread_append, (void *)sr_gdb_thread_append, (void *)sr_java_thread_append };
    vwhere_ = "thread append";
    desc("%s thread list of %d", KIND[k].name, n);
    for (int i = 0; i < n; ++i) {
        th[i] = gen_thread(k, rnd(5)); s[i] = snap_frames(k, FRAMES(k, th[i]));
        void *h = AP[k](head, th[i]);
        CHECK(h == (i ? head : th[0]), "append returns the head", "thread %d", i);
        head = h;
    }
    void *p = head;
    for (int i = 0; i < n; ++i, p = TNEXT(p)) CHECK(p == th[i], "appended threads are in order", "thread %d", i);
    CHECK(!p, "appended threads are in order", "list is too long");
    int only = -1;
    struct sr_core_stacktrace *cs = NULL; struct sr_gdb_stacktrace *gs = NULL; struct sr_java_stacktrace *js = NULL;
    void *st;
    if (k == K_CORE) { st = cs = sr_core_stacktrace_new(); cs->threads = head; }
    else if (k == K_GDB) { st = gs = sr_gdb_stacktrace_new(); gs->threads = head; }
    else { st = js = sr_java_stacktrace_new(); js->threads = head; }
    CHECK(sr_stacktrace_threads(st) == head, "generic access to the threads", "differs");
    if (cs) { CHECK(sr_core_stacktrace_get_thread_count(cs) == n, "thread count", "%d expected %d", sr_core_stacktrace_get_thread_count(cs), n); }
    if (gs) {
        CHECK(sr_gdb_stacktrace_get_thread_count(gs) == n, "thread count", "%d expected %d", sr_gdb_stacktrace_get_thread_count(gs), n);
        int depth = 1 + rnd(5); bool lim = chance(50);
        if (lim) { vwhere_ = "limit_frame_depth"; desc("gdb stack trace with %d threads, frame depth %d", n, depth); sr_gdb_stacktrace_limit_frame_depth(gs, depth); }
        for (int i = 0; i < n; ++i) same(k, FRAMES(k, th[i]), &s[i], 0, lim && depth < s[i].n ? depth : s[i].n, -1, "limiting the depth keeps the first frames of every thread");
        if (n && chance(70)) {
            only = rnd(n);
            vwhere_ = "remove_threads_except_one"; desc("gdb stack trace with %d threads, keep thread %d", n, only);
            sr_gdb_stacktrace_remove_threads_except_one(gs, th[only]);
            CHECK(gs->threads == th[only] && !gs->threads->next, "exactly the chosen thread stays", "thread %d of %d", only, n);
            same(k, FRAMES(k, th[only]), &s[only], 0, lim && depth < s[only].n ? depth : s[only].n, -1, "the chosen thread is unchanged");
        }
        nontrivial();
    }
    if (k == K_JAVA && n) {
        struct sr_java_frame *jf = AT(th[0], KIND[k].tframes, struct sr_java_frame *);
        CHECK(sr_java_frame_get_last(jf) == (s[0].n ? s[0].p[s[0].n - 1] : NULL), "last frame", "%d frames", s[0].n);
    }
    vwhere_ = "freeing"; 
    sr_stacktrace_free(st);                                        /* ASan: everything freed exactly once */
    for (int i = 0; i < n; ++i) snap_free(&s[i]);
}
static void t_other(void)
{
    int n = rnd(5);
    struct sr_gdb_sharedlib *l = NULL, *lp[5]; struct sr_rpm_package *p = NULL, *pp[5];
    desc("library and package lists of %d", n);
    for (int i = 0; i < n; ++i) {
        lp[i] = sr_gdb_sharedlib_new(); l = sr_gdb_sharedlib_append(l, lp[i]);
        pp[i] = sr_rpm_package_new(); p = sr_rpm_package_append(p, pp[i]);
    }
    CHECK(sr_gdb_sharedlib_count(l) == n, "library count", "%d", sr_gdb_sharedlib_count(l));
    CHECK(sr_rpm_package_count(p) == n, "package count", "%d", sr_rpm_package_count(p));
    struct sr_gdb_sharedlib *li = l; struct sr_rpm_package *pi = p;
    for (int i = 0; i < n; ++i, li = li->next, pi = pi->next) CHECK(li == lp[i] && pi == pp[i], "order of libraries and packages", "element %d", i);
    while (l) { li = l->next; sr_gdb_sharedlib_free(l); l = li; }
    sr_rpm_package_free(p, true);
}
static void run_case(void)
{
    gen_variety = 2 + rnd(8);
    switch (rnd(10)) {
    case 0: case 1: case 2: case 3: t_remove(); break;
    case 4: case 5: t_below(); break;
    case 6: t_append(); break;
    case 7: case 8: t_threads(); break;
    default: t_other();
    }
}

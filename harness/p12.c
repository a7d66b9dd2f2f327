#include "common.h"
#include "gen.h"
#include "distance.h"
#include <math.h>
#include <float.h>

/* the matching of two frames, as sr_frame_cmp_distance reports it (its rules are property P09's matter) */
#define MAXN 320   /* most threads are short (SMALL), one in sixty is long */
#define SMALL 12
static bool M(void *a, void *b) { return sr_frame_cmp_distance((struct sr_frame *)a, (struct sr_frame *)b) == 0; }
static int nth(int k, void *t, void **f) { int n = 0; for (void *p = FRAMES(k, t); p; p = NEXT(k, p)) f[n++] = p; return n; }

/* textbook edit distance (optimal string alignment when tr), all four operations considered */
static int edit(void **a, int n, void **b, int m, bool tr)
{
    static int D[MAXN + 1][MAXN + 1];
    for (int i = 0; i <= n; ++i) for (int j = 0; j <= m; ++j) {
        if (!i || !j) { D[i][j] = i + j; continue; }
        int c = !M(a[i - 1], b[j - 1]), v = D[i - 1][j - 1] + c;
        if (D[i - 1][j] + 1 < v) v = D[i - 1][j] + 1;
        if (D[i][j - 1] + 1 < v) v = D[i][j - 1] + 1;
        if (tr && i > 1 && j > 1 && M(a[i - 1], b[j - 2]) && M(a[i - 2], b[j - 1]) && D[i - 2][j - 2] + c < v) v = D[i - 2][j - 2] + c;
        D[i][j] = v;
    }
    return D[n][m];
}
/* number of different frames: frames that match a later one of the same thread count once */
static int distinct(void **a, int n, void **in, int m, int *common)
{
    int d = 0;
    for (int i = 0; i < n; ++i) {
        bool later = false, found = false;
        for (int j = i + 1; j < n; ++j) later |= M(a[j], a[i]);
        if (later) continue;
        ++d;
        for (int j = 0; j < m; ++j) found |= M(in[j], a[i]);
        if (common && found) ++*common;
    }
    return d;
}
static bool equivalence(void **a, int n)   /* symmetric and transitive */
{
    if (n > 4 * SMALL) return false;
    for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) {
        if (M(a[i], a[j]) != M(a[j], a[i])) return false;
        if (M(a[i], a[j])) for (int k = 0; k < n; ++k) if (M(a[j], a[k]) && !M(a[i], a[k])) return false;
    }
    return true;
}
/* the similarity as the code documents it */
static double jaro(void **a, int n, void **b, int m)
{
    if (!n && !m) return 1;
    int mx = n > m ? n : m, win = mx / 2 - 1, match = 0, moved = 0, pre = 0; bool still = true;
    for (int i = 0; i < n; ++i) {
        int hit = -1;
        for (int j = 0; j < m && hit < 0; ++j) if (abs(i - j) <= win && M(a[i], b[j])) hit = j;
        /* the common prefix is only compared while no match has been found earlier in the other thread */
        if (i < m && (hit < 0 || hit >= i) && !M(a[i], b[i])) still = false;
        if (still) ++pre;
        if (hit >= 0) { ++match; moved += hit != i; }
    }
    if (!match) return 0;
    if (pre > 4) pre = 4;
    double j = (match / (double)n + match / (double)m + (match - moved / 2.0) / match) / 3;
    return j + pre * 0.2 * (1 - j);
}
static void run_case(void)
{
    int k = rnd(7);
    gen_variety = 1 + rnd(5);
    gen_nul = chance(30) ? 60 : 15;
    bool lng = rnd(60) == 0;
    int cap = lng ? (chance(50) ? 60 : MAXN - 1) : SMALL - 1, n1 = rnd(cap), n2 = rnd(cap);
    void *t1 = gen_thread(k, n1), *t2;
    int mode = rnd(4);
    if (mode) {   /* the second thread resembles the first: copied, then edited */
        void *list[2 * MAXN]; int n = 0;
        for (void *p = FRAMES(k, t1); p; p = NEXT(k, p)) list[n++] = clone_frame(k, p);
        for (int e = mode == 1 ? 0 : rnd(4); e; --e) {
            int x = n ? rnd(n) : 0, what = rnd(4);
            if (what == 0 && n < cap - 1) { for (int j = n; j > x; --j) list[j] = list[j - 1]; list[x] = gen_frame(k); ++n; }
            else if (what == 1 && n) { free_frame1(k, list[x]); for (int j = x; j < n - 1; ++j) list[j] = list[j + 1]; --n; }
            else if (what == 2 && n > 1 && x < n - 1) { void *h = list[x]; list[x] = list[x + 1]; list[x + 1] = h; }
            else if (n) { free_frame1(k, list[x]); list[x] = gen_frame(k); }
        }
        t2 = gen_thread(k, 0);
        void **tail = &AT(t2, KIND[k].tframes, void *);
        for (int i = 0; i < n; ++i) { *tail = list[i]; tail = &NEXT(k, list[i]); }
        *tail = NULL; n2 = n;
    } else t2 = gen_thread(k, n2);
    void *a[MAXN + 2], *b[MAXN + 2], *u[2 * MAXN + 4];
    n1 = nth(k, t1, a); n2 = nth(k, t2, b);
    memcpy(u, a, n1 * sizeof(*a)); memcpy(u + n1, b, n2 * sizeof(*b));
    bool eqv = equivalence(u, n1 + n2);
    snap_t s1 = snap_frames(k, FRAMES(k, t1)), s2 = snap_frames(k, FRAMES(k, t2));
    desc("%s threads of %d and %d frames: %s  |  %s", KIND[k].name, n1, n2, show_frames(k, FRAMES(k, t1)), show_frames(k, FRAMES(k, t2)));
    int mx = n1 > n2 ? n1 : n2;
    bool ident = n1 == n2;
    for (int i = 0; ident && i < n1; ++i) ident = M(a[i], b[i]);
    float d[SR_DISTANCE_NUM], r[SR_DISTANCE_NUM];
    for (int ty = 0; ty < SR_DISTANCE_NUM; ++ty) {
        vwhere_ = "sr_distance";
        d[ty] = sr_distance(ty, (struct sr_thread *)t1, (struct sr_thread *)t2);
        r[ty] = sr_distance(ty, (struct sr_thread *)t2, (struct sr_thread *)t1);
        CHECK(isfinite(d[ty]), "a distance is a number", "type %d: %g", ty, d[ty]);
        if (ty == SR_DISTANCE_JARO_WINKLER) continue;
        CHECK(d[ty] >= 0 && d[ty] <= 1, "distances lie in [0,1]", "type %d: %.9g", ty, d[ty]);
        if (ident && (ty != SR_DISTANCE_JACCARD || eqv)) CHECK(d[ty] == 0, "identical threads have distance 0", "type %d: %.9g", ty, d[ty]);
        if (eqv || ty != SR_DISTANCE_JACCARD) CHECK(d[ty] == r[ty], "distances are symmetric", "type %d: %.9g and %.9g", ty, d[ty], r[ty]);
    }
    for (int tr = 0; tr < 2; ++tr) {
        int e = edit(a, n1, b, n2, tr);
        float w = mx ? (float)e / mx : 0, g = d[tr ? SR_DISTANCE_DAMERAU_LEVENSHTEIN : SR_DISTANCE_LEVENSHTEIN];
        CHECK(g == w, tr ? "Damerau-Levenshtein distance" : "Levenshtein distance", "got %.9g, %d edits of %d frames make %.9g", g, e, mx, w);
    }
    int common = 0, c1 = distinct(a, n1, b, n2, &common), c2 = distinct(b, n2, NULL, 0, NULL), un = c1 + c2 - common;
    double w = un ? 1.0 - common / (double)un : 0;
    if (w < 0) w = 0;
    CHECK(fabs(d[SR_DISTANCE_JACCARD] - w) <= 2 * FLT_EPSILON, "Jaccard distance", "got %.9g, %d common of %d different frames make %.9g", d[SR_DISTANCE_JACCARD], common, un, w);
    if (eqv) { int all = distinct(u, n1 + n2, NULL, 0, NULL); CHECK(all == un, "harness", "union %d %d", all, un); }
    double jw = jaro(a, n1, b, n2);
    CHECK(fabs(d[SR_DISTANCE_JARO_WINKLER] - jw) <= 1e-5 * (1 + fabs(jw)), "Jaro-Winkler similarity", "got %.9g expected %.9g", d[SR_DISTANCE_JARO_WINKLER], jw);
    for (int q = 0; q < 2; ++q) {   /* nothing is modified */
        snap_t *s = q ? &s2 : &s1; void *fr = FRAMES(k, q ? t2 : t1);
        for (int i = 0; i < s->n; ++i, fr = NEXT(k, fr)) CHECK(fr == s->p[i] && !fields_differ(fr, s->c[i], KIND[k].f), "the threads are not modified", "frame %d", i);
        CHECK(!fr, "the threads are not modified", "longer");
    }
    int k2 = (k + 1 + rnd(6)) % 7;
    void *o = gen_thread(k2, rnd(3));
    CHECK(sr_distance(rnd(SR_DISTANCE_NUM), (struct sr_thread *)t1, (struct sr_thread *)o) == 1.0f, "threads of different types are unequal", "%s and %s", KIND[k].name, KIND[k2].name);
    free_thread1(k2, o);
    if (n1 > 1 && n2 > 1 && d[SR_DISTANCE_LEVENSHTEIN] > 0 && d[SR_DISTANCE_LEVENSHTEIN] < 1) nontrivial();
    free_thread1(k, t1); free_thread1(k, t2); snap_free(&s1); snap_free(&s2);
}

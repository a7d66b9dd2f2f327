#include "common.h"
#include "gen.h"
#include "distance.h"
#include "internal_utils.h"

static int pairs(int m, int n) { int c = 0; for (int i = 0; i < m; ++i) for (int j = i + 1; j < n; ++j) ++c; return c; }
static void dims(int *m, int *n) { *n = 2 + rnd(chance(80) ? 9 : 40); *m = 1 + rnd(*n + 2); }
static float val(void) { return chance(20) ? 0.0f : chance(20) ? 1.0f : (float)rnd(1000000) / 1000003.0f; }

static void t_matrix(void)
{
    int m, n; dims(&m, &n);
    struct sr_distances *d = sr_distances_new(m, n);
    int M = m >= n ? n - 1 : m;
    desc("matrix %d by %d", m, n);
    CHECK(d->m == M && d->n == n, "dimensions", "%d %d", d->m, d->n);
    float (*e)[48] = calloc(48, sizeof *e);
    for (int i = 0; i < M; ++i) for (int j = i + 1; j < n; ++j) { e[i][j] = val();  }
    for (int i = 0; i < M; ++i) for (int j = i + 1; j < n; ++j) { if (chance(50)) sr_distances_set_distance(d, i, j, e[i][j]); else sr_distances_set_distance(d, j, i, e[i][j]); }
    struct sr_distances *dup = NULL;
    float (*e2)[48] = malloc(48 * sizeof *e);
    for (int step = 0; step < 12; ++step) {
        if (step == 5) { dup = sr_distances_dup(d); memcpy(e2, e, 48 * sizeof *e); CHECK(dup->m == M && dup->n == n, "a copy has the same dimensions", "%d %d", dup->m, dup->n); }
        int i = rnd(M), j = i + 1 + rnd(n - i - 1);
        float v = val();
        desc("matrix %d by %d, set (%d,%d)", m, n, i, j);
        if (chance(50)) sr_distances_set_distance(d, i, j, v); else sr_distances_set_distance(d, j, i, v);
        e[i][j] = v;
        if (chance(20)) { int q = rnd(M); sr_distances_set_distance(d, q, q, 0.5f); }
        for (int a = 0; a < M; ++a) for (int b = a + 1; b < n; ++b) {
            CHECK(sr_distances_get_distance(d, a, b) == e[a][b], "a pair holds the last value set for it", "(%d,%d) is %f expected %f", a, b, sr_distances_get_distance(d, a, b), e[a][b]);
            CHECK(sr_distances_get_distance(d, b, a) == e[a][b], "a pair reads the same in either order", "(%d,%d)", b, a);
            if (dup) CHECK(sr_distances_get_distance(dup, a, b) == e2[a][b], "a copy is independent", "(%d,%d)", a, b);
        }
        for (int a = 0; a < n; ++a) CHECK(sr_distances_get_distance(d, a, a) == 0.0f, "distance to itself is 0", "(%d,%d)", a, a);
    }
    if (M > 1) nontrivial();
    sr_distances_free(d);
    if (dup) {
        for (int a = 0; a < M; ++a) for (int b = a + 1; b < n; ++b) CHECK(sr_distances_get_distance(dup, a, b) == e2[a][b], "a copy survives its original", "(%d,%d)", a, b);
        sr_distances_free(dup);
    }
    free(e); free(e2);
}
static void t_big(void)
{
    int n = 370 + rnd(300), m = n - 1 - rnd(5);
    struct sr_distances *d = sr_distances_new(m, n);
    desc("matrix %d by %d", m, n);
    for (int i = 0; i < m; ++i) for (int j = i + 1; j < n; ++j) sr_distances_set_distance(d, i, j, (float)((i * 31 + j * 7) % 1009));
    struct sr_distances *e = sr_distances_dup(d);
    for (int i = 0; i < m; ++i) for (int j = i + 1; j < n; ++j) {
        CHECK(sr_distances_get_distance(d, i, j) == (float)((i * 31 + j * 7) % 1009), "a pair holds the last value set for it", "(%d,%d)", i, j);
        CHECK(sr_distances_get_distance(e, i, j) == (float)((i * 31 + j * 7) % 1009), "a copy has the same values", "(%d,%d)", i, j);
    }
    sr_distances_free(d); sr_distances_free(e); nontrivial();
}
/* every split: consecutive parts, each pair exactly once */
static void t_split(void)
{
    int m, n; dims(&m, &n);
    int M = m >= n ? n - 1 : m, total = pairs(M, n);
    unsigned np = chance(60) ? 1 + rnd(total + 4) : 1 + rnd(9);
    desc("split %d by %d into %u parts", m, n, np);
    vwhere_ = "sr_distances_part_create";
    struct sr_distances_part *p = sr_distances_part_create(m, n, SR_DISTANCE_LEVENSHTEIN, np);
    int i = 0, j = 1; unsigned count = 0; size_t lo = SIZE_MAX, hi = 0;
    for (struct sr_distances_part *q = p; q; q = q->next, ++count) {
        CHECK(q->m == M && q->n == n && q->dist_type == SR_DISTANCE_LEVENSHTEIN, "every part carries the dimensions and the metric", "part %u: %d %d", count, q->m, q->n);
        CHECK(i < M, "the parts cover each pair once", "part %u begins after the last pair", count);
        CHECK(q->m_begin == i && q->n_begin == j, "each part begins where the previous one ended", "part %u begins at (%d,%d) expected (%d,%d)", count, q->m_begin, q->n_begin, i, j);
        CHECK(q->len > 0 && !q->distances, "parts are not empty", "part %u", count);
        for (size_t x = 0; x < q->len; ++x) { CHECK(i < M, "the parts cover each pair once", "part %u is too long", count); if (++j >= n) { ++i; j = i + 1; } }
        if (q->len < lo) lo = q->len;
        if (q->len > hi) hi = q->len;
    }
    CHECK(i == M, "the parts cover every pair", "they end at (%d,%d)", i, j);
    CHECK(count == (np < (unsigned)total ? np : (unsigned)total), "the number of parts is the requested one (or the number of pairs)", "%u", count);
    CHECK(hi - lo <= 1, "the parts have equal length", "%zu..%zu", lo, hi);
    if (count > 1) nontrivial();
    sr_distances_part_free(p, true);
}
static void t_merge(void)
{
    int k = chance(30) ? K_CORE : chance(30) ? K_GDB : rnd(7);
    int n = 2 + rnd(6), m = 1 + rnd(n + 1), M = m >= n ? n - 1 : m;
    enum sr_distance_type ty = rnd(3);
    struct sr_thread *t[8];
    gen_nul = 0;
    for (int i = 0; i < n; ++i) t[i] = gen_thread(k, rnd(5));
    gen_nul = 15;
    int shared = n > 2 && chance(25) ? 1 + rnd(n - 1) : -1;       /* the same thread twice */
    struct sr_thread *own = NULL;
    if (shared > 0) { own = t[shared]; t[shared] = t[rnd(shared)]; }
    unsigned np = 1 + rnd(pairs(M, n) + 2);
    desc("%s: %d by %d threads, metric %d, %u parts", KIND[k].name, m, n, ty, np);
    vwhere_ = "sr_threads_compare";
    struct sr_distances *all = sr_threads_compare(t, m, n, ty);
    CHECK(all && all->m == M && all->n == n, "dimensions of a comparison", "wrong");
    for (int i = 0; i < M; ++i) for (int j = i + 1; j < n; ++j) {
        struct sr_thread *two[2] = { t[i], t[j] };
        struct sr_distances *one = sr_threads_compare(two, 1, 2, ty);
        CHECK(sr_distances_get_distance(all, i, j) == sr_distances_get_distance(one, 0, 1), "each pair holds the distance of its two threads", "(%d,%d)", i, j);
        sr_distances_free(one);
    }
    vwhere_ = "sr_distances_part_compute";
    struct sr_distances_part *p = sr_distances_part_create(m, n, ty, np), *arr[64]; int c = 0;
    for (struct sr_distances_part *q = p; q; q = q->next) arr[c++] = q;
    for (int x = 0; x < c; ++x) { int y = rnd(c); struct sr_distances_part *h = arr[x]; arr[x] = arr[y]; arr[y] = h; }      /* any order */
    if (chance(20)) {      /* computed from other threads before */
        struct sr_thread *rev[8];
        for (int i = 0; i < n; ++i) rev[i] = t[n - 1 - i];
        int x = rnd(c);
        sr_distances_part_compute(arr[x], rev);
        float *old = arr[x]->distances;
        sr_distances_part_compute(arr[x], t);
        if (arr[x]->distances != old) g_free(old);
    }
    for (int x = 0; x < c; ++x) if (!arr[x]->distances) sr_distances_part_compute(arr[x], t);
    if (chance(50)) { for (int x = 0; x < c; ++x) arr[x]->next = x + 1 < c ? arr[x + 1] : NULL; p = arr[0]; }
    vwhere_ = "sr_distances_part_merge";
    struct sr_distances *mg = sr_distances_part_merge(p);
    CHECK(mg && mg->m == M && mg->n == n, "the parts of one comparison merge", "%s", mg ? "dimensions" : "NULL");
    for (int i = 0; i < M; ++i) for (int j = i + 1; j < n; ++j)
        CHECK(sr_distances_get_distance(mg, i, j) == sr_distances_get_distance(all, i, j), "merged parts equal the direct comparison", "(%d,%d): %f expected %f", i, j, sr_distances_get_distance(mg, i, j), sr_distances_get_distance(all, i, j));
    sr_distances_free(mg);
    /* parts that do not belong together are refused */
    int x = rnd(c), kind = rnd(4); struct sr_distances_part *q = arr[x]; float *keep = q->distances; uint32_t ck = q->checksum; int qm = q->m, qn = q->n;
    if (kind == 0) q->distances = NULL; else if (c > 1 && kind == 1) q->checksum ^= 1u << rnd(32); else if (c > 1 && kind == 2) q->m++; else if (c > 1 && kind == 3) q->n++; else q = NULL;
    if (q) CHECK((mg = sr_distances_part_merge(p)) == NULL, "parts that do not belong together are refused", "part %d, kind %d", x, kind);
    if (q) { q->distances = keep; q->checksum = ck; q->m = qm; q->n = qn; }
    CHECK(sr_distances_part_merge(NULL) == NULL, "nothing to merge", "result");
    if (c > 1) nontrivial();
    sr_distances_free(all); sr_distances_part_free(p, true);
    if (own) t[shared] = own;
    for (int i = 0; i < n; ++i) free_thread1(k, t[i]);
}
static void run_case(void)
{
    if (vcase_ % 4000 == 77) { t_big(); return; }
    switch (rnd(3)) { case 0: t_matrix(); break; case 1: t_split(); break; default: t_merge(); }
}

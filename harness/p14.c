#include "common.h"
#include "distance.h"
#include "cluster.h"

static float lev(void) { return chance(40) ? (float)rnd(6) / 5 : (float)rnd(1000000) / 1000003.0f; }

/* average linkage on the full matrix, independently: merges in order; returns false when two candidates are too close to call */
static int cl_of[64][64];         /* cl_of[s][x]: cluster of object x after s merges */
static double mlev[64];
static bool upgma(float d[64][64], int n)
{
    double w[64][64]; int size[64], id[64];
    for (int i = 0; i < n; ++i) { size[i] = 1; id[i] = i; cl_of[0][i] = i; for (int j = 0; j < n; ++j) w[i][j] = d[i][j]; }
    for (int s = 1; s < n; ++s) {
        double best = 1e9, second = 1e9; int a = -1, b = -1;
        for (int i = 0; i < n; ++i) for (int j = i + 1; j < n; ++j) if (size[i] && size[j]) {
            if (w[i][j] < best) { second = best; best = w[i][j]; a = i; b = j; }
            else if (w[i][j] < second) second = w[i][j];
        }
        if (second - best < 1e-4) return false;
        mlev[s] = best;
        for (int k = 0; k < n; ++k) if (size[k] && k != a && k != b) w[k][a] = w[a][k] = (w[a][k] * size[a] + w[b][k] * size[b]) / (size[a] + size[b]);
        size[a] += size[b]; size[b] = 0;
        for (int x = 0; x < n; ++x) cl_of[s][x] = cl_of[s - 1][x] == b ? a : cl_of[s - 1][x];
    }
    (void)id;
    return true;
}
static void check_cut(struct sr_dendrogram *g, float level, int min, const char *what)
{
    int n = g->size;
    vwhere_ = "sr_dendrogram_cut";
    int *o0 = g_memdup2(g->order, n * sizeof(int)); float *m0 = n > 1 ? g_memdup2(g->merge_levels, (n - 1) * sizeof(float)) : NULL;
    struct sr_cluster *c = sr_dendrogram_cut(g, level, min), *nx;
    CHECK(!memcmp(o0, g->order, n * sizeof(int)) && (n < 2 || !memcmp(m0, g->merge_levels, (n - 1) * sizeof(float))), "cutting does not change the dendrogram", "%s", what);
    /* groups expected, last first */
    int end = n - 1;
    while (end >= 0) {
        int first = end;
        while (first > 0 && m0[first - 1] <= level) --first;
        if (end - first + 1 >= min) {
            CHECK(c, "every maximal group appears", "%s: group %d..%d missing (level %f, at least %d)", what, first, end, level, min);
            CHECK(c->size == end - first + 1, "group size", "%s: %d instead of %d", what, c->size, end - first + 1);
            for (int i = 0; i < c->size; ++i) CHECK(c->objects[i] == o0[first + i], "group members in order", "%s: member %d of %d..%d", what, i, first, end);
            nx = c->next; sr_cluster_free(c); c = nx;
        }
        end = first - 1;
    }
    CHECK(!c, "no other groups", "%s: extra group of %d", what, c ? c->size : 0);
    g_free(o0); g_free(m0);
}
static void t_cluster(void)
{
    int n = 2 + rnd(rnd(12) == 0 ? 60 : 12), m = chance(60) ? n - 1 : 1 + rnd(n - 1), kind = rnd(4);
    struct sr_distances *d = sr_distances_new(m, n);
    static float v[64][64];
    for (int i = 0; i < n; ++i) for (int j = i + 1; j < n; ++j) {
        v[i][j] = v[j][i] = kind == 0 ? lev() : kind == 1 ? (float)rnd(3) / 2 : kind == 2 ? 1.0f : (float)rnd(100000000) / 100000000.0f;
        if (i < m) sr_distances_set_distance(d, i, j, v[i][j]);
    }
    desc("%d objects, %d rows, kind %d", n, m, kind);
    struct sr_distances *copy = sr_distances_dup(d);
    vwhere_ = "sr_distances_cluster_objects";
    struct sr_dendrogram *g = sr_distances_cluster_objects(d);
    CHECK(g && g->size == n, "one entry per object", "size %d", g ? g->size : -1);
    int seen[64] = { 0 };
    for (int i = 0; i < n; ++i) {
        CHECK(g->order[i] >= 0 && g->order[i] < n && !seen[g->order[i]], "every object once", "entry %d is %d", i, g->order[i]);
        seen[g->order[i]] = 1;
    }
    float lo = 2, hi = -1;
    for (int i = 0; i < n; ++i) for (int j = i + 1; j < n; ++j) if (i < m) { if (v[i][j] < lo) lo = v[i][j]; if (v[i][j] > hi) hi = v[i][j]; }
    float best = 2;
    for (int i = 0; i + 1 < n; ++i) {
        CHECK(g->merge_levels[i] >= lo - 1e-5 && g->merge_levels[i] <= hi + 1e-5, "merge levels are averages of distances", "level %d is %f, distances are %f..%f", i, g->merge_levels[i], lo, hi);
        if (g->merge_levels[i] < best) best = g->merge_levels[i];
    }
    CHECK(best == lo, "the closest pair is merged at its distance", "%f instead of %f", best, lo);
    for (int i = 0; i < m; ++i) for (int j = i + 1; j < n; ++j) CHECK(sr_distances_get_distance(d, i, j) == sr_distances_get_distance(copy, i, j), "the matrix is not modified", "(%d,%d)", i, j);
    if (m == n - 1 && kind == 3 && upgma(v, n)) {
        nontrivial();
        /* the dendrogram must have the same clusters at every level between two merges */
        for (int s = 0; s < n; ++s) {
            double below = s ? mlev[s] : -1, above = s + 1 < n ? mlev[s + 1] : 2;
            if (above - below < 1e-4) continue;
            double cut = (below + above) / 2;
            for (int i = 0; i + 1 < n; ++i)
                CHECK((g->merge_levels[i] <= cut) == (cl_of[s][g->order[i]] == cl_of[s][g->order[i + 1]]), "neighbours are joined at the level their clusters merge",
                      "objects %d and %d at level %f (%d merges)", g->order[i], g->order[i + 1], cut, s);
        }
    }
    for (int i = 0; i < 3; ++i) check_cut(g, chance(50) ? g->merge_levels[rnd(n - 1)] : lev(), chance(50) ? 1 : rnd(5), "clustered");
    sr_dendrogram_free(g);
    sr_distances_free(d); sr_distances_free(copy);
}
static void t_cut(void)
{
    int n = 2 + rnd(rnd(20) == 0 ? 300 : 14);
    struct sr_dendrogram *g = sr_dendrogram_new(n);
    CHECK(g->size == n, "dendrogram size", "%d", g->size);
    for (int i = 0; i < n; ++i) g->order[i] = chance(80) ? i : (int)rnd(100) - 10;
    for (int i = 0; i + 1 < n; ++i) g->merge_levels[i] = lev();
    float level = chance(10) ? -1.0f : chance(10) ? 2.0f : chance(50) ? g->merge_levels[rnd(n - 1)] : lev();
    int min = chance(10) ? -(int)rnd(3) : rnd(6);
    desc("%d objects, cut at %f, at least %d", n, level, min);
    check_cut(g, level, min, "given");
    nontrivial();
    sr_dendrogram_free(g);
}
static void run_case(void)
{
    if (chance(50)) t_cluster(); else t_cut();
}

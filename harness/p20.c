#include "common.h"
#include "utils.h"
#include "report.h"
#include "report_type.h"
#include "thread.h"

static void t_struniq(void)
{
    static const char *W[] = { "", "a", "b", "ab", "a ", "A", "aa", "\xff" };
    size_t n = chance(10) ? rnd(60) : rnd(9), kinds = 1 + rnd(8);
    char **a = malloc(n * sizeof *a + 1), **o = malloc(n * sizeof *o + 1);
    char d[600] = ""; 
    for (size_t i = 0; i < n; ++i) {
        const char *w = i && chance(35) ? o[i - 1] : W[rnd(kinds)];
        o[i] = a[i] = chance(85) ? exact(w) : (i ? a[rnd(i)] : exact(w));   /* sometimes the very same pointer */
        if (strlen(d) < 500) { strcat(d, o[i]); strcat(d, "|"); }
    }
    desc("struniq n=%zu %s", n, show(d));
    size_t m = n;
    sr_struniq(a, &m);
    size_t e = 0;
    for (size_t i = 0; i < n; ++i)
        if (!i || strcmp(o[i], o[i - 1])) {
            CHECK(e < m, "sr_struniq: one entry per run", "size %zu too small", m);
            CHECK(!strcmp(a[e], o[i]), "sr_struniq: runs in order", "entry %zu is %s, expected %s", e, show(a[e]), show(o[i]));
            bool mine = false;
            for (size_t k = i; k < n && !strcmp(o[k], o[i]); ++k) mine |= a[e] == o[k];
            CHECK(mine, "sr_struniq: keeps one of the run", "entry %zu is not a pointer of its run", e);
            ++e;
        }
    CHECK(m == e, "sr_struniq: size", "%zu expected %zu", m, e);
    if (m < n) nontrivial();
    free(a); free(o);
}

static void t_hex(void)
{
    int n = rnd(chance(20) ? 400 : 20);
    char *s = malloc(n + 1), *d = malloc(2 * n + 3);
    for (int i = 0; i < n; ++i) s[i] = rnd(256);
    s = realloc(s, n ? n : 1);
    memset(d, 'Q', 2 * n + 3);
    desc("bin2hex count=%d %s", n, show_n(s, n));
    char *r = sr_bin2hex(d, s, n);
    CHECK(r == d + 2 * n, "sr_bin2hex: end", "returned offset %td expected %d", r - d, 2 * n);
    for (int i = 0; i < n; ++i) {
        char b[3]; snprintf(b, 3, "%02x", (unsigned char)s[i]);
        CHECK(d[2 * i] == b[0] && d[2 * i + 1] == b[1], "sr_bin2hex: digits", "byte %d (%s): %c%c", i, b, d[2 * i], d[2 * i + 1]);
    }
    CHECK(d[2 * n] == 'Q', "sr_bin2hex: writes only the digits", "wrote past the digits");
    free(s); free(d);
}

static void t_types(void)
{
    static const char *N[] = { "invalid", "core", "python", "kerneloops", "java", "gdb", "ruby", "javascript" };
    static const int C[] = { SR_REPORT_INVALID, SR_REPORT_CORE, SR_REPORT_PYTHON, SR_REPORT_KERNELOOPS, SR_REPORT_JAVA, SR_REPORT_GDB, SR_REPORT_RUBY, SR_REPORT_JAVASCRIPT };
    unsigned i = rnd(8);
    desc("type %u", i);
    char *s = sr_report_type_to_string(C[i]);
    CHECK(s && !strcmp(s, N[i]), "sr_report_type_to_string", "%s expected %s", show(s), N[i]);
    CHECK(sr_report_type_from_string(s) == C[i], "sr_report_type_from_string", "%s is not read back", s);
    s[0] = s[0];
    g_free(s);
    int bad = chance(50) ? SR_REPORT_NUM + (int)rnd(100000) : -1 - (int)rnd(100000);
    desc("type code %d", bad);
    s = sr_report_type_to_string(bad);
    CHECK(s && !strcmp(s, "invalid"), "sr_report_type_to_string of an unknown code", "%s", show(s));
    g_free(s);
    char b[32]; snprintf(b, 32, "%s", N[rnd(8)]);
    size_t l = strlen(b);
    switch (rnd(5)) {
    case 0: b[rnd(l)] ^= 32; break;
    case 1: b[l - 1] = 0; break;
    case 2: strcat(b, "x"); break;
    case 3: memmove(b, b + 1, l); break;
    case 4: b[0] = 0; break;
    }
    int e = SR_REPORT_INVALID;
    for (unsigned k = 0; k < 8; ++k) if (!strcmp(b, N[k])) e = C[k];
    char *x = exact(b);
    desc("type name %s", show(x));
    CHECK(sr_report_type_from_string(x) == e, "sr_report_type_from_string of another name", "%s -> %d", x, sr_report_type_from_string(x));
    CHECK(sr_report_type_from_string(NULL) == SR_REPORT_INVALID, "sr_report_type_from_string(NULL)", "not invalid");
    free(x);
}

static void run_case(void)
{
    switch (rnd(3)) { case 0: t_struniq(); break; case 1: t_hex(); break; default: t_types(); }
}

#include "common.h"
#include "location.h"
#include "utils.h"

static const char *ALPHA[] = { "ab\n", "a\n \t", "abc\nxyz \n\r", "\n", "aab\n\n", "a\xff\x80\nb" };

static char *gen(unsigned maxlen)
{
    const char *al = PICK(ALPHA);
    unsigned n = rnd(chance(10) ? 4 * maxlen : maxlen), m = strlen(al);
    char *s = malloc(n + 1);
    for (unsigned i = 0; i < n; ++i) s[i] = al[rnd(m)];
    s[n] = 0;
    return s;
}
/* position after n characters, counted from (l0,c0) */
static void ref(const char *s, size_t n, int l0, int c0, int *l, int *c)
{
    size_t k = 0, since = 0; bool any = false;
    *l = l0;
    for (k = 0; k < n; ++k) { if (s[k] == '\n') { ++*l; since = 0; any = true; } else ++since; }
    *c = any ? (int)since : c0 + (int)since;
}

static void run_case(void)
{
    char *s = gen(24); size_t n = strlen(s);
    int l, c, rl, rc;
    struct sr_location loc, L1;
    desc("text=%s", show(s));
    /* character by character, from the initial location */
    sr_location_init(&loc);
    CHECK(loc.line == 1 && loc.column == 0 && !loc.message, "initial location", "line=%d col=%d", loc.line, loc.column);
    int el = 1, ec = 0;
    for (size_t i = 0; i < n; ++i) {
        sr_location_eat_char(&loc, s[i]);
        sr_location_eat_char_ext(&el, &ec, s[i]);
        ref(s, i + 1, 1, 0, &rl, &rc);
        CHECK(loc.line == rl && loc.column == rc, "sr_location_eat_char", "after %zu chars: %d:%d expected %d:%d", i + 1, loc.line, loc.column, rl, rc);
        CHECK(el == rl && ec == rc, "sr_location_eat_char_ext", "after %zu chars: %d:%d expected %d:%d", i + 1, el, ec, rl, rc);
    }
    /* chunking: split at k, add the location of the second chunk to the location of the first */
    for (int rep = 0; rep < 3; ++rep) {
        size_t k = rnd(n + 1);
        int al, ac, bl, bc;
        int l0 = 1 + rnd(5), c0 = rnd(5);
        if (chance(10)) { l0 = INT_MAX / 2; c0 = INT_MAX / 2; }
        ref(s, k, l0, c0, &al, &ac);
        ref(s + k, n - k, 1, 0, &bl, &bc);
        ref(s, n, l0, c0, &rl, &rc);
        L1.line = al; L1.column = ac; L1.message = "keep";
        sr_location_add(&L1, bl, bc);
        CHECK(L1.line == rl && L1.column == rc && L1.message && !strcmp(L1.message, "keep"), "sr_location_add", "split at %zu: %d:%d expected %d:%d", k, L1.line, L1.column, rl, rc);
        l = al; c = ac;
        sr_location_add_ext(&l, &c, bl, bc);
        CHECK(l == rl && c == rc, "sr_location_add_ext", "split at %zu: %d:%d expected %d:%d", k, l, c, rl, rc);
    }
    /* character search */
    for (int rep = 0; rep < 2; ++rep) {
        int ch = chance(15) ? 0 : chance(20) ? '\n' : n ? s[rnd(n)] : 'q';
        l = c = -7;
        char *e = strchr(s, ch), *r = sr_strchr_location(s, ch, &l, &c);
        CHECK(r == e, "sr_strchr_location result", "char %d: offset %td expected %td", ch, r ? r - s : -1, e ? e - s : -1);
        ref(s, e ? e - s : n, 1, 0, &rl, &rc);
        CHECK(l == rl && c == rc, "sr_strchr_location position", "char %d: %d:%d expected %d:%d", ch, l, c, rl, rc);
    }
    /* substring search */
    for (int rep = 0; rep < 2; ++rep) {
        char nd[8]; size_t k = n ? rnd(n) : 0, m = rnd(5);
        if (n && chance(75)) { snprintf(nd, sizeof nd, "%.*s", (int)m, s + k); if (chance(20) && *nd) nd[strlen(nd) - 1] = 'z'; }
        else { char *g = gen(4); snprintf(nd, 5, "%s", g); free(g); }
        char *ned = exact(nd);
        desc("text=%s needle=%s", show(s), show(ned));
        l = c = -7;
        char *e = strstr(s, ned), *r = sr_strstr_location(s, ned, &l, &c);
        CHECK(r == e, "sr_strstr_location result", "offset %td expected %td", r ? r - s : -1, e ? e - s : -1);
        if (e) {
            ref(s, e - s, 1, 0, &rl, &rc);
            CHECK(l == rl && c == rc, "sr_strstr_location position", "%d:%d expected %d:%d", l, c, rl, rc);
            if (e > s) nontrivial();
        }
        free(ned);
    }
    /* span */
    {
        const char *set = PICK(((const char *[]){ "ab\n", "\n", "a \n", "", "abc\nxyz \r", "b" }));
        desc("text=%s set=%s", show(s), show(set));
        size_t e = strspn(s, set);
        ref(s, e, 1, 0, &rl, &rc);
        l = c = -7;
        size_t r = sr_strspn_location(s, set, &l, &c);
        CHECK(r == e && l == rl && c == rc, "sr_strspn_location", "%zu at %d:%d expected %zu at %d:%d", r, l, c, e, rl, rc);
        const char *p = s; l = c = -7;
        int r2 = sr_skip_char_span_location(&p, set, &l, &c);
        CHECK(r2 == (int)e && p == s + e && l == rl && c == rc, "sr_skip_char_span_location", "%d (moved %td) at %d:%d expected %zu at %d:%d", r2, p - s, l, c, e, rl, rc);
    }
    /* next line, from any position */
    {
        size_t k = rnd(n + 1); const char *p = s + k;
        int l0 = 1 + rnd(3), c0 = rnd(4);
        l = l0; c = c0;
        const char *nl = strchr(p, '\n'), *end = nl ? nl + 1 : s + n;
        ref(p, end - p, l0, c0, &rl, &rc);
        bool r = sr_skip_to_next_line_location(&p, &l, &c);
        desc("text=%s from %zu start %d:%d", show(s), k, l0, c0);
        CHECK(r == (nl != NULL) && p == end && l == rl && c == rc, "sr_skip_to_next_line_location", "%d moved to %td at %d:%d expected %d %td at %d:%d",
              r, p - s, l, c, nl != NULL, end - s, rl, rc);
    }
    free(s);
}

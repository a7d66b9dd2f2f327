#include "common.h"
#include "utils.h"
#include "operating_system.h"

/* oracle: splits the text into lines and decodes each on its own */
typedef struct { char *k, *v; } Pair;
static Pair want[4000], got[4000];
static int nwant, ngot;
static void *cookie = &cookie;

static char *unq(const char *s, size_t n)
{
    char *r = malloc(n + 1), *o = r;
    for (size_t i = 0; i < n; ++i) {
        if (s[i] == '\\') { if (i + 1 < n) *o++ = s[++i]; }
        else if (s[i] != '"' && s[i] != '\'') *o++ = s[i];
    }
    *o = 0;
    return r;
}
static void oracle(const char *t)
{
    nwant = 0;
    size_t n = strlen(t), i = 0;
    while (i < n) {
        size_t e = i;
        while (e < n && t[e] != '\n') ++e;
        size_t q = i;
        while (q < e && t[q] != '=') ++q;
        if (q < e && q > i && t[i] != '#') {
            want[nwant].k = g_strndup(t + i, q - i);
            want[nwant].v = unq(t + q + 1, e - q - 1);
            ++nwant;
        }
        i = e + 1;
    }
}
static void cb(char *k, char *v, void *d)
{
    CHECK(d == cookie, "callback data", "wrong user data");
    CHECK(ngot < 4000, "one call per line", "too many calls");
    got[ngot].k = k; got[ngot].v = v; ++ngot;
}
static char *gen_release(void)
{
    static const char *keys[] = { "ID", "VERSION_ID", "VERSION", "CPE_NAME", "VARIANT_ID", "NAME", "PRETTY_NAME", "ID_LIKE", "id", "", "#ID", " ID", "VERSION_I", "\"ID\"" };
    static const char *vals[] = { "fedora", "\"fedora\"", "'rhel'", "rawhide", "20", "\"20 (Rawhide)\"", "20 (Rawhide)", "(rawhide)", "\\(Rawhide)", "cpe:/o:fedoraproject:fedora:20", "a=b", "\"a\\\"b\"", "", "\\", "\\\\", "\"", "\\n", "it\\'s", "'\"'", "x\\" };
    GString *g = g_string_new(NULL);
    int lines = rnd(30) == 0 ? rnd(400) : rnd(9);
    for (int i = 0; i < lines; ++i) {
        unsigned m = rnd(10);
        if (m < 7) { g_string_append(g, PICK(keys)); if (!chance(8)) g_string_append_c(g, '='); g_string_append(g, PICK(vals)); }
        else if (m == 7) g_string_append(g, chance(50) ? "# comment = 3" : "#");
        else if (m == 8) { int k = rnd(rnd(20) == 0 ? 300 : 12); while (k--) g_string_append_c(g, PICK("ab=\"'\\#\n =\xc3 ")); }
        if (i + 1 < lines || chance(60)) g_string_append_c(g, '\n');
    }
    char *r = exact(g->str);
    g_string_free(g, TRUE);
    return r;
}
static void case_release(void)
{
    char *t = gen_release(), *orig = strdup(t);
    desc("os-release %s", show(t));
    oracle(t);
    ngot = 0;
    vwhere_ = "sr_parse_os_release";
    sr_parse_os_release(t, cb, cookie);
    CHECK(!strcmp(t, orig), "input unchanged", "text modified");
    for (int i = 0; i < nwant && i < ngot; ++i)
        CHECK(!strcmp(want[i].k, got[i].k) && !strcmp(want[i].v, got[i].v), "every KEY=VALUE line once, in order, unquoted",
              "entry %d: got %s=%s, expected %s=%s", i, show(got[i].k), show(got[i].v), show(want[i].k), show(want[i].v));
    CHECK(nwant == ngot, "every KEY=VALUE line once", "%d lines, %d calls", nwant, ngot);
    if (nwant) nontrivial();
    /* the operating system */
    struct sr_operating_system *os = sr_operating_system_new();
    vwhere_ = "sr_operating_system_parse_etc_os_release";
    bool ok = sr_operating_system_parse_etc_os_release(t, os);
    const char *name = NULL, *ver = NULL, *cpe = NULL, *variant = NULL; bool raw = false;
    for (int i = 0; i < nwant; ++i) {
        const char *k = want[i].k, *v = want[i].v;
        if (!strcmp(k, "ID")) name = v;
        if (!strcmp(k, "VERSION_ID") && !ver && !raw) ver = v;
        if (!strcmp(k, "VERSION") && strstr(v, "(Rawhide)")) raw = true;
        if (!strcmp(k, "CPE_NAME")) cpe = v;
        if (!strcmp(k, "VARIANT_ID")) variant = v;
    }
    if (raw) ver = "rawhide";
    CHECK(!g_strcmp0(os->name, name), "operating system name", "got %s, expected %s", show(os->name), show(name));
    CHECK(!g_strcmp0(os->version, ver), "operating system version", "got %s, expected %s", show(os->version), show(ver));
    CHECK(!g_strcmp0(os->cpe, cpe), "CPE", "got %s, expected %s", show(os->cpe), show(cpe));
    CHECK(!g_strcmp0(os->variant, variant), "variant", "got %s, expected %s", show(os->variant), show(variant));
    CHECK(ok == (name && ver), "result", "got %d", ok);
    sr_operating_system_free(os);
    for (int i = 0; i < ngot; ++i) { g_free(got[i].k); g_free(got[i].v); }
    for (int i = 0; i < nwant; ++i) { g_free(want[i].k); free(want[i].v); }
    free(t); free(orig);
}
static void case_path(void)
{
    static const char *pre[] = { "/home/", "/home", "home/", "/home//", "/Home/", "//home/", "/home/anonymized", "/usr/home/", "/hom/", "/home/u/", "", "~/home/" };
    GString *g = g_string_new(NULL);
    g_string_append(g, PICK(pre));
    int n = rnd(25) == 0 ? rnd(5000) : rnd(20);
    while (n--) g_string_append_c(g, chance(20) ? '/' : PICK("ab.~%s \xc3"));
    char *p = g_strdup(g->str);
    desc("path %s", show(p));
    char *o;
    const char *sl;
    if (!strncmp(p, "/home/", 6) && (sl = strchr(p + 6, '/'))) { o = g_malloc(strlen(sl) + 20); strcpy(o, "/home/anonymized"); strcat(o, sl); nontrivial(); }
    else o = g_strdup(p);
    vwhere_ = "anonymize_path";
    char *r = anonymize_path(p);
    CHECK(r && !strcmp(r, o), "user component replaced, nothing else", "got %s, expected %s", show(r), show(o));
    char *r2 = anonymize_path(r);
    CHECK(r2 && !strcmp(r2, o), "anonymizing twice", "got %s, expected %s", show(r2), show(o));
    g_free(r2); g_free(o); g_string_free(g, TRUE);
    CHECK(anonymize_path(NULL) == NULL, "no path", "not NULL");
}
static void case_system_release(void)
{
    static const char *nm[] = { "Fedora", "Red Hat Enterprise Linux Server", "red hat enterprise linux", "CentOS Linux", "", " ", "A release", "Red Hat Enterprise", "F\xc9" };
    static const char *sep[] = { " release ", " release", "release ", " Release ", " release  ", " release release " };
    static const char *ver[] = { "20 (Heisenbug)", "7.0", "", "Rawhide", "6.", ".", "19.1.2-x", "(x)" };
    char *t = g_strconcat(PICK(nm), PICK(sep), PICK(ver), NULL);
    desc("system-release %s", show(t));
    char *name = (char *)"N", *version = (char *)"V";
    char *x = exact(t);
    vwhere_ = "sr_operating_system_parse_etc_system_release";
    bool ok = sr_operating_system_parse_etc_system_release(x, &name, &version);
    const char *r = strstr(t, " release ");
    bool rh = !strncasecmp(t, "Red Hat Enterprise Linux", 24);
    bool wantok = r && (rh || r > t);
    CHECK(ok == wantok, "system-release accepted", "got %d", ok);
    if (ok) {
        nontrivial();
        char *wn = rh ? g_strdup("rhel") : g_strndup(t, r - t);
        for (char *c = wn; *c; ++c) *c = g_ascii_tolower(*c);
        const char *v = r + 9; size_t n = strspn(v, "0123456789.");
        if (!n) n = strlen(v);
        CHECK(!strcmp(name, wn), "name in lower case", "got %s expected %s", show(name), show(wn));
        CHECK(strlen(version) == n && !strncmp(version, v, n), "version", "got %s", show(version));
        g_free(name); g_free(version); g_free(wn);
    } else {
        CHECK(!strcmp(version, "V"), "no partial result", "version set");
        if (strcmp(name, "N")) g_free(name);
    }
    free(x); g_free(t);
}
static void run_case(void)
{
    switch (rnd(5)) {
    case 0: case_path(); break;
    case 1: case_system_release(); break;
    default: case_release();
    }
}

#include "common.h"
#include "rpm.h"

static const char *NAMES[] = { "glibc", "bash", "a", "", "kernel-core", "zlib" };
static const char *VERS[] = { "1", "2.0", "10", "", "1.0" };
static const char *ARCHS[] = { "x86_64", "i686", "noarch" };
static char *dupn(const char *s) { return s ? g_strdup(s) : NULL; }
static struct sr_rpm_package *gen_pkg(int nullarch)
{
    struct sr_rpm_package *p = sr_rpm_package_new();
    unsigned v = 1 + rnd(3);
    p->name = chance(4) ? NULL : g_strdup(NAMES[rnd(1 + v)]);
    p->version = chance(4) ? NULL : g_strdup(VERS[rnd(v)]);
    p->release = chance(4) ? NULL : g_strdup(VERS[rnd(v)]);
    p->architecture = chance(nullarch) ? NULL : g_strdup(ARCHS[rnd(v)]);
    p->epoch = chance(70) ? 0 : chance(50) ? rnd(3) : (uint32_t)rnd64();
    p->install_time = chance(40) ? 0 : chance(50) ? rnd(4) : rnd64();
    p->role = chance(30) ? SR_ROLE_AFFECTED : SR_ROLE_UNKNOWN;
    return p;
}
static int same_pkg(struct sr_rpm_package *a, struct sr_rpm_package *b)
{
    return !g_strcmp0(a->name, b->name) && !g_strcmp0(a->version, b->version) && !g_strcmp0(a->release, b->release) && a->epoch == b->epoch && !g_strcmp0(a->architecture, b->architecture);
}
/* independent order: name, version, release, epoch, architecture */
static int order(struct sr_rpm_package *a, struct sr_rpm_package *b)
{
    const char *x[] = { a->name, a->version, a->release }, *y[] = { b->name, b->version, b->release };
    for (int i = 0; i < 3; ++i) { int c = !x[i] ? (y[i] ? -1 : 0) : !y[i] ? 1 : strcmp(x[i], y[i]); if (c) return c; }
    if (a->epoch != b->epoch) return a->epoch < b->epoch ? -1 : 1;
    return !a->architecture ? (b->architecture ? -1 : 0) : !b->architecture ? 1 : strcmp(a->architecture, b->architecture);
}
static struct sr_rpm_package *snap(struct sr_rpm_package *p)
{
    struct sr_rpm_package *c = sr_rpm_package_new();
    c->name = dupn(p->name); c->version = dupn(p->version); c->release = dupn(p->release); c->architecture = dupn(p->architecture);
    c->epoch = p->epoch; c->install_time = p->install_time; c->role = p->role;
    return c;
}
static const char *pk(struct sr_rpm_package *p)
{
    static char b[4][400]; static int k; k = (k + 1) % 4;
    snprintf(b[k], 400, "%s-%u:%s-%s.%s(t%llu,r%d)", p->name ? p->name : "NULL", p->epoch, p->version ? p->version : "NULL", p->release ? p->release : "NULL",
             p->architecture ? p->architecture : "NULL", (unsigned long long)p->install_time, p->role);
    return b[k];
}
#define MAXN 40
static void t_list(void)
{
    struct sr_rpm_package *el[MAXN], *cp[MAXN], *head = NULL;
    int n = chance(8) ? 0 : chance(80) ? 1 + rnd(8) : 1 + rnd(MAXN), nullarch = PICK(((int[]){ 0, 0, 10, 40 }));
    char *d = vdesc_;
    d += sprintf(d, "packages:");
    for (int i = 0; i < n; ++i) {
        if (i && chance(35)) { el[i] = snap(cp[rnd(i)]); if (chance(60)) el[i]->role = rnd(2); if (chance(40)) el[i]->install_time = rnd(4); }
        else el[i] = gen_pkg(nullarch);
        cp[i] = snap(el[i]);
        if (d - vdesc_ < 6000) d += sprintf(d, " %s", pk(el[i]));
        vwhere_ = "sr_rpm_package_append";
        struct sr_rpm_package *h = sr_rpm_package_append(head, el[i]);
        CHECK(h == (head ? head : el[i]), "append returns the head", "element %d", i);
        head = h;
        CHECK(sr_rpm_package_count(head) == i + 1, "count", "%d expected %d", sr_rpm_package_count(head), i + 1);
    }
    struct sr_rpm_package *q = head;
    for (int i = 0; i < n; ++i, q = q->next) CHECK(q == el[i] && !order(q, cp[i]), "append keeps the order", "element %d", i);
    CHECK(!q, "append keeps the order", "trailing elements");
    if (n > 1) nontrivial();
    /* append a list to a list */
    if (n > 2 && chance(20)) {
        int m = 1 + rnd(n - 1);
        el[m - 1]->next = NULL;
        head = sr_rpm_package_append(el[0], el[m]);
        q = head;
        for (int i = 0; i < n; ++i, q = q->next) CHECK(q == el[i], "appending a list keeps both orders", "element %d", i);
    }
    vwhere_ = "sr_rpm_package_sort";
    head = sr_rpm_package_sort(head);
    int used[MAXN] = { 0 }, k = 0;
    struct sr_rpm_package *prev = NULL;
    for (q = head; q; prev = q, q = q->next, ++k) {
        CHECK(k < n, "sorting yields the same packages", "more packages than before");
        int j;
        for (j = 0; j < n && el[j] != q; ++j) ;
        CHECK(j < n && !used[j], "sorting yields the same packages", "position %d holds an unknown or repeated package", k);
        used[j] = 1;
        CHECK(same_pkg(q, cp[j]) && q->install_time == cp[j]->install_time && q->role == cp[j]->role, "sorting does not change packages", "%s was %s", pk(q), pk(cp[j]));
        if (prev) CHECK(order(prev, q) <= 0, "sorted by name, version, release, epoch, architecture", "%s before %s", pk(prev), pk(q));
    }
    CHECK(k == n, "sorting yields the same packages", "%d of %d left", k, n);
    /* the sorted order, as found, for the model of uniq */
    struct sr_rpm_package *so[MAXN];
    k = 0;
    for (q = head; q; q = q->next) so[k++] = snap(q);
    vwhere_ = "sr_rpm_package_uniq";
    head = sr_rpm_package_uniq(head);
    k = 0;
    q = head;
    for (int i = 0; i < n; ) {
        /* entries of one package: equal, or equal but for missing architectures, which sort first */
        const char *arch = so[i]->architecture;
        int role = so[i]->role, j = i + 1;
        uint64_t t = so[i]->install_time;
        for (; j < n; ++j) {
            struct sr_rpm_package x = *so[j], y = *so[i];
            x.architecture = y.architecture = NULL;
            if (order(&x, &y) || (arch && so[j]->architecture && strcmp(arch, so[j]->architecture))) break;
            if (!arch) arch = so[j]->architecture;
            if (so[j]->role == SR_ROLE_AFFECTED) role = SR_ROLE_AFFECTED;
            if (!t) t = so[j]->install_time;
        }
        struct sr_rpm_package w = *so[i];
        w.architecture = (char *)arch; w.role = role; w.install_time = t;
        CHECK(q, "one entry per distinct package", "%s is missing", pk(&w));
        CHECK(same_pkg(q, &w), "one entry per distinct package", "%s expected %s", pk(q), pk(&w));
        CHECK(q->role == w.role, "the affected role is kept", "%s expected %s", pk(q), pk(&w));
        CHECK(q->install_time == w.install_time, "the install time is kept", "%s expected %s", pk(q), pk(&w));
        q = q->next;
        i = j;
    }
    CHECK(!q, "one entry per distinct package", "extra %s", q ? pk(q) : "");
    sr_rpm_package_free(head, true);
    for (int i = 0; i < n; ++i) { sr_rpm_package_free(cp[i], false); sr_rpm_package_free(so[i], false); }
}
/* removing duplicates of an unsorted list never loses a package or a role */
static void t_uniq_any(void)
{
    int n = 1 + rnd(8);
    struct sr_rpm_package *cp[8], *head = NULL;
    char *d = vdesc_ + sprintf(vdesc_, "unsorted uniq:");
    for (int i = 0; i < n; ++i) {
        struct sr_rpm_package *p = i && chance(50) ? snap(cp[i - 1]) : gen_pkg(0);
        if (chance(50)) p->role = rnd(2);
        cp[i] = snap(p); d += sprintf(d, " %s", pk(p));
        head = sr_rpm_package_append(head, p);
    }
    vwhere_ = "sr_rpm_package_uniq";
    head = sr_rpm_package_uniq(head);
    for (int i = 0; i < n; ++i) {
        int found = 0, role = 0;
        for (struct sr_rpm_package *q = head; q; q = q->next) if (same_pkg(q, cp[i])) { found = 1; role |= q->role == SR_ROLE_AFFECTED; }
        CHECK(found, "no package is lost", "%s", pk(cp[i]));
        CHECK(role || cp[i]->role != SR_ROLE_AFFECTED, "the affected role is kept", "%s", pk(cp[i]));
    }
    for (struct sr_rpm_package *q = head; q; q = q->next) {
        int found = 0;
        for (int i = 0; i < n; ++i) found |= same_pkg(q, cp[i]);
        CHECK(found, "no package is invented", "%s", pk(q));
        CHECK(!q->next || !same_pkg(q, q->next), "neighbouring duplicates are removed", "%s", pk(q));
    }
    sr_rpm_package_free(head, true);
    for (int i = 0; i < n; ++i) sr_rpm_package_free(cp[i], false);
}
static const char *last(const char *s, const char *e, char c) { while (e > s) if (*--e == c) return e; return NULL; }
static char *cut(const char *a, const char *b) { return strndup(a, b - a); }
static char *gen_text(void)
{
    static const char *PIECE[] = { "-", "-", ".", ":", "1", "glibc", "x86_64", "0", "12", "-1", " 7", "4294967295", "4294967296", "fc20", "a", "+3", "18446744073709551616", "99999999999999999999", "" };
    GString *s = g_string_new(NULL);
    if (chance(50)) {
        g_string_append(s, PICK(((const char *[]){ "glibc", "python-libs", "-a", "", "a.b", "x:y" })));
        g_string_append(s, "-");
        if (chance(50)) { g_string_append(s, PICK(((const char *[]){ "0", "1", "4294967295", "4294967296", "x", "", "1x", "-1", " 2", "18446744073709551616", "8589934593" }))); g_string_append(s, ":"); }
        g_string_append(s, PICK(((const char *[]){ "1.2", "2", "", "1:3", "v" })));
        g_string_append(s, chance(90) ? "-" : "");
        g_string_append(s, PICK(((const char *[]){ "1.fc20", "1", "", "3.el7:x" })));
        g_string_append(s, chance(90) ? "." : "");
        g_string_append(s, PICK(((const char *[]){ "x86_64", "i686", "", "no-arch" })));
    } else {
        int n = rnd(10);
        for (int i = 0; i < n; ++i) g_string_append(s, PICK(PIECE));
    }
    char *r = exact(s->str);
    g_string_free(s, TRUE);
    return r;
}
#define POISON ((char *)0x51)
#define EQ(got, want, what) do { char *w_ = (want); CHECK(!strcmp(got, w_), "exactly the parts between the last separators", "%s is %s, expected %s", what, show(got), show(w_)); free(w_); g_free(got); } while (0)
static void t_nvr(void)
{
    char *t = gen_text(), *e = t + strlen(t);
    char *name = POISON, *ver = POISON, *rel = POISON;
    desc("parse_nvr %s", show(t));
    vwhere_ = "sr_rpm_package_parse_nvr";
    bool r = sr_rpm_package_parse_nvr(t, &name, &ver, &rel);
    const char *d2 = last(t, e, '-'), *d1 = d2 ? last(t, d2, '-') : NULL;
    bool ok = d1 && d1 > t && d2 - d1 > 1;
    CHECK(r == ok, "succeeds iff there is a name and a version before the last dash", "returned %d", r);
    if (ok) { nontrivial(); EQ(name, cut(t, d1), "name"); EQ(ver, cut(d1 + 1, d2), "version"); EQ(rel, cut(d2 + 1, e), "release"); }
    else CHECK(name == POISON && ver == POISON && rel == POISON, "no partial result", "an output was written");
    free(t);
}
static bool number(const char *a, const char *b, uint64_t *v)
{
    /* what strtoul accepts: space, sign, digits */
    while (a < b && strchr(" \t\n\v\f\r", *a)) ++a;
    bool neg = false;
    if (a < b && (*a == '+' || *a == '-')) neg = *a++ == '-';
    if (a == b) return false;
    unsigned __int128 x = 0;
    for (; a < b; ++a) { if (*a < '0' || *a > '9') return false; if (x < ((unsigned __int128)1 << 100)) x = x * 10 + (*a - '0'); }
    if (x > UINT64_MAX) return false;
    *v = neg ? -(uint64_t)x : (uint64_t)x;
    return *v <= UINT32_MAX;
}
static void t_nevra(void)
{
    char *t = gen_text(), *e = t + strlen(t);
    char *name = POISON, *ver = POISON, *rel = POISON, *arch = POISON;
    uint32_t epoch = 0xdeadbeef;
    desc("parse_nevra %s", show(t));
    vwhere_ = "sr_rpm_package_parse_nevra";
    bool r = sr_rpm_package_parse_nevra(t, &name, &epoch, &ver, &rel, &arch);
    const char *dot = last(t, e, '.'), *d2 = last(t, e, '-'), *d1 = d2 ? last(t, d2, '-') : NULL;
    bool ok = dot && d1 && dot - d2 > 1 && d1 > t && d2 - d1 > 1;
    uint64_t v = 0;
    const char *c = NULL;
    if (ok) {
        c = memchr(d1, ':', d2 - d1);
        if (c) ok = d2 - c > 1 && c - d1 > 1 && number(d1 + 1, c, &v);
    }
    CHECK(r == ok, "succeeds iff all parts are there and the epoch is a 32-bit number", "returned %d", r);
    if (ok) {
        nontrivial();
        EQ(arch, cut(dot + 1, e), "architecture"); EQ(rel, cut(d2 + 1, dot), "release"); EQ(ver, cut((c ? c : d1) + 1, d2), "version"); EQ(name, cut(t, d1), "name");
        CHECK(epoch == v, "the epoch", "%u expected %llu", epoch, (unsigned long long)v);
    } else CHECK(name == POISON && ver == POISON && rel == POISON && arch == POISON && epoch == 0xdeadbeef, "no partial result", "an output was written");
    free(t);
}
static void run_case(void)
{
    switch (rnd(5)) { case 0: case 1: t_list(); break; case 2: t_uniq_any(); break; case 3: t_nvr(); break; default: t_nevra(); }
}

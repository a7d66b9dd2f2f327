/* P01: scanners against reference scanners written from the property text */
#include "utils.h"
#include "common.h"
#include <errno.h>

static const char *alpha = "0123456789abfgxXAFG \t\n-:;,./_<>()";
static void gen(char *b, size_t max)
{
    size_t n = rnd(max);
    int mode = rnd(6);
    for (size_t i = 0; i < n; ++i)
        switch (mode) {
        case 0: b[i] = '0' + rnd(10); break;
        case 1: b[i] = "0123456789abcdefABCDEF"[rnd(22)]; break;
        case 2: b[i] = 1 + rnd(255); break;
        case 3: b[i] = " \t\n\v\f\rx"[rnd(7)]; break;
        case 4: b[i] = "aab"[rnd(3)]; break;
        default: b[i] = alpha[rnd(strlen(alpha))];
        }
    b[n] = 0;
    if (mode == 5 && n > 2 && chance(50)) { b[0] = '0'; b[1] = 'x'; }
    if (mode < 2 && n > 2 && chance(30)) b[rnd(n)] = alpha[rnd(strlen(alpha))];
}
static const char *nums[] = {"0","1","4294967295","4294967296","4294967297","18446744073709551614","18446744073709551616",
 "18446744073709551617","9223372036854775807","9223372036854775808","99999999999999999999999","00000000000000000000000000000012",
 "10000000000","2147483648","2147483647","340282366920938463463374607431768211456", "184467440737095516150"};
static const char *hexs[] = {"0","ffffffffffffffff","10000000000000000","FFFFFFFF","100000000","00000000000000000000001","7fffffffffffffff",
 "8000000000000000","dEaDbEeF","fffffffffffffffff"};

static bool isd(char c){return c>='0'&&c<='9';}
static bool isx(char c){return isd(c)||(c>='a'&&c<='f')||(c>='A'&&c<='F');}
static bool issp(char c){return c==' '||(c>=9&&c<=13);}

/* value of digits, saturating to a 128 bit number that is too big */
static unsigned __int128 val(const char *s, size_t n, int base)
{
    unsigned __int128 v = 0, lim = ((unsigned __int128)1 << 120);
    for (size_t i = 0; i < n; ++i) {
        int d = isd(s[i]) ? s[i]-'0' : (s[i]|32)-'a'+10;
        v = v*base + d;
        if (v > lim) v = lim;
    }
    return v;
}

static void run_case(void)
{
    char t[200], set[40], buf[100];
    gen(t, 60);
    if (chance(25)) { strcpy(t, PICK(nums)); if (chance(50)) { gen(buf, 10); strcat(t, buf); } }
    else if (chance(15)) { strcpy(t, chance(50) ? "0x" : ""); strcat(t, PICK(hexs)); if (chance(50)) { gen(buf, 10); strcat(t, buf); } }
    gen(set, 8);
    if (chance(40) && t[0]) { size_t k = rnd(8); if (k > strlen(t)) k = strlen(t); memcpy(set, t, k); set[k] = 0; }
    char *text = exact(t), *st = exact(set);
    const char *in = text;
    desc("text=%s set=%s", show(t), show(set));
    size_t n;
#define MOVED ((size_t)(in - text))
#define RESET in = text
    char c = t[0] && chance(60) ? t[0] : 1 + rnd(255);
    vwhere_ = "sr_skip_char";
    bool b = sr_skip_char(&in, c);
    CHECK(b == (t[0] == c) && MOVED == (size_t)b, "sr_skip_char", "returned %d moved %zu c=%d", b, MOVED, c); RESET;
    bool inset = t[0] && strchr(set, t[0]);
    vwhere_ = "sr_skip_char_limited";
    b = sr_skip_char_limited(&in, st);
    CHECK(b == inset && MOVED == (size_t)b, "sr_skip_char_limited", "returned %d moved %zu", b, MOVED); RESET;
    char ch = '?';
    vwhere_ = "sr_parse_char_limited";
    b = sr_parse_char_limited(&in, st, &ch);
    CHECK(b == inset && MOVED == (size_t)b && ch == (b ? t[0] : '?'), "sr_parse_char_limited", "returned %d moved %zu ch=%d", b, MOVED, ch); RESET;
    for (n = 0; t[n] == c; ++n);
    vwhere_ = "sr_skip_char_sequence";
    int r = sr_skip_char_sequence(&in, c);
    CHECK(r == (int)n && MOVED == n, "sr_skip_char_sequence", "returned %d moved %zu expected %zu", r, MOVED, n); RESET;
    n = strspn(t, set);
    if (n) nontrivial();
    vwhere_ = "sr_skip_char_span";
    r = sr_skip_char_span(&in, st);
    CHECK(r == (int)n && MOVED == n, "sr_skip_char_span", "returned %d moved %zu expected %zu", r, MOVED, n); RESET;
    char *out = (char*)st;
    vwhere_ = "sr_parse_char_span";
    r = sr_parse_char_span(&in, st, &out);
    CHECK(r == (int)n && MOVED == n, "sr_parse_char_span", "returned %d moved %zu expected %zu", r, MOVED, n);
    if (n) { CHECK(out != st && strlen(out) == n && !memcmp(out, t, n), "sr_parse_char_span result", "got %s", show(out)); g_free(out); }
    else CHECK(out == st, "sr_parse_char_span leaves result", "changed"); RESET;
    n = strcspn(t, set);
    vwhere_ = "sr_skip_char_cspan";
    r = sr_skip_char_cspan(&in, st);
    CHECK(r == (int)n && MOVED == n, "sr_skip_char_cspan", "returned %d moved %zu expected %zu", r, MOVED, n); RESET;
    out = st;
    vwhere_ = "sr_parse_char_cspan";
    b = sr_parse_char_cspan(&in, st, &out);
    CHECK(b == (n > 0) && MOVED == n, "sr_parse_char_cspan", "returned %d moved %zu expected %zu", b, MOVED, n);
    if (n) { CHECK(strlen(out) == n && !memcmp(out, t, n), "sr_parse_char_cspan result", "got %s", show(out)); g_free(out); }
    else CHECK(out == st, "sr_parse_char_cspan leaves result", "changed"); RESET;
    size_t ls = strlen(set);
    bool pre = !strncmp(t, set, ls);
    vwhere_ = "sr_skip_string";
    r = sr_skip_string(&in, st);
    CHECK(r == (pre ? (int)ls : 0) && MOVED == (pre ? ls : 0), "sr_skip_string", "returned %d moved %zu", r, MOVED); RESET;
    out = st;
    vwhere_ = "sr_parse_string";
    b = sr_parse_string(&in, st, &out);
    CHECK(b == pre && MOVED == (pre ? ls : 0), "sr_parse_string", "returned %d moved %zu", b, MOVED);
    if (b) { CHECK(out != st && !strcmp(out, set), "sr_parse_string result", "got %s", show(out)); g_free(out); }
    else CHECK(out == st, "sr_parse_string leaves result", "changed"); RESET;
    vwhere_ = "sr_parse_digit";
    ch = sr_parse_digit(&in);
    CHECK(ch == (isd(t[0]) ? t[0] : 0) && MOVED == (size_t)isd(t[0]), "sr_parse_digit", "returned %d moved %zu", ch, MOVED); RESET;
    size_t nd = 0, nx = 0, n0 = 0;
    while (isd(t[nd])) ++nd;
    while (isx(t[nx])) ++nx;
    if (t[0] == '0' && t[1] == 'x') { while (isx(t[2+n0])) ++n0; }
    size_t n0x = n0 ? n0 + 2 : 0;
    vwhere_ = "sr_skip_uint";
    r = sr_skip_uint(&in);
    CHECK(r == (int)nd && MOVED == nd, "sr_skip_uint", "returned %d moved %zu", r, MOVED); RESET;
    r = sr_skip_hexadecimal_uint(&in);
    CHECK(r == (int)nx && MOVED == nx, "sr_skip_hexadecimal_uint", "returned %d moved %zu", r, MOVED); RESET;
    r = sr_skip_hexadecimal_0xuint(&in);
    CHECK(r == (int)n0x && MOVED == n0x, "sr_skip_hexadecimal_0xuint", "returned %d moved %zu", r, MOVED); RESET;
    unsigned __int128 vd = val(t, nd, 10), vx = val(t, nx, 16), v0 = n0x ? val(t + 2, n0, 16) : 0;
    errno = chance(30) ? ERANGE : 0;
    uint32_t u32 = 0xabcdef01; bool ok = nd && vd <= 0xffffffffu;
    vwhere_ = "sr_parse_uint32";
    r = sr_parse_uint32(&in, &u32);
    CHECK(r == (ok ? (int)nd : 0) && MOVED == (ok ? nd : 0) && u32 == (ok ? (uint32_t)vd : 0xabcdef01), "sr_parse_uint32", "returned %d moved %zu value %u", r, MOVED, u32); RESET;
    uint64_t u64 = 0x1234567890ULL; ok = nd && vd < (((unsigned __int128)1) << 64) - 1;
    vwhere_ = "sr_parse_uint64";
    if (!(nd && vd == (((unsigned __int128)1) << 64) - 1)) {
    r = sr_parse_uint64(&in, &u64);
    CHECK(r == (ok ? (int)nd : 0) && MOVED == (ok ? nd : 0) && u64 == (ok ? (uint64_t)vd : 0x1234567890ULL), "sr_parse_uint64", "returned %d moved %zu value %llu", r, MOVED, (unsigned long long)u64); RESET; }
    u64 = 0x1234567890ULL; ok = nx && vx < (((unsigned __int128)1) << 64);
    vwhere_ = "sr_parse_hexadecimal_uint64";
    r = sr_parse_hexadecimal_uint64(&in, &u64);
    CHECK(r == (ok ? (int)nx : 0) && MOVED == (ok ? nx : 0) && u64 == (ok ? (uint64_t)vx : 0x1234567890ULL), "sr_parse_hexadecimal_uint64", "returned %d moved %zu value %llx", r, MOVED, (unsigned long long)u64); RESET;
    u64 = 0x1234567890ULL; ok = n0x && v0 < (((unsigned __int128)1) << 64);
    vwhere_ = "sr_parse_hexadecimal_0xuint64";
    r = sr_parse_hexadecimal_0xuint64(&in, &u64);
    CHECK(r == (ok ? (int)n0x : 0) && MOVED == (ok ? n0x : 0) && u64 == (ok ? (uint64_t)v0 : 0x1234567890ULL), "sr_parse_hexadecimal_0xuint64", "returned %d moved %zu value %llx", r, MOVED, (unsigned long long)u64); RESET;
    for (n = 0; issp(t[n]); ++n);
    const char *q = sr_skip_whitespace(text);
    CHECK((size_t)(q - text) == n, "sr_skip_whitespace", "moved %zd", q - text);
    for (n = 0; t[n] && !issp(t[n]); ++n);
    q = sr_skip_non_whitespace(text);
    CHECK((size_t)(q - text) == n, "sr_skip_non_whitespace", "moved %zd", q - text);
    CHECK(!strcmp(text, t) && !strcmp(st, set), "texts unmodified", "modified");
    free(text); free(st);
}

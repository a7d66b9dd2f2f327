#include "common.h"
#include "json_utils.h"
#include "utils.h"
#include <json.h>

/* strict decoder of one JSON string literal (RFC 8259); returns the byte behind it, NULL when it is not one */
static const char *decode(const char *p, char *out, size_t *n)
{
    *n = 0;
    if (*p++ != '"') return NULL;
    while (*p != '"') {
        unsigned char c = *p;
        if (c < 0x20) return NULL;
        if (c != '\\') { out[(*n)++] = c; ++p; continue; }
        switch (*++p) {
        case '"': case '\\': case '/': out[(*n)++] = *p; break;
        case 'b': out[(*n)++] = 8; break;
        case 'f': out[(*n)++] = 12; break;
        case 'n': out[(*n)++] = 10; break;
        case 'r': out[(*n)++] = 13; break;
        case 't': out[(*n)++] = 9; break;
        case 'u': {
            unsigned v = 0;
            for (int i = 1; i <= 4; ++i) {
                unsigned char h = p[i];
                v = v * 16 + (h >= '0' && h <= '9' ? h - '0' : h >= 'a' && h <= 'f' ? h - 'a' + 10 : h >= 'A' && h <= 'F' ? h - 'A' + 10 : 1000000);
            }
            if (v == 0 || v > 0x7f) return NULL;   /* only single bytes are expected here */
            out[(*n)++] = v; p += 4; break; }
        default: return NULL;
        }
        ++p;
    }
    return p + 1;
}
static char *gen_text(int maxlen)
{
    int n = rnd(20) == 0 ? rnd(600) : rnd(maxlen + 1), mode = rnd(5);
    char *s = malloc(n + 1);
    for (int i = 0; i < n; ++i) {
        unsigned char c;
        switch (mode) {
        case 0: c = 1 + rnd(255); break;
        case 1: c = PICK("\"\\/\b\f\n\r\tab "); break;
        case 2: c = 1 + rnd(31); break;
        case 3: c = chance(40) ? '\n' : chance(50) ? ' ' : 'a' + rnd(4); break;
        default: c = chance(15) ? (unsigned char)PICK("\"\\\n\t\x01\x1f\x7f\x80\xff{}[]:,") : 32 + rnd(95);
        }
        s[i] = c ? c : 'q';
    }
    s[n] = 0;
    return s;
}
static char *indent_oracle(const char *t, int w, bool first)
{
    size_t n = strlen(t), lines = 1;
    for (size_t i = 0; i < n; ++i) lines += t[i] == '\n';
    char *o = malloc(n + lines * (w > 0 ? w : 0) + 1), *p = o;
    for (size_t i = 0; i < n; ++i) {
        bool start = i == 0 ? first : t[i - 1] == '\n';
        if (start) for (int k = 0; k < w; ++k) *p++ = ' ';
        *p++ = t[i];
    }
    *p = 0;
    return o;
}
static void run_case(void)
{
    char *t = gen_text(24);
    char *pre = gen_text(8);
    desc("text %s", show(t));
    vwhere_ = "sr_json_append_escaped";
    GString *g = g_string_new(pre);
    GString *r = sr_json_append_escaped(g, t);
    CHECK(r == g, "appends in place", "other buffer returned");
    CHECK(g->len == strlen(g->str), "length", "%zu, text of %zu", (size_t)g->len, strlen(g->str));
    CHECK(!strncmp(g->str, pre, strlen(pre)), "what was there stays", "%s", show(g->str));
    const char *lit = g->str + strlen(pre);
    char *dec = malloc(strlen(lit) + 1); size_t n;
    const char *end = decode(lit, dec, &n);
    CHECK(end, "one JSON string literal", "%s", show(lit));
    CHECK(*end == 0, "nothing behind the literal", "%s", show(lit));
    CHECK(n == strlen(t) && !memcmp(dec, t, n), "decodes to the original", "%s decodes to %s", show(lit), show_n(dec, n));
    struct json_tokener *tok = json_tokener_new();
    json_object *jo = json_tokener_parse_ex(tok, lit, strlen(lit));
    CHECK(jo && json_object_get_type(jo) == json_type_string && (size_t)json_object_get_string_len(jo) == strlen(t) && !memcmp(json_object_get_string(jo), t, strlen(t)),
          "the library's JSON reader delivers the original", "%s read as %s", show(lit), jo ? show(json_object_get_string(jo)) : "nothing");
    json_object_put(jo); json_tokener_free(tok);
    if (strlen(lit) > strlen(t) + 2) nontrivial();
    g_string_free(g, TRUE); free(dec);

    int w = chance(80) ? rnd(9) : chance(50) ? rnd(70) : -(int)rnd(3);
    char *u = exact(t);
    desc("text %s, %d spaces", show(t), w);
    vwhere_ = "sr_indent";
    char *a = sr_indent(t, w), *ea = indent_oracle(t, w, true);
    CHECK(!strcmp(a, ea), "indented text", "got %s expected %s", show(a), show(ea));
    vwhere_ = "sr_indent_except_first_line";
    char *b = sr_indent_except_first_line(t, w), *eb = indent_oracle(t, w, false);
    CHECK(!strcmp(b, eb), "indented text except the first line", "got %s expected %s", show(b), show(eb));
    CHECK(!strcmp(t, u), "the text is not modified", "%s", show(t));
    g_free(a); g_free(b); free(ea); free(eb); free(u); free(t); free(pre);
}

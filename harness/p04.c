#include "common.h"
#include "location.h"
#include "koops/frame.h"
#include "koops/stacktrace.h"

#define PICKC(a) ((a)[rnd(sizeof(a) - 1)])
/* a kernel log is printed from known data; what the parser reports must be that data */
typedef struct { uint64_t addr, off, len, faddr, foff, flen; bool rel; char *fn, *mod, *ffn, *fmod, *stack, *txt; } F;
static F want[200];
static int nwant;
static char *wmods[400];
static int nmods;

static const char *names[] = { "do_IRQ", "a", "wdev_priv.part.8", "__schedule", "x.constprop.3", "sys_read", "ret_from_fork", "SyS_ioctl", "d", "f00", "abc", "from", "o", "_raw_spin_lock", "0", "b$x", "irq", "EOI", "do_IRQ_handler_with_a_very_long_name_that_goes_on_and_on" };
static const char *mods[] = { "wl", "cfg80211", "xt_state", "a", "snd-pcm", "kvm_amd", "nf_conntrack_ipv4", "wl(PO)", "m(+)", "0x1", "usb" };
static uint64_t num(void)
{
    switch (rnd(6)) { case 0: return 0; case 1: return rnd(16); case 2: return rnd(4096); case 3: return UINT64_MAX; case 4: return rnd64() | 1ULL << 63; default: return rnd64() >> rnd(64); }
}
static void ws(GString *g, int least) { int n = least + (chance(30) ? rnd(3) : 0); while (n--) g_string_append_c(g, chance(90) ? ' ' : '\t'); }
static char *name_(const char **a, int n)
{
    if (chance(70)) return g_strdup(a[rnd(n)]);
    GString *g = g_string_new(NULL);
    int l = 1 + (rnd(10) ? rnd(12) : rnd(300));
    while (l--) g_string_append_c(g, PICKC("abcdefXYZ019_.-$"));
    return g_string_free(g, FALSE);
}
#define NAME() name_(names, G_N_ELEMENTS(names))
#define MOD() name_(mods, G_N_ELEMENTS(mods))
static void hex(GString *g, uint64_t v)
{
    g_string_append_printf(g, chance(40) ? "%016llx" : chance(10) ? "%llX" : chance(10) ? "00000%llx" : "%llx", (unsigned long long)v);
}
static void addr(GString *g, uint64_t v, bool angle) { g_string_append(g, angle ? "[<" : "["); hex(g, v); g_string_append(g, angle ? ">]" : "]"); }
static void func(GString *g, char *fn, uint64_t off, uint64_t len, char *mod, bool paren)
{
    if (paren) g_string_append_c(g, '(');
    g_string_append(g, fn);
    g_string_append(g, "+0x"); hex(g, off);
    g_string_append(g, "/0x"); hex(g, len);
    if (mod) { ws(g, 1); g_string_append_printf(g, "[%s]", mod); }
    if (paren) g_string_append_c(g, ')');
}
static void line(GString *g, F *f)
{
    memset(f, 0, sizeof *f);
    f->rel = true;
    f->fn = NAME(); f->off = num(); f->len = num();
    if (chance(40)) f->mod = MOD();
    switch (rnd(7)) {
    case 0: case 1: /* x86 */
        f->addr = num(); addr(g, f->addr, chance(80)); ws(g, 1);
        if (chance(40)) { g_string_append(g, "?"); ws(g, 1); f->rel = false; }
        func(g, f->fn, f->off, f->len, f->mod, false);
        break;
    case 2: /* no address */
        if (chance(40)) { g_string_append(g, "?"); ws(g, 1); f->rel = false; }
        func(g, f->fn, f->off, f->len, f->mod, false);
        break;
    case 3: /* s390 */
        f->addr = num(); bool whole = chance(50);
        if (whole) g_string_append_c(g, '(');
        addr(g, f->addr, true); ws(g, 1); func(g, f->fn, f->off, f->len, f->mod, !whole && chance(30));
        if (whole) g_string_append_c(g, ')');
        break;
    case 4: /* arm */
        f->addr = num(); f->faddr = num(); f->ffn = NAME(); f->foff = num(); f->flen = num();
        if (chance(30)) f->fmod = MOD();
        addr(g, f->addr, true); ws(g, 1);
        if (chance(20)) { g_string_append(g, "?"); ws(g, 1); f->rel = false; }
        bool full = chance(50), tail = full && f->mod && chance(50);      /* the module may also stand at the end of the line */
        if (full) { func(g, f->fn, f->off, f->len, tail ? NULL : f->mod, true); }
        else { g_string_append_printf(g, "(%s)", f->fn); f->off = f->len = 0; g_free(f->mod); f->mod = NULL; }
        ws(g, 1); g_string_append(g, "from"); ws(g, 1);
        addr(g, f->faddr, true); ws(g, 1);
        func(g, f->ffn, f->foff, f->flen, f->fmod, true);
        if (tail) { ws(g, 1); g_string_append_printf(g, "[%s]", f->mod); }
        break;
    case 5: /* ppc */
        addr(g, num(), false); ws(g, 1); f->addr = num(); addr(g, f->addr, false); ws(g, 1);
        if (chance(50)) g_string_append_c(g, '.');
        if (f->fn[0] == '.') f->fn[0] = 'q';
        func(g, f->fn, f->off, f->len, f->mod, false);
        if (chance(30)) { g_string_append(g, " (unreliable)"); f->rel = false; }
        break;
    default: /* no symbol */
        g_free(f->fn); g_free(f->mod); f->fn = f->mod = NULL; f->off = f->len = 0;
        f->addr = num(); addr(g, f->addr, true); ws(g, 1);
        if (chance(40)) { g_string_append(g, "?"); ws(g, 1); f->rel = false; }
        g_string_append(g, "0x"); hex(g, rnd64());
        break;
    }
}
static void clear_f(F *f) { g_free(f->fn); g_free(f->mod); g_free(f->ffn); g_free(f->fmod); g_free(f->stack); g_free(f->txt); }
static void same(const struct sr_koops_frame *r, const F *f, int i)
{
    CHECK(r->type == SR_REPORT_KERNELOOPS, "frame type", "frame %d has type %d", i, r->type);
    CHECK(r->address == f->addr, "address as printed", "frame %d: %llx, printed %llx", i, (unsigned long long)r->address, (unsigned long long)f->addr);
    CHECK(r->reliable == f->rel, "'?' or (unreliable) mark", "frame %d: reliable=%d (%s)", i, r->reliable, show(f->txt));
    CHECK(!g_strcmp0(r->function_name, f->fn), "function name as printed", "frame %d: %s, printed %s", i, show(r->function_name), show(f->fn));
    CHECK(r->function_offset == f->off && r->function_length == f->len, "offset and length as printed", "frame %d: +0x%llx/0x%llx, printed +0x%llx/0x%llx", i, (unsigned long long)r->function_offset, (unsigned long long)r->function_length, (unsigned long long)f->off, (unsigned long long)f->len);
    CHECK(!g_strcmp0(r->module_name, f->mod), "module as printed", "frame %d: %s, printed %s", i, show(r->module_name), show(f->mod));
    CHECK(r->from_address == f->faddr && !g_strcmp0(r->from_function_name, f->ffn) && r->from_function_offset == f->foff && r->from_function_length == f->flen && !g_strcmp0(r->from_module_name, f->fmod),
          "'from' part as printed", "frame %d: %llx %s+0x%llx/0x%llx %s", i, (unsigned long long)r->from_address, show(r->from_function_name), (unsigned long long)r->from_function_offset, (unsigned long long)r->from_function_length, show(r->from_module_name));
    CHECK(!g_strcmp0(r->special_stack, f->stack), "alternative stack", "frame %d: %s, printed %s", i, show(r->special_stack), show(f->stack));
}
static void stamp(GString *g)
{
    if (chance(60)) g_string_append_printf(g, "[%*s%u.%06u] ", (int)rnd(5), "", rnd(100000), rnd(1000000));
}
static const char *letters = "PFSRMBUDAWCIOELK";
static GString *make(bool *taint, char **reason)
{
    GString *g = g_string_new(NULL);
    nwant = nmods = 0;
    memset(taint, 0, 26);
    static const char *noise[] = { "Stack:", " ffff8801243fb9a8 ffffffffa0522544 ffffffffa026ec78", "Call Trace:", "Code: e7 e8 5f 79 ff ff <48> 89 df e8 27", "RSP: 0018:ffff8801243fb958  EFLAGS: 00010246", "---[ end trace a7919e7f17c0a725 ]---", "invalid opcode: 0000 [#1] SMP", "", "CR2: 00000000013fa528", " last message repeated", "Backtrace:", "a + b", "3.6.1+0x", "comm: +", "Krnl PSW : 0704e00180000000 0000000000112a2e", "?", "[ cut here ]" };
    static const char *stacks[] = { "IRQ", "NMI", "#DF", "SOFTIRQ", "ENTRY_TRAMPOLINE" };
    static const char *ends[] = { "<EOI>", "<<EOE>>", "<EOE>", "<EOI>>" };
    char *cur = NULL;
    bool ip = false, tainted = false, mod = false;
    *reason = NULL;
    int lines = 1 + (rnd(20) ? rnd(14) : rnd(120));
    for (int i = 0; i < lines; ++i) {
        size_t l0 = g->len;
        unsigned m = i == 0 && chance(80) ? 8 : rnd(12);
        bool nl = true;
        if (m >= 1 || i == 0) { if (i) stamp(g); }
        if (m < 5) {
            ws(g, chance(70));
            F f;
            if (chance(10)) { g_free(cur); cur = NULL; g_string_append(g, PICK(ends)); ws(g, 1); }
            if (chance(15)) { g_free(cur); cur = g_strdup(PICK(stacks)); g_string_append_printf(g, "<%s>", cur); if (chance(20)) goto eol; ws(g, 1); }
            size_t fl = g->len;
            line(g, &f);
            f.txt = g_strdup(g->str + fl);
            f.stack = g_strdup(cur);
            want[nwant++] = f;
        } else if (m == 5 && !ip && i) {
            F f; memset(&f, 0, sizeof f);
            f.rel = true; f.addr = num(); f.fn = NAME(); f.off = num(); f.len = num();
            if (chance(40)) f.mod = MOD();
            if (chance(50)) { g_string_append_printf(g, "RIP: %04x:", rnd(32)); addr(g, f.addr, true); g_string_append(g, "  "); }
            else g_string_append(g, "EIP: ");
            bool eip = g->str[g->len - 2] == ':';
            addr(g, f.addr, true); ws(g, 1);
            if (chance(20)) { g_string_append(g, "? "); f.rel = false; }
            func(g, f.fn, f.off, f.len, f.mod, false);
            if (eip) g_string_append(g, " SS:ESP 0068:f180dbf8");
            memmove(want + 1, want, nwant * sizeof *want); ++nwant; want[0] = f;
            ip = true;
        } else if (m == 6 && !mod && i) {
            g_string_append(g, "Modules linked in:"); ws(g, 1);
            int n = rnd(4) ? rnd(8) : rnd(90);
            bool gap = true;
            for (int j = 0; j < n; ++j) {
                char *x = MOD();
                wmods[nmods++] = x;
                size_t len = strlen(x), cut = 1 + rnd(len);
                if (len > 1 && cut < len && chance(15) && strncmp(x + cut, "Pid: ", 5)) { /* wrapped in the middle of a name */
                    g_string_append_len(g, x, cut); g_string_append_c(g, '\n'); g_string_append(g, x + cut);
                } else g_string_append(g, x);
                gap = false;
                if (j + 1 < n || chance(30)) { if (chance(12)) { g_string_append(g, chance(50) ? " \n" : "\n "); if (j + 1 == n) g_string_append_c(g, ' '); } ws(g, 1); gap = true; }
            }
            (void)gap;
            if (chance(40)) { if (!gap) g_string_append_c(g, ' '); g_string_append(g, "[last unloaded: scsi_wait_scan]"); }
            g_string_append_c(g, '\n');
            g_string_append(g, chance(30) ? "Pid: 802, comm: x" : chance(30) ? "CPU 1 " : chance(30) ? "CPU: 0 PID: 1 comm: swapper" : chance(30) ? "irq event stamp: 1234" : chance(50) ? "CR2: 00000000013fa528" : "[   12.345678] Pid: 3");
            mod = true;
        } else if (m == 7 && i) {
            g_string_append(g, "Pid: 802, comm: wpa_supplicant ");
            g_string_append(g, chance(30) ? "Not tainted" : "Tainted: ");
            if (g_str_has_suffix(g->str, ": ")) {
                int n = rnd(14);
                while (n--) {
                    char c = chance(50) ? ' ' : chance(80) ? letters[rnd(16)] : 'A' + rnd(26);
                    g_string_append_c(g, c);
                    if (c != ' ' && !tainted) taint[c - 'A'] = true;
                }
                g_string_append(g, chance(50) ? " 3.6.1-1.fc17" : chance(50) ? "#1" : "(none)");
                tainted = true;
            }
        } else if (i + 1 == lines && chance(10)) {
            g_string_append(g, "Last Breaking-Event-Address:\n [<0000000000112a2e>] show_stack+0x1/0x2\n");
            nl = false;
        } else {
            g_string_append(g, PICK(noise));
        }
eol:
        if (i == 0) *reason = g_strdup(g->str + l0);
        if (nl && (i + 1 < lines || chance(70))) g_string_append_c(g, '\n');
    }
    for (char *c = *reason; *c; ++c) if (*c == '\n') { *c = 0; break; }
    g_free(cur);
    return g;
}
static void case_printed(void)
{
    bool taint[26];
    char *reason;
    GString *g = make(taint, &reason);
    char *t = exact(g->str);
    const char *in = t;
    desc("kernel oops %s", show(t));
    struct sr_location loc;
    sr_location_init(&loc);
    vwhere_ = "sr_koops_stacktrace_parse";
    struct sr_koops_stacktrace *s = sr_koops_stacktrace_parse(&in, &loc);
    CHECK(s, "parsed", "NULL");
    CHECK(!strcmp(t, g->str), "text unchanged", "modified");
    CHECK(in == t + g->len, "whole text consumed", "stopped at %ld of %ld", (long)(in - t), (long)g->len);
    CHECK(s->type == SR_REPORT_KERNELOOPS && !g_strcmp0(s->raw_oops, t), "raw text kept", "%s", show(s->raw_oops));
    CHECK(!g_strcmp0(s->reason, reason), "reason is the first line", "%s, expected %s", show(s->reason), show(reason));
    struct sr_koops_frame *f = s->frames;
    int n = 0;
    for (; f && n < nwant; f = f->next) { same(f, &want[n], n); ++n; }
    CHECK(!f, "one frame per printed stack line", "more than the %d printed frames; first extra: %s", nwant, show(f->function_name));
    CHECK(n == nwant, "one frame per printed stack line", "%d frames, printed %d; first missing: %s", n, nwant, show(want[n].fn));
    if (s->modules) {
        int i = 0;
        for (; s->modules[i] && i < nmods; ++i)
            CHECK(!strcmp(s->modules[i], wmods[i]), "modules as printed", "module %d: %s, printed %s", i, show(s->modules[i]), show(wmods[i]));
        CHECK(!s->modules[i], "modules as printed", "extra module %s", show(s->modules[i]));
        CHECK(i == nmods, "modules as printed", "%d of %d modules", i, nmods);
    } else CHECK(nmods == 0, "modules as printed", "no module list");
    bool flags[] = { s->taint_module_proprietary, s->taint_forced_module, s->taint_smp_unsafe, s->taint_forced_removal, s->taint_mce, s->taint_page_release, s->taint_userspace, s->taint_died_recently, s->taint_acpi_overridden, s->taint_warning, s->taint_staging_driver, s->taint_firmware_workaround, s->taint_module_out_of_tree, s->taint_unsigned_module, s->taint_soft_lockup, s->taint_live_patched };
    for (int i = 0; i < 16; ++i)
        CHECK(flags[i] == taint[letters[i] - 'A'], "taint flag as printed", "flag %c is %d", letters[i], flags[i]);
    if (nwant) nontrivial();
    sr_koops_stacktrace_free(s);
    for (int i = 0; i < nwant; ++i) clear_f(&want[i]);
    for (int i = 0; i < nmods; ++i) g_free(wmods[i]);
    g_free(reason); free(t); g_string_free(g, TRUE);
}
/* single lines: the pointer moves behind the line or not at all */
static void case_line(void)
{
    GString *g = g_string_new(NULL);
    F f;
    line(g, &f);
    bool nl = chance(70), more = nl && chance(60);
    size_t l = g->len + nl;
    if (nl) g_string_append_c(g, '\n');
    if (more) g_string_append(g, chance(50) ? "\n [<12>] x+0x1/0x2" : "rest");
    char *t = exact(g->str);
    const char *in = t;
    desc("stack line %s", show(t));
    vwhere_ = "sr_koops_frame_parse";
    struct sr_koops_frame *r = sr_koops_frame_parse(&in);
    CHECK(r, "printed stack line accepted", "NULL");
    same(r, &f, 0);
    CHECK(in == t + l || in == t + l - nl, "consumes exactly the line", "%ld characters of %ld", (long)(in - t), (long)l);
    CHECK(!r->next, "one frame", "next is set");
    nontrivial();
    sr_koops_frame_free(r);
    clear_f(&f); free(t); g_string_free(g, TRUE);
}
/* arbitrary text: safety, and all or nothing */
static void case_fuzz(void)
{
    bool taint[26]; char *reason;
    GString *g = make(taint, &reason);
    g_free(reason);
    for (int i = 0; i < nwant; ++i) clear_f(&want[i]);
    for (int i = 0; i < nmods; ++i) g_free(wmods[i]);
    static const char *tok[] = { "[<", ">]", "[", "]", "0x", "+0x", "/0x", "(", ")", " from ", "? ", "\n", " ", "\t", "Modules linked in:", "RIP:", "EIP:", "RIP: 0010:", "<IRQ>", "<<EOE>>", "<EOI>", "<", ">", "(unreliable)", ".", "Tainted: ", "a+0x1/0x2", "[<c0>]", "[1.2]", "Pid: ", "CPU", "CR2: ", "0xffffffffffffffffffff", "Last Breaking-Event-Address:\n", "+", "/" };
    int m = 1 + rnd(8);
    while (m--) {
        size_t p = rnd(g->len + 1);
        switch (rnd(5)) {
        case 0: g_string_truncate(g, p); break;
        case 1: g_string_insert(g, p, PICK(tok)); break;
        case 2: if (p < g->len) g_string_erase(g, p, 1); break;
        case 3: if (p < g->len) g->str[p] = PICKC(" []<>()+/?x0\n\t.\xff" "a"); break;
        case 4: { int n = rnd(6); while (n--) g_string_insert(g, p, PICK(tok)); } break;
        }
    }
    char *t = exact(g->str);
    desc("arbitrary text %s", show(t));
    size_t n = strlen(t), start = rnd(n + 1);
    const char *in = t + start;
    struct sr_location loc;
    sr_location_init(&loc);
    vwhere_ = "sr_koops_stacktrace_parse";
    const char *a = t;
    struct sr_koops_stacktrace *s = sr_koops_stacktrace_parse(&a, &loc);
    CHECK(s && a >= t && a <= t + n, "stays inside the text", "pointer left the text");
    sr_koops_stacktrace_free(s);
    vwhere_ = "sr_koops_frame_parse";
    struct sr_koops_frame *f = sr_koops_frame_parse(&in);
    if (!f) CHECK(in == t + start, "nothing parsed, pointer unchanged", "moved by %ld", (long)(in - t - start));
    else CHECK(in > t + start && in <= t + n, "stays inside the text", "at %ld", (long)(in - t));
    if (f) sr_koops_frame_free(f);
    in = t + start;
    vwhere_ = "sr_koops_stacktrace_parse_modules";
    char **mods = sr_koops_stacktrace_parse_modules(&in);
    if (!mods) CHECK(in == t + start, "nothing parsed, pointer unchanged", "moved by %ld", (long)(in - t - start));
    else { CHECK(in > t + start && in <= t + n, "stays inside the text", "left the text"); g_strfreev(mods); nontrivial(); }
    free(t); g_string_free(g, TRUE);
}
static void run_case(void)
{
    unsigned m = rnd(10);
    if (m < 5) case_printed(); else if (m < 7) case_line(); else case_fuzz();
}

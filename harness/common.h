/* Shared part of the replay / bounded-check harnesses: deterministic case generation, failure reporting.
 * A harness defines   static void run_case(void)   and calls CHECK(cond, "oracle", fmt, ...).
 * usage: harness SEED SECONDS [FIRST [COUNT]]     (COUNT=1 replays one case) */
#ifndef VERIF_COMMON_H
#define VERIF_COMMON_H
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include <stdbool.h>
#include <stdarg.h>
#include <limits.h>
#include <signal.h>
#include <unistd.h>
#include <time.h>
#include <glib.h>

static uint64_t rs_;
static uint64_t vseed_, vcase_;
static char vdesc_[8192];
static const char *vwhere_ = "";

static inline uint64_t rnd64(void)
{
    rs_ ^= rs_ >> 12; rs_ ^= rs_ << 25; rs_ ^= rs_ >> 27;
    return rs_ * 0x2545F4914F6CDD1DULL;
}
static inline unsigned rnd(unsigned n) { return n ? (unsigned)((rnd64() >> 11) % n) : 0; }
static inline int chance(unsigned pct) { return rnd(100) < pct; }
#define PICK(a) ((a)[rnd(sizeof(a) / sizeof((a)[0]))])

static void seed_case(uint64_t seed, uint64_t c)
{
    rs_ = seed * 0x9E3779B97F4A7C15ULL + c * 0xD1B54A32D192ED03ULL + 0x1234567;
    if (!rs_) rs_ = 88172645463325252ULL;
    for (int i = 0; i < 8; ++i) rnd64();
}

static void desc(const char *fmt, ...)
{
    va_list ap; va_start(ap, fmt);
    vsnprintf(vdesc_, sizeof(vdesc_), fmt, ap);
    va_end(ap);
}
/* printable copy of a text, for failure reports */
static const char *show_n(const char *s, size_t n)
{
    static char buf[6][2600]; static int k; k = (k + 1) % 6;
    char *o = buf[k];
    if (!s) return "NULL";
    char *e = buf[k] + sizeof(buf[k]) - 12;
    *o++ = '"';
    for (size_t i = 0; i < n && o < e; ++i) {
        unsigned char c = s[i];
        if (c == '"' || c == '\\') { *o++ = '\\'; *o++ = c; }
        else if (c == '\n') { *o++ = '\\'; *o++ = 'n'; }
        else if (c < 32 || c > 126) o += sprintf(o, "\\x%02x", c);
        else *o++ = c;
    }
    *o++ = '"'; *o = 0;
    return buf[k];
}
static const char *show(const char *s) { return s ? show_n(s, strlen(s)) : "NULL"; }

static void vfail(const char *oracle, const char *fmt, ...)
{
    char msg[6000];
    va_list ap; va_start(ap, fmt);
    vsnprintf(msg, sizeof(msg), fmt, ap);
    va_end(ap);
    printf("FAIL oracle=[%s] seed=%llu case=%llu\n  %s\n  input: %s\n", oracle, (unsigned long long)vseed_,
           (unsigned long long)vcase_, msg, vdesc_);
    fflush(stdout);
    _exit(3);
}
#define CHECK(cond, oracle, ...) do { if (!(cond)) vfail(oracle, __VA_ARGS__); } while (0)

static void on_death(void)
{
    printf("FAIL oracle=[memory safety / undefined behaviour / crash] seed=%llu case=%llu\n  in %s\n  input: %s\n",
           (unsigned long long)vseed_, (unsigned long long)vcase_, vwhere_, vdesc_);
    fflush(stdout);
}
void __sanitizer_set_death_callback(void (*cb)(void)) __attribute__((weak));
static void on_alarm(int s)
{
    (void)s;
    char b[10000];
    int n = snprintf(b, sizeof b, "FAIL oracle=[termination: one case took more than 20 s] seed=%llu case=%llu\n  in %s\n  input: %s\n",
           (unsigned long long)vseed_, (unsigned long long)vcase_, vwhere_, vdesc_);
    if (write(1, b, n)) {}
    _exit(3);
}
static void on_abrt(int s)
{
    (void)s; on_death(); _exit(3);
}

static void run_case(void);
#ifdef VERIF_FIXED
static unsigned run_fixed(void);
#endif
static uint64_t vnontrivial_;
static char vsample_[3][1200];
static int vnsample_;
static void nontrivial(void) { ++vnontrivial_; }

/* heap copy of exactly the bytes: ASan sees a read of one byte too many */
static char *exact(const char *s)
{
    size_t n = strlen(s);
    char *p = malloc(n + 1);
    memcpy(p, s, n + 1);
    return p;
}

int main(int argc, char **argv)
{
    setvbuf(stdout, NULL, _IOLBF, 0);
    vseed_ = argc > 1 ? strtoull(argv[1], NULL, 10) : 1;
    double secs = argc > 2 ? atof(argv[2]) : 5;
    uint64_t first = argc > 3 ? strtoull(argv[3], NULL, 10) : 0;
    uint64_t count = argc > 4 ? strtoull(argv[4], NULL, 10) : 0;
    if (__sanitizer_set_death_callback) __sanitizer_set_death_callback(on_death);
    signal(SIGALRM, on_alarm);
    signal(SIGABRT, on_abrt);
    if (!__sanitizer_set_death_callback) { signal(SIGSEGV, on_abrt); signal(SIGFPE, on_abrt); signal(SIGBUS, on_abrt); }
    struct timespec t0, t;
    clock_gettime(CLOCK_MONOTONIC, &t0);
    uint64_t n = 0;
    for (uint64_t c = first; ; ++c) {
        if (count && n >= count) break;
        vcase_ = c;
        vdesc_[0] = 0;
        seed_case(vseed_, c);
        if ((n & 15) == 0) alarm(20);
        run_case();
        ++n;
        if (vnsample_ < 3 && (c % 97) == 13) { snprintf(vsample_[vnsample_++], 1200, "%s", vdesc_); }
        if ((n & 15) == 0 || secs < 1) {
            clock_gettime(CLOCK_MONOTONIC, &t);
            if (!count && (t.tv_sec - t0.tv_sec) + (t.tv_nsec - t0.tv_nsec) / 1e9 > secs) break;
        }
    }
    alarm(0);
    printf("DONE cases=%llu nontrivial=%llu\n", (unsigned long long)n, (unsigned long long)vnontrivial_);
    for (int i = 0; i < vnsample_; ++i) printf("SAMPLE %s\n", vsample_[i]);
    return 0;
}
#endif

#include "vx.h"
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <signal.h>
#include <unistd.h>

#define MAXD 4096
static int choice[MAXD], width[MAXD], nprefix, depth;
static int started, replay_mode, base_prefix;
static unsigned long long execs, nodes, ops, cap, maxdepth;
static char trace[1 << 16];
static size_t ntrace;
static int failed;
static int first_w[2] = {1, 1};

/* distinct abstract states: open addressing set of hashes */
static uint64_t *set; static size_t setcap, setn;
static int set_add(uint64_t h)
{
    if (h == 0) h = 1;
    if ((setn + 1) * 10 > setcap * 7) {
        size_t oc = setcap; uint64_t *o = set;
        setcap = oc ? oc * 2 : 4096; set = calloc(setcap, 8); setn = 0;
        for (size_t i = 0; i < oc; i++) if (o[i]) set_add(o[i]);
        free(o);
    }
    size_t i = (size_t)(h * 0x9E3779B97F4A7C15ull >> 20) % setcap;
    while (set[i]) { if (set[i] == h) return 0; i = i + 1 == setcap ? 0 : i + 1; }
    set[i] = h; setn++; return 1;
}
static long live;
void vx_state(uint64_t h) { long l = live; set_add(h); live = l; }
uint64_t vx_hash(uint64_t h, const void *p, size_t n)
{
    const unsigned char *b = p;
    if (!h) h = 0xcbf29ce484222325ull;
    for (size_t i = 0; i < n; i++) h = (h ^ b[i]) * 0x100000001b3ull;
    return h ? h : 1;
}

static void dump(const char *why)
{
    char buf[256];
    int n;
    (void)!write(1, "\nVX-FAIL ", 9);
    (void)!write(1, why, strlen(why));
    (void)!write(1, "\nVX-CHOICES ", 12);
    for (int i = 0; i < depth; i++) {
        n = snprintf(buf, sizeof buf, "%s%d", i ? "," : "", choice[i]);
        (void)!write(1, buf, n);
    }
    (void)!write(1, "\nVX-TRACE\n", 10);
    (void)!write(1, trace, ntrace);
    (void)!write(1, "\nVX-END\n", 8);
}
static void on_sig(int s)
{
    if (!failed) {
        failed = 1;
        char b[64];
        snprintf(b, sizeof b, "signal %d (%s)", s, s == SIGABRT ? "abort" : s == SIGALRM ? "execution did not terminate" : "crash");
        fflush(stdout);
        dump(b);
    }
    _exit(99);
}
void __asan_on_error(void);
void __asan_on_error(void)
{
    if (!failed) { failed = 1; fflush(stdout); dump("AddressSanitizer error (see stderr)"); }
}
static void summary(void)
{
    printf("\nVX-SUMMARY execs=%llu nodes=%llu ops=%llu distinct=%zu maxdepth=%llu capped=%d w0=%d w1=%d\n", execs, nodes, ops, setn,
           maxdepth, cap && execs >= cap, first_w[0], first_w[1]);
    fflush(stdout);
}
static void on_exit_check(void)
{
    /* exit() called inside an execution (e.g. a failed assertion) */
    if (started && started != 2 && !failed) { failed = 1; fflush(stdout); dump("program exited in the middle of an execution"); _exit(99); }
}
int vx_next(void)
{
    if (!started) {
        started = 1;
        const char *r = getenv("VX_REPLAY");
        if (r) {
            replay_mode = 1;
            while (*r) { choice[nprefix++] = (int)strtol(r, (char **)&r, 10); if (*r == ',') r++; }
        }
        r = getenv("VX_PREFIX");           /* restrict to the subtree below a prefix (parallel split) */
        if (r) {
            while (*r) { choice[nprefix++] = (int)strtol(r, (char **)&r, 10); if (*r == ',') r++; }
            base_prefix = nprefix;
        }
        r = getenv("VX_MAX");
        if (r) cap = strtoull(r, 0, 10);
        signal(SIGABRT, on_sig); signal(SIGILL, on_sig); signal(SIGFPE, on_sig); signal(SIGTRAP, on_sig);
        if (!getenv("VX_NOSEGV")) { signal(SIGSEGV, on_sig); signal(SIGBUS, on_sig); }
        signal(SIGALRM, on_sig);
        atexit(on_exit_check);
        depth = 0; ntrace = 0;
        alarm(20);
        return 1;
    }
    alarm(0);
    execs++;
    if ((unsigned)depth > maxdepth) maxdepth = depth;
    nodes += depth + 1 - (nprefix > depth ? depth : (nprefix ? nprefix - 1 : 0));
    if (depth < nprefix && !replay_mode) { fprintf(stdout, "VX-DIVERGED replay of a prefix ended early\n"); fflush(stdout); _exit(98); }
    if (replay_mode) { printf("VX-TRACE\n%.*s\nVX-END\n", (int)ntrace, trace); started = 2; summary(); return 0; }
    if (cap && execs >= cap) { started = 2; summary(); return 0; }
    int d = depth - 1;
    while (d >= base_prefix && choice[d] + 1 >= width[d]) d--;
    if (d < base_prefix) { started = 2; summary(); return 0; }
    choice[d]++;
    nprefix = d + 1;
    depth = 0; ntrace = 0;
    alarm(20);
    return 1;
}
int vx_choose(int n)
{
    if (n <= 0) { dump("harness error: empty choice"); failed = 1; _exit(98); }
    if (depth >= MAXD) { dump("execution exceeded the choice horizon"); failed = 1; _exit(99); }
    if (execs == 0 && depth < 2) first_w[depth] = n;
    if (depth < base_prefix && choice[depth] >= n) { started = 2; printf("VX-EMPTY\n"); summary(); fflush(stdout); _exit(0); }
    if (depth >= nprefix) choice[depth] = 0;
    else if (choice[depth] >= n) { dump("replay diverged: choice out of range"); failed = 1; _exit(98); }
    width[depth] = n;
    return choice[depth++];
}
void vx_op(const char *fmt, ...)
{
    va_list ap; va_start(ap, fmt);
    ops++;
    if (ntrace + 512 < sizeof trace) {
        int n = vsnprintf(trace + ntrace, 500, fmt, ap);
        if (n > 499) n = 499;
        if (n > 0) ntrace += n;
        trace[ntrace++] = '\n';
    }
    va_end(ap);
}
void vx_fail(const char *fmt, ...)
{
    char b[2000];
    va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
    if (failed) _exit(99);
    failed = 1; fflush(stdout); dump(b); _exit(99);
}
/* reports a failure under a stable key and carries on (for failures that do not corrupt the program) */
static char soft_keys[64][80]; static int nsoft;
void vx_soft(const char *key, const char *fmt, ...)
{
    char b[1500];
    for (int i = 0; i < nsoft; i++) if (!strncmp(soft_keys[i], key, 79)) return;
    if (nsoft == 64) return;
    strncpy(soft_keys[nsoft++], key, 79);
    va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
    fflush(stdout);
    dprintf(1, "\nVX-SOFT %s", key);
    dump(b);
}
void vx_expect_i64(const char *what, int64_t g, int64_t w)
{ if (g != w) vx_fail("%s: got %lld, expected %lld", what, (long long)g, (long long)w); }
void vx_expect_u64(const char *what, uint64_t g, uint64_t w)
{ if (g != w) vx_fail("%s: got %llu, expected %llu", what, (unsigned long long)g, (unsigned long long)w); }
static void esc(char *o, size_t cap_, const unsigned char *s, uint64_t n)
{
    size_t k = 0;
    for (uint64_t i = 0; i < n && k + 6 < cap_; i++)
        if (s[i] >= 32 && s[i] < 127 && s[i] != '\\') o[k++] = s[i]; else k += snprintf(o + k, 6, "\\x%02x", s[i]);
    o[k] = 0;
}
void vx_expect_bytes(const char *what, const void *g, uint64_t ng, const void *w, uint64_t nw)
{
    if (ng == nw && (nw == 0 || memcmp(g, w, nw) == 0)) return;
    char a[700], b[700];
    esc(a, sizeof a, g ? g : (void *)"", g ? (ng < 200 ? ng : 200) : 0); esc(b, sizeof b, w, nw < 200 ? nw : 200);
    vx_fail("%s: got \"%s\" (%llu bytes), expected \"%s\" (%llu bytes)", what, a, (unsigned long long)ng, b, (unsigned long long)nw);
}
/* live heap accounting via the sanitizer allocator hooks */
__attribute__((weak)) int __sanitizer_install_malloc_and_free_hooks(void (*)(const volatile void *, size_t), void (*)(const volatile void *));
static int hooked; static long live0;
static void hm(const volatile void *p, size_t n) { (void)p; (void)n; live++; }
static void hf(const volatile void *p) { if (p) live--; }
long vx_live(void) { return live; }
void vx_leakcheck_begin(void)
{
    if (!hooked && __sanitizer_install_malloc_and_free_hooks) { __sanitizer_install_malloc_and_free_hooks(hm, hf); hooked = 1; }
    live0 = live;
}
long vx_live_delta(void) { return hooked ? live - live0 : 0; }
void vx_leakcheck_end(const char *what)
{
    if (hooked && live != live0) vx_fail("%s: %ld heap block(s) %s", what, live > live0 ? live - live0 : live0 - live, live > live0 ? "leaked" : "freed too many");
}

#define _GNU_SOURCE
#include "vx.h"
#include <string.h>
#include <stdio.h>
#include <stdlib.h>
static const int64_t IV[] = {0, 1, -1, 9, 10, -10, 99, 127, 128, -128, -129, 255, 256, 32767, 32768, -32768, -32769, 65535, 65536,
    2147483647LL, 2147483648LL, -2147483648LL, -2147483649LL, 4294967295LL, 4294967296LL, 999999999999LL,
    9223372036854775807LL, -9223372036854775807LL - 1};
int v_n(void) { return sizeof IV / sizeof *IV; }
int64_t v_i(int i) { return IV[i]; }
static const double FV[] = {0, -0.0, 1, -1, 0.5, 0.1, 1.0 / 3, 1e6, 1e7, 123456789, 1e-4, 1e-5, 1e300, -1e-300, 3.14159265358979, 100000, 999999.5};
int f_n(void) { return sizeof FV / sizeof *FV; }
double f_v(int i) { return FV[i]; }
static char exp_[4096];
static void chk(const char *what, const char *p, uint64_t n) { vx_expect_bytes(what, p, n, exp_, strlen(exp_)); vx_state(vx_hash(3, exp_, strlen(exp_))); }
void x_i(const char *what, int64_t v, const char *p, uint64_t n) { sprintf(exp_, "%lld", (long long)v); chk(what, p, n); }
void x_u(const char *what, uint64_t v, const char *p, uint64_t n) { sprintf(exp_, "%llu", (unsigned long long)v); chk(what, p, n); }
void x_f(const char *what, double v, const char *p, uint64_t n) { sprintf(exp_, "%g", v); chk(what, p, n); }
void x_s(const char *what, const char *w, const char *p, uint64_t n) { strcpy(exp_, w); chk(what, p, n); }
/* reference UTF-8 encoder, written from the definition (RFC 3629 bit layout) */
void x_utf8(uint32_t cp, const char *p, uint64_t n)
{
    unsigned char b[4]; int k;
    if (cp <= 0x7f) { b[0] = cp; k = 1; }
    else if (cp <= 0x7ff) { b[0] = 0xc0 + cp / 64; b[1] = 0x80 + cp % 64; k = 2; }
    else if (cp <= 0xffff) { b[0] = 0xe0 + cp / 4096; b[1] = 0x80 + cp / 64 % 64; b[2] = 0x80 + cp % 64; k = 3; }
    else { b[0] = 0xf0 + cp / 262144; b[1] = 0x80 + cp / 4096 % 64; b[2] = 0x80 + cp / 64 % 64; b[3] = 0x80 + cp % 64; k = 4; }
    if (n != (uint64_t)k || memcmp(p, b, k)) vx_op("code point U+%04X", cp);
    vx_expect_bytes("UTF-8 encoding", p, n, b, k);
}
/* buffered stream: everything appended, in order, and nothing else */
static char want[4096], got[4096]; static uint64_t nw, ng; static unsigned char ctr;
void b_reset(void) { nw = ng = 0; ctr = 0; }
const char *b_data(uint64_t n) { static char t[256]; for (uint64_t i = 0; i < n; i++) t[i] = 'A' + ctr++ % 26; memcpy(want + nw, t, n); nw += n; return t; }
void b_flush(const char *p, uint64_t n) { memcpy(got + ng, p, n); ng += n; if (ng > nw || memcmp(got, want, ng)) vx_fail("flushed bytes differ from the appended ones (after %d bytes)", (int)ng); }
void b_sync(const char *when) { if (ng != nw) vx_fail("%s: %d of %d bytes reached the sink", when, (int)ng, (int)nw); vx_state(vx_hash(5, &nw, 8)); }
void b_bound(uint64_t cap) { if (nw - ng > cap) vx_fail("more bytes held back than the buffer can hold"); }

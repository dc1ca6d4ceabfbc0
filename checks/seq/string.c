#define _GNU_SOURCE
#include "vx.h"
#include <string.h>
#include <stdio.h>
#include <stdlib.h>
/* reference model of String: a byte array */
static char m[512]; static int64_t n;
void m_reset(void) { n = 0; }
uint64_t m_size(void) { return n; }
void m_add(const char *s, uint64_t k) { memcpy(m + n, s, k); n += k; }
void m_adds(const char *s) { m_add(s, strlen(s)); }
void m_self(void) { m_add(strndupa(m, n), n); }
void m_addi(int64_t v) { n += sprintf(m + n, "%lld", (long long)v); }
void m_clear(void) { n = 0; }
void m_trim(int which)
{
    int64_t l = 0;
    if (which != 1) { while (l < n && m[l] == ' ') l++; memmove(m, m + l, n - l); n -= l; }
    if (which != 0) while (n > 0 && m[n - 1] == ' ') n--;
}
void m_resize(uint64_t k) { n = k; }
/* the contents, and the terminator str() promises to C functions */
void m_check(const char *what, const char *p, uint64_t k)
{
    vx_expect_bytes(what, p, k, m, n);
    if (p && p[k] != 0) vx_fail("%s is not NUL terminated", what);
    vx_state(vx_hash(1, m, n));
}
int64_t m_index(int c) { char *p = memchr(m, c, n); return p ? p - m : -1; }
int64_t m_rindex(int c) { for (int64_t i = n; i-- > 0;) if (m[i] == c) return i; return -1; }
int m_byte(int i) { return i < n ? (unsigned char)m[i] : -1; }
int m_eq(const char *s) { return (int64_t)strlen(s) == n && !memcmp(s, m, n); }
int m_starts(const char *s) { int64_t k = strlen(s); return k <= n && !memcmp(m, s, k); }
int m_ends(const char *s) { int64_t k = strlen(s); return k <= n && !memcmp(m + n - k, s, k); }
static int order(const char *s) { int64_t k = strlen(s); return n != k ? (n < k ? -1 : 1) : n ? memcmp(m, s, n) : 0; }
void m_rel(const char *s, int eq, int ne, int lt, int le, int gt, int ge)
{
    int w = order(s);
    vx_expect_i64("==", eq, w == 0); vx_expect_i64("!=", ne, w != 0); vx_expect_i64("<", lt, w < 0);
    vx_expect_i64("<=", le, w <= 0); vx_expect_i64(">", gt, w > 0); vx_expect_i64(">=", ge, w >= 0);
}
void m_sub(uint64_t a, int64_t c, const char *p, uint64_t k) { vx_expect_bytes("substr()", p, k, m + a, c < 0 ? (uint64_t)n - a : (uint64_t)c); }

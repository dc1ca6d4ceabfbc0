#define _GNU_SOURCE
#include "vx.h"
#include <string.h>
#include <stdio.h>
#include <stdlib.h>
/* Views into a longer buffer (no terminator after the view), compared with plain byte-array definitions. */
static char *A, *B; static uint64_t na, nb;
static char ABC[] = {'a', 'b', ' '};
static int cmpm[64][64]; static int pidx;
static uint64_t code(const char *p, int n) { uint64_t c = 0; for (int i = 0; i < n; i++) c = c * 3 + (p[i] == 'a' ? 0 : p[i] == 'b' ? 1 : 2); return c; }
void m_pick(int maxa, int maxb)
{
    free(A); free(B);
    na = vx_choose(maxa + 1); nb = vx_choose(maxb + 1);
    /* exactly sized blocks: one byte of slack after the view, which is not a terminator and not white space */
    A = malloc(na + 1); B = malloc(nb + 1);
    for (uint64_t i = 0; i < na; i++) A[i] = ABC[vx_choose(3)];
    for (uint64_t i = 0; i < nb; i++) B[i] = ABC[vx_choose(3)];
    A[na] = 'b'; B[nb] = 'a';
    vx_op("view \"%.*s\" other \"%.*s\"", (int)na, A, (int)nb, B);
    vx_state(vx_hash(vx_hash(7 + na, A, na), B, nb));
}
const char *m_a(void) { return A; }
const char *m_b(void) { return B; }
uint64_t m_na(void) { return na; }
uint64_t m_nb(void) { return nb; }
static int sp(char c) { return c == ' '; }
void m_trim(int which, const char *p, uint64_t n)
{
    uint64_t l = 0, r = na;
    if (which != 1) while (l < r && sp(A[l])) l++;
    if (which != 0) while (r > l && sp(A[r - 1])) r--;
    vx_expect_bytes(which == 0 ? "trimLeft()" : which == 1 ? "trimRight()" : "trim()", p, n, A + l, r - l);
}
static int order(const char *x, uint64_t nx, const char *y, uint64_t ny)
{ if (nx != ny) return nx < ny ? -1 : 1; return nx ? memcmp(x, y, nx) : 0; }
/* the six relations belong to one strict total order whose equality is byte equality (the order the
 * library defines: shorter strings first, then by bytes) */
void m_rel(int eq, int ne, int lt, int le, int gt, int ge, int cmp)
{
    int w = order(A, na, B, nb);
    vx_expect_i64("==", eq, w == 0); vx_expect_i64("!=", ne, w != 0);
    if (lt + eq + gt != 1) vx_fail("<, ==, > are not mutually exclusive: %d %d %d", lt, eq, gt);
    vx_expect_i64("<= is < or ==", le, lt | eq); vx_expect_i64(">= is > or ==", ge, gt | eq);
    vx_expect_i64("compare() < 0 iff <", cmp < 0, lt); vx_expect_i64("compare() > 0 iff >", cmp > 0, gt);
    vx_expect_i64("<", lt, w < 0);
}
int64_t m_index(int c) { char *p = memchr(A, c, na); return p ? p - A : -1; }
int64_t m_rindex(int c) { for (int64_t i = na; i-- > 0;) if (A[i] == c) return i; return -1; }
int64_t m_find(void) { char *p = na >= nb ? memmem(A, na, B, nb) : 0; return p ? p - A : -1; }
int64_t m_rfind(void) { for (int64_t i = (int64_t)na - (int64_t)nb; i >= 0; i--) if (!memcmp(A + i, B, nb)) return i; return -1; }
int m_starts(void) { return na >= nb && !memcmp(A, B, nb); }
int m_ends(void) { return na >= nb && !memcmp(A + na - nb, B, nb); }
void m_substr(uint64_t start, int64_t count, const char *p, uint64_t n)
{ vx_expect_bytes("substr()", p, n, A + start, count < 0 ? na - start : (uint64_t)count); }
void m_copied(const char *p) { char *e = strndup(A, na); vx_expect_bytes("copyto()", p, strlen(p), e, na); free(e); }
/* numbers */
static const char DIG[] = "-+019ax .";
void m_picknum(int max)
{
    free(A); na = vx_choose(max + 1); A = malloc(na + 2);
    for (uint64_t i = 0; i < na; i++) A[i] = DIG[vx_choose(sizeof DIG - 1)];
    A[na] = '9'; A[na + 1] = 0;
    vx_op("number \"%.*s\"", (int)na, A);
    vx_state(vx_hash(9, A, na));
}
int64_t m_toi(int base) { char *t = strndup(A, na); int64_t v = strtoll(t, 0, base); free(t); return v; }
void m_tof(double g) { char *t = strndup(A, na); double w = strtod(t, 0); free(t); if (memcmp(&g, &w, 8)) vx_fail("tof(): got %g expected %g", g, w); }
/* long texts (exactly sized heap buffers) and the reference FNV-1a of them */
void m_long(int n) { free(A); A = malloc(n + 1); na = n; for (int i = 0; i < n; i++) A[i] = "abcdefgh \xc3\x80z"[i * 7 % 12]; A[n] = 0; vx_state(vx_hash(11, A, n)); }
int64_t m_fnv(void) { uint32_t h = 0x01000193; for (uint64_t i = 0; i < na; i++) h = (h ^ (unsigned char)A[i]) * 0x01000193u; return h; }

#include "vx.h"
#include <string.h>
#include <stdio.h>
/* reference model of Vector[i32]: a plain array */
static int32_t m[64]; static int n;
void m_reset(void) { n = 0; }
int m_size(void) { return n; }
int m_at(int i) { return m[i]; }
void m_push(int v) { m[n++] = v; }
int m_pop(void) { return m[--n]; }
int m_shift(void) { int v = m[0]; memmove(m, m + 1, sizeof(m[0]) * --n); return v; }
void m_truncate(int k) { if (k < n) n = k; }
void m_set(int i, int v) { m[i] = v; }
int m_index(int v) { for (int i = 0; i < n; i++) if (m[i] == v) return i; return -1; }
int64_t m_fold(int64_t a) { for (int i = 0; i < n; i++) a = a * 10 + m[i]; return a; }
static int nseen;
void m_each_begin(void) { nseen = 0; }
void m_each(int v) { if (nseen >= n || m[nseen] != v) vx_fail("each(): visit %d is %d, expected %d", nseen, v, nseen < n ? m[nseen] : -1); nseen++; }
void m_each_end(void) { if (nseen != n) vx_fail("each()/iteration visited %d of %d elements", nseen, n); }
void m_str(const char *s, uint64_t len)
{
    char b[512]; int k = 0;
    b[k++] = '[';
    for (int i = 0; i < n; i++) k += sprintf(b + k, "%s%d", i ? ", " : "", m[i]);
    b[k++] = ']';
    vx_expect_bytes("str", s, len, b, k);
    vx_state(vx_hash(0, b, k));
}

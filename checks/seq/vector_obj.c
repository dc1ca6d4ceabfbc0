#include "vx.h"
#include <string.h>
/* reference model: a plain array of ids, and which objects are alive */
static int64_t m[64]; static int n; static int alive[256]; static int nextid;
void m_reset(void) { n = 0; nextid = 1; memset(alive, 0, sizeof alive); }
int64_t m_fresh(void) { return nextid++; }
void m_born(int64_t id) { alive[id]++; }
void m_died(int64_t id) { if (--alive[id] < 0) vx_fail("object %d destroyed twice", (int)id); }
int m_size(void) { return n; }
int64_t m_at(int i) { return m[i]; }
void m_push(int64_t v) { m[n++] = v; }
int64_t m_pop(void) { return m[--n]; }
int64_t m_shift(void) { int64_t v = m[0]; memmove(m, m + 1, sizeof(m[0]) * --n); return v; }
void m_truncate(int k) { if (k < n) n = k; }
void m_set(int i, int64_t v) { m[i] = v; }
/* every object that is in the vector is alive and every other one has been destroyed */
void m_check_alive(void)
{
    for (int id = 1; id < nextid; id++) {
        int in = 0;
        for (int i = 0; i < n; i++) in |= m[i] == id;
        if (in && alive[id] != 1) vx_fail("object %d is an element but has been destroyed", id);
        if (!in && alive[id] != 0) vx_fail("object %d is no longer referenced but was not destroyed", id);
    }
    vx_state(vx_hash(vx_hash(0, m, n * sizeof m[0]), &n, sizeof n));
}

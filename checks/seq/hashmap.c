#include "vx.h"
#include <string.h>
#include <stdio.h>
/* reference model of HashMap[i32, Obj]: an association array */
static int64_t val[64]; static int has[64]; static int n;
static int alive[512]; static int nextid; static int seen[64]; static int nseen;
static const int keyset[][8] = {
    {4, 9, 14, 0, 3, 5, 19, 1},     /* homes 4,4,4,0,3,0 (mod 5): clusters that wrap around the end of the table */
    {0, 5, 10, 1, 6, 2, 11, 3},     /* homes 0,0,0,1,1,2: displacement chains */
    {10, 21, 32, 0, 4, 9, 1, 43},   /* mod 11: 10,10,10,0,4,9,1,10 */
};
static int ks;
void m_reset(int keys) { ks = keys; n = 0; nextid = 1; memset(alive, 0, sizeof alive); memset(has, 0, sizeof has); memset(val, 0, sizeof val); }
int m_key(int k) { return keyset[ks][k]; }
int64_t m_fresh(void) { return nextid++; }
void m_born(int64_t id) { alive[id]++; }
void m_died(int64_t id) { if (--alive[id] < 0) vx_fail("object %d destroyed twice", (int)id); }
int m_size(void) { return n; }
int m_has(int key) { return has[key]; }
int64_t m_get(int key) { return has[key] ? val[key] : -1; }
void m_put(int key, int64_t v) { if (!has[key]) n++; has[key] = 1; val[key] = v; }
void m_del(int key) { if (has[key]) n--; has[key] = 0; val[key] = 0; }
void m_clear(void) { memset(has, 0, sizeof has); memset(val, 0, sizeof val); n = 0; }
void m_iter_begin(void) { memset(seen, 0, sizeof seen); nseen = 0; }
void m_iter(int key, int64_t v)
{
    if (key < 0 || key >= 64 || !has[key]) vx_fail("iteration yields key %d which is not in the map", key);
    if (seen[key]++) vx_fail("iteration yields key %d twice", key);
    if (v >= 0 && val[key] != v) vx_fail("iteration yields %d for key %d, expected %d", (int)v, key, (int)val[key]);
    nseen++;
}
void m_iter_end(void) { if (nseen != n) vx_fail("iteration yields %d of %d entries", nseen, n); }
void m_check_alive(void)
{
    for (int id = 1; id < nextid; id++) {
        int in = 0;
        for (int i = 0; i < 64; i++) in |= has[i] && val[i] == id;
        if (in && alive[id] != 1) vx_fail("object %d is a value of the map but has been destroyed", id);
        if (!in && alive[id] != 0) vx_fail("object %d is no longer in the map but was not destroyed", id);
    }
    vx_state(vx_hash(vx_hash(0, has, sizeof has), &ks, sizeof ks));
}

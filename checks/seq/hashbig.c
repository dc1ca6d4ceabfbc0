#include "vx.h"
#include <string.h>
/* reference: which of the n inserted keys (i * stride) are present */
static char has[4096], seen[4096]; static int n, stride, nseen;
static const int S[] = {1, 5, 11, 23, 53, 101, 197, 389};
int g_strides(void) { return sizeof S / sizeof *S; }
void g_reset(int k) { memset(has, 0, sizeof has); n = 0; stride = S[k]; }
int g_key(int i) { return i * stride; }
void g_put(int i) { if (!has[i]) n++; has[i] = 1; }
void g_del(int i) { if (has[i]) n--; has[i] = 0; }
int g_has(int i) { return has[i]; }
int g_size(void) { return n; }
void g_begin(void) { memset(seen, 0, sizeof seen); nseen = 0; }
void g_iter(int key, int v)
{
    int i = key / stride;
    if (key % stride || i < 0 || i >= 4096 || !has[i]) vx_fail("iteration yields key %d which is not in the table", key);
    if (v != -1 && v != i) vx_fail("iteration yields value %d for key %d", v, key);
    if (seen[i]++) vx_fail("iteration yields key %d twice", key);
    nseen++;
    if (nseen > n) vx_fail("iteration yields more entries than the table holds");
}
void g_end(void) { if (nseen != n) vx_fail("iteration yields %d of %d entries", nseen, n); vx_state(vx_hash(vx_hash(1, has, sizeof has), &stride, 4)); }

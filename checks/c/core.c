/* Exhaustive operation histories of the compiler's own containers against reference models.
 * usage: core FAMILY DEPTH SHARD NSHARDS ; prints "X family why history" per violation (at most 20) and "N states ops". */
#include "core/alloc.h"
#include "core/array.h"
#include "core/format.h"
#include "core/hash.h"
#include "core/hmap.h"
#include "core/htable.h"
#include "core/mempool.h"
#include "core/sb.h"
#include "core/strpool.h"
#include "core/utils.h"
#include <assert.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <signal.h>

void resizeDynArrayExplicit(DynArray *, size_t);
__attribute__((weak)) void printType(FormatState *s, const struct Type *t) { (void)s; (void)t; }

static uint64_t nstates, nops;
static int nviol;
static char hist[4096];
static const char *fam;

static void fail(const char *why)
{
    if (nviol++ < 5)
        printf("X %s %s %s\n", fam, why, hist), fflush(stdout);
    if (nviol > 200) { printf("N %lu %lu\n", nstates, nops); exit(0); }
}
static void died(int sig)
{
    char b[4600];
    int n = snprintf(b, sizeof b, "X %s %s %s\nN %lu %lu\n", fam, sig == SIGALRM ? "hangs" : "crashes", hist, nstates, nops);
    (void)!write(1, b, n);
    _exit(3);
}
#if defined(__has_feature)
#if __has_feature(address_sanitizer)
const char *__asan_default_options(void) { return "detect_leaks=0:handle_abort=0:handle_segv=0:abort_on_error=1:allocator_may_return_null=0:quarantine_size_mb=1"; }
#endif
#endif

/* ---------------------------------------------------------------- visited sets */
typedef struct { uint64_t *v; size_t cap, n; } Seen;
static void seenClear(Seen *s) { if (!s->v) { s->cap = 1 << 12; s->v = malloc(8 * s->cap); } memset(s->v, 0, 8 * s->cap); s->n = 0; }
static bool seenAdd(Seen *s, uint64_t h)
{
    if (!h) h = 1;
    if (s->n * 2 > s->cap) {
        uint64_t *o = s->v; size_t oc = s->cap;
        s->cap *= 2; s->v = calloc(s->cap, 8); s->n = 0;
        for (size_t i = 0; i < oc; i++) if (o[i]) seenAdd(s, o[i]);
        free(o);
    }
    size_t i = (h * 0x9E3779B97F4A7C15ull >> 20) & (s->cap - 1);
    while (s->v[i]) { if (s->v[i] == h) return false; i = (i + 1) & (s->cap - 1); }
    s->v[i] = h; s->n++;
    return true;
}
static uint64_t mix(uint64_t h, uint64_t x) { h ^= x + 0x9E3779B97F4A7C15ull + (h << 6) + (h >> 2); h *= 0xff51afd7ed558ccdull; return h ^ (h >> 33); }

/* ---------------------------------------------------------------- HashTable */
#define MAXKEYS 12
static uint32_t khash[MAXKEYS];
static size_t esize;
typedef struct { uint8_t key; uint8_t pad[23]; } Elem;
static bool cmpElem(const void *a, const void *b) { return *(const uint8_t *)a == *(const uint8_t *)b; }
static void mkElem(Elem *e, int key, int tag) { memset(e, tag, sizeof *e); e->key = (uint8_t)key; }
static unsigned seenKeys;
static int seenCount, stopAfter;
static bool visit(void *ctx, const void *e) { (void)ctx; seenKeys |= 1u << *(const uint8_t *)e; seenCount++; return seenCount != stopAfter; }

static uint64_t checkTable(HashTable *t, unsigned model, int nkeys)
{
    Elem e;
    if (t->size != (size_t)__builtin_popcount(model)) fail("size");
    for (int k = 0; k < nkeys; k++) {
        mkElem(&e, k, 0);
        uint8_t *p = findInHashTable(t, &e, khash[k], esize, cmpElem);
        bool want = model >> k & 1;
        if ((p != NULL) != want) fail(want ? "lost" : "phantom");
        else if (p) {
            mkElem(&e, k, 0x40 + k);
            if (memcmp(p, &e, esize)) fail("content");
        }
    }
    seenKeys = 0, seenCount = 0, stopAfter = -1;
    enumerateHashTable(t, NULL, visit, esize);
    if (seenKeys != model || seenCount != __builtin_popcount(model)) fail("enumerate");
    if (model) {
        seenCount = 0, stopAfter = 1;
        enumerateHashTable(t, NULL, visit, esize);
        if (seenCount != 1) fail("enumerate-stop");
    }
    HashtableIt it = newHashTableIt(t, esize);
    unsigned m = 0;
    int n = 0;
    uint64_t h = mix(7, t->capacity);
    for (;;) {
        bool has = n & 1 ? hashTableItHasNext(&it) : true;
        uint8_t *p = hashTableItNext(&it);
        if (!p) {
            if (n & 1 ? has : hashTableItHasNext(&it)) fail("hasNext");
            break;
        }
        if (!has) fail("hasNext");
        m |= 1u << *p;
        if (++n > 64) break;
    }
    if (m != model || n != __builtin_popcount(model)) fail("iterator");
    /* arrangement (the order of insertion shows in it) */
    size_t occ = 0;
    for (size_t i = 0; i < t->capacity; i++) {
        if (isBucketOccupied(t, i)) { h = mix(h, i * 64 + ((uint8_t *)t->elems)[i * esize]); occ++; }
    }
    if (occ != t->size) fail("occupied");
    return h;
}

typedef struct { int op; int parent; unsigned model; int depth; } Node;
static Node *nodes;
static size_t nnodes, capnodes;
static int addNode(int op, int parent, unsigned model, int depth)
{
    if (nnodes == capnodes) nodes = realloc(nodes, sizeof(Node) * (capnodes = capnodes ? capnodes * 2 : 4096));
    nodes[nnodes] = (Node){op, parent, model, depth};
    return (int)nnodes++;
}

static unsigned applyTable(HashTable *t, int op, unsigned model, int nkeys, bool check)
{
    Elem e;
    nops++;
    if (op < nkeys) {
        mkElem(&e, op, 0x40 + op);
        bool r = insertInHashTable(t, &e, khash[op], esize, cmpElem);
        if (check && r != !(model >> op & 1)) fail("insert-result");
        return model | 1u << op;
    }
    op -= nkeys;
    if (op < nkeys) {
        mkElem(&e, op, 0);
        void *p = findInHashTable(t, &e, khash[op], esize, cmpElem);
        if (p) removeFromHashTable(t, p, esize);
        return model & ~(1u << op);
    }
    clearHashTable(t);
    return 0;
}

static void histTable(int id, int op, int nkeys, const char *what)
{
    int path[256], n = 0;
    for (int i = id; i > 0; i = nodes[i].parent) path[n++] = nodes[i].op;
    int o = snprintf(hist, sizeof hist, "%s,elem=%zu,hashes=", what, esize);
    for (int k = 0; k < nkeys; k++) o += snprintf(hist + o, sizeof hist - o, "%x.", khash[k]);
    hist[o++] = ':';
    for (int i = n - 1; i >= -1 && o < 4000; i--) {
        int p = i < 0 ? op : path[i];
        if (p < 0) break;
        o += snprintf(hist + o, sizeof hist - o, "%c%d", "+-*/"[p / nkeys], p % nkeys);
    }
    hist[o] = 0;
}

static void tableOne(int nkeys, int depth)
{
    static Seen seen;
    seenClear(&seen);
    nnodes = 0;
    addNode(-1, 0, 0, 0);
    for (size_t id = 0; id < nnodes; id++) {
        if (nodes[id].depth >= depth) continue;
        for (int op = 0; op < 2 * nkeys + 1; op++) {
            if (op >= nkeys && op < 2 * nkeys && !(nodes[id].model >> (op - nkeys) & 1)) continue;
            if (op == 2 * nkeys && !nodes[id].model) continue;
            histTable((int)id, op, nkeys, "table");
            int path[256], n = 0;
            for (int i = (int)id; i > 0; i = nodes[i].parent) path[n++] = nodes[i].op;
            HashTable t = newHashTable(esize);
            unsigned m = 0;
            while (n--) m = applyTable(&t, path[n], m, nkeys, false);
            m = applyTable(&t, op, m, nkeys, true);
            uint64_t h = checkTable(&t, m, nkeys);
            freeHashTable(&t);
            if (seenAdd(&seen, h)) {
                nstates++;
                addNode(op, (int)id, m, nodes[id].depth + 1);
            }
        }
    }
}

/* hash values: same and different residues of the first table sizes, equal hashes, the top bit */
static uint32_t pickHash(int r7, int r17, int n)
{
    for (uint32_t h = 1;; h++) {
        uint32_t x = h | 0x80000000u;
        if (x % 7 == (uint32_t)r7 && x % 17 == (uint32_t)r17 && n-- == 0) return h;
    }
}

static void famTable(int depth, int shard, int nshards)
{
    uint32_t pool[16];
    int np = 0;
    for (int r = 0; r < 7; r++) pool[np++] = pickHash(r, (r * 3 + 11) % 17, 0);
    pool[np++] = pickHash(6, 16, 0);
    pool[np++] = pickHash(6, 16, 1);
    pool[np++] = pickHash(6, 15, 0) | 0x80000000u;
    int nkeys = depth, idx[MAXKEYS], job = 0;
    memset(idx, 0, sizeof idx);
    for (;;) {
        if (job++ % nshards == shard) {
            static const size_t sizes[] = {1, 8, 24, 4};
            esize = sizes[job / nshards % 4];
            for (int k = 0; k < nkeys; k++) khash[k] = pool[idx[k]];
            tableOne(nkeys, nkeys + 4);
        }
        int k = nkeys - 1;
        while (k >= 0 && idx[k] == np - 1) k--;
        if (k < 0) break;
        int v = idx[k] + 1;
        for (; k < nkeys; k++) idx[k] = v;
    }
}


/* many keys: growth over several sizes, then removal in every stride, then reinsertion */
static bool cmp32(const void *a, const void *b) { return *(const uint32_t *)a == *(const uint32_t *)b; }
static uint32_t hash32(uint32_t v, int kind) { return kind == 0 ? v : kind == 1 ? v * 7 : kind == 2 ? 5 + v % 3 : kind == 3 ? v * 2654435761u : 0x7ffffff8u + v; }
static void growCheck(HashTable *t, const uint8_t *in, int n, int kind)
{
    size_t c = 0, k = 0;
    for (uint32_t v = 0; v < (uint32_t)n; v++) {
        uint32_t *p = findInHashTable(t, &v, hash32(v, kind), 4, cmp32);
        if (!p != !in[v]) fail(in[v] ? "lost" : "phantom");
        else if (p && *p != v) fail("content");
        c += in[v];
    }
    if (t->size != c) fail("size");
    HashtableIt it = newHashTableIt(t, 4);
    uint8_t *got = calloc((size_t)n + 1, 1);
    for (uint32_t *p; (p = hashTableItNext(&it)); k++)
        if (*p >= (uint32_t)n || got[*p]++ || !in[*p]) { fail("iterator"); break; }
    if (k != c) fail("iterator");
    free(got);
}
static void famGrow(int depth, int shard, int nshards)
{
    int job = 0;
    for (int n = 1; n <= depth; n += n < 40 ? 1 : n < 300 ? 43 : 701)
        for (int kind = 0; kind < 5; kind++)
            for (int stride = 1; stride <= 5; stride++) {
                if (job++ % nshards != shard) continue;
                snprintf(hist, sizeof hist, "grow:n=%d,kind=%d,stride=%d", n, kind, stride);
                HashTable t = newHashTableWithCapacity(4, (size_t)stride * 3 - 3);
                uint8_t *in = calloc((size_t)n, 1);
                for (int round = 0; round < 2; round++) {
                    for (uint32_t v = 0; v < (uint32_t)n; v++, nops++) {
                        if (insertInHashTable(&t, &v, hash32(v, kind), 4, cmp32) == in[v]) fail("insert-result");
                        in[v] = 1;
                    }
                    growCheck(&t, in, n, kind);
                    for (uint32_t v = 0; v < (uint32_t)n; v += (uint32_t)stride, nops++) {
                        void *p = findInHashTable(&t, &v, hash32(v, kind), 4, cmp32);
                        if (p) removeFromHashTable(&t, p, 4), in[v] = 0;
                        else fail("lost");
                    }
                    growCheck(&t, in, n, kind);
                    nstates += 2;
                    if (round == 0 && stride == 5) { clearHashTable(&t); memset(in, 0, (size_t)n); growCheck(&t, in, n, kind); }
                }
                freeHashTable(&t);
                free(in);
            }
}

/* ---------------------------------------------------------------- Hmap */
typedef struct { uint32_t key; uint32_t val; } Item;
static HashCode hashItem(const void *p) { return khash[((const Item *)p)->key]; }
static bool eqItem(const void *a, const void *b) { return ((const Item *)a)->key == ((const Item *)b)->key; }
static uint64_t checkHmap(Hmap *m, const int *model, int nkeys)
{
    uint64_t h = mix(9, m->nslots);
    size_t c = 0;
    for (int k = 0; k < nkeys; k++) {
        Item q = {(uint32_t)k, 0xdead};
        Item *p = hmapGet(m, &q);
        if (!p != (model[k] < 0)) fail(p ? "phantom" : "lost");
        else if (p && (p->key != (uint32_t)k || p->val != (uint32_t)model[k])) fail("content");
        else if (p && hmapGet(m, p) != p) fail("get-item");
        c += model[k] >= 0;
    }
    if (m->nitems != c) fail("size");
    HmapIterator it = hmapIterator(m);
    unsigned seen = 0;
    size_t n = 0;
    for (Item *p; (p = hmapNext(&it)) && n < 64; n++) {
        if (p->key >= (uint32_t)nkeys || seen >> p->key & 1 || (int)p->val != model[p->key]) { fail("iterator"); break; }
        seen |= 1u << p->key;
        h = mix(h, (uint64_t)((char *)p - (char *)m->data) * 64 + p->key * 4 + p->val);
    }
    if (n != c) fail("iterator");
    return h;
}
static void applyHmap(Hmap *m, int op, int *model, int nkeys, bool check)
{
    nops++;
    if (op < 2 * nkeys) {
        Item q = {(uint32_t)(op / 2), (uint32_t)(op % 2)};
        HmapStatus s = hmapPut(m, &q);
        if (check && s.s != (model[op / 2] < 0)) fail("put-result");
        Item *p = s.f;
        if (check && (!p || p->key != q.key || p->val != q.val)) fail("put-item");
        model[op / 2] = op % 2;
        return;
    }
    op -= 2 * nkeys;
    if (op < nkeys) {
        Item q = {(uint32_t)op, 77};
        hmapRemove(m, &q);
        model[op] = -1;
        return;
    }
    hmapClear(m);
    for (int k = 0; k < nkeys; k++) model[k] = -1;
}
static void hmapOne(int nkeys, int depth, uint64_t cap)
{
    static Seen seen;
    seenClear(&seen);
    nnodes = 0;
    addNode(-1, 0, 0, 0);
    for (size_t id = 0; id < nnodes; id++) {
        if (nodes[id].depth >= depth) continue;
        for (int op = 0; op < 3 * nkeys + 1; op++) {
            int path[256], n = 0, model[MAXKEYS];
            for (int i = (int)id; i > 0; i = nodes[i].parent) path[n++] = nodes[i].op;
            int o = snprintf(hist, sizeof hist, "hmap,capacity=%lu,homes=", cap);
            for (int k = 0; k < nkeys; k++) o += snprintf(hist + o, sizeof hist - o, "%u.", khash[k]);
            hist[o++] = ':';
            for (int i = n - 1; i >= -1; i--) {
                int p = i < 0 ? op : path[i];
                if (p < 2 * nkeys) o += snprintf(hist + o, sizeof hist - o, "+%d=%d", p / 2, p % 2);
                else if (p < 3 * nkeys) o += snprintf(hist + o, sizeof hist - o, "-%d", p - 2 * nkeys);
                else o += snprintf(hist + o, sizeof hist - o, "clear");
            }
            Hmap m = hmapCreateWithCapacity(sizeof(Item), hashItem, eqItem, cap);
            for (int k = 0; k < nkeys; k++) model[k] = -1;
            while (n--) applyHmap(&m, path[n], model, nkeys, false);
            applyHmap(&m, op, model, nkeys, true);
            uint64_t h = checkHmap(&m, model, nkeys);
            hmapDestroy(&m);
            if (seenAdd(&seen, h)) {
                nstates++;
                addNode(op, (int)id, 0, nodes[id].depth + 1);
            }
        }
    }
}
static void famHmap(int depth, int shard, int nshards)
{
    int nkeys = depth, idx[MAXKEYS], job = 0;
    static const uint32_t pool[] = {0, 1, 4, 10, 5, 9, 14, 54}; /* residues of 5, 11 and 23, equal homes included */
    int np = sizeof pool / sizeof *pool;
    memset(idx, 0, sizeof idx);
    for (;;) {
        if (job++ % nshards == shard) {
            for (int k = 0; k < nkeys; k++) khash[k] = pool[idx[k]];
            hmapOne(nkeys, nkeys + 3, (uint64_t)(job / nshards % 3) * 4);
        }
        int k = nkeys - 1;
        while (k >= 0 && idx[k] == np - 1) k--;
        if (k < 0) break;
        int v = idx[k] + 1;
        for (; k < nkeys; k++) idx[k] = v;
    }
}
/* large maps: growth, removal in every stride and shrinking */
static int hkind;
static HashCode hashBig(const void *p) { return hash32(((const Item *)p)->key, hkind); }
static void hmapBigCheck(Hmap *m, const uint8_t *in, int n)
{
    size_t c = 0, k = 0;
    for (int v = 0; v < n; v++) {
        Item q = {(uint32_t)v, 0}, *p = hmapGet(m, &q);
        if (!p != !in[v]) fail(in[v] ? "lost" : "phantom");
        else if (p && (p->key != (uint32_t)v || p->val != in[v])) fail("content");
        c += in[v] != 0;
    }
    HmapIterator it = hmapIterator(m);
    for (Item *p; (p = hmapNext(&it)); k++) if (p->key >= (uint32_t)n || !in[p->key]) { fail("iterator"); break; }
    if (k != c || m->nitems != c) fail("size");
}
static void famHgrow(int depth, int shard, int nshards)
{
    int job = 0;
    for (int n = 1; n <= depth; n += n < 40 ? 1 : n < 300 ? 43 : 701)
        for (hkind = 0; hkind < 5; hkind++)
            for (int stride = 1; stride <= 4; stride++) {
                if (job++ % nshards != shard) continue;
                if (hkind == 2 && n > 300) continue;
                snprintf(hist, sizeof hist, "hgrow:n=%d,kind=%d,stride=%d", n, hkind, stride);
                Hmap m = hmapCreate(sizeof(Item), hashBig, eqItem);
                uint8_t *in = calloc((size_t)n, 1);
                for (int round = 1; round < 3; round++) {
                    for (int v = 0; v < n; v++, nops++) {
                        Item q = {(uint32_t)v, (uint32_t)round};
                        if (hmapPut(&m, &q).s == (in[v] != 0)) fail("put-result");
                        in[v] = (uint8_t)round;
                    }
                    hmapBigCheck(&m, in, n);
                    for (int v = n - 1; v >= 0; v -= stride, nops++) {
                        Item q = {(uint32_t)v, 9};
                        hmapRemove(&m, &q);
                        in[v] = 0;
                    }
                    hmapBigCheck(&m, in, n);
                    nstates += 2;
                }
                hmapDestroy(&m);
                free(in);
            }
}

/* ---------------------------------------------------------------- DynArray */
static void famArray(int depth, int shard, int nshards)
{
    /* ops: push, pop, resize-to {0,1,3,6,9}, copy-from {3 elems}, push5 */
    enum { NOPS = 9 };
    int total = 1;
    for (int i = 0; i < depth; i++) total *= NOPS;
    static const size_t sizes[] = {0, 1, 3, 6, 9};
    for (int s = shard; s < total; s += nshards) {
        size_t es = s / nshards % 3 == 0 ? 1 : s / nshards % 3 == 1 ? 8 : 12;
        DynArray a = s % 2 ? newDynArray(es) : newDynArrayWithSize(es, 2);
        int16_t model[256]; /* -1: content not defined */
        size_t n = s % 2 ? 0 : 2;
        memset(model, 0xff, sizeof model);
        int c = 1, x = s, o = snprintf(hist, sizeof hist, "array,elem=%zu,start=%zu:", es, n);
        nstates++;
        for (int d = 0; d < depth; d++, x /= NOPS) {
            int op = x % NOPS;
            o += snprintf(hist + o, sizeof hist - o, "%d.", op);
            nops++;
            unsigned char e[16];
            int reps = op == 8 ? 5 : 1;
            if (op == 0 || op == 8) {
                while (reps--) {
                    memset(e, c, sizeof e);
                    unsigned char *p = pushOnDynArrayExplicit(&a, e, es);
                    model[n++] = (int16_t)c++;
                    if (p != (unsigned char *)a.elems + (n - 1) * es || memcmp(p, e, es)) fail("push-result");
                }
            } else if (op == 1) {
                unsigned char *p = popDynArray(&a);
                if (!p != (n == 0)) fail("pop-result");
                if (n) { n--; if (p && model[n] >= 0 && (p[0] != model[n] || p[es - 1] != model[n])) fail("pop-content"); model[n] = -1; }
            } else if (op < 7) {
                size_t k = sizes[op - 2];
                resizeDynArrayExplicit(&a, k);
                while (n > k) model[--n] = -1;
                n = k;
            } else {
                unsigned char src[3 * 16];
                for (int i = 0; i < 3; i++) memset(src + i * es, c + i, es);
                DynArray b = newDynArrayFromDataExplicit(src, 3, es);
                copyDynArray(&a, &b);
                if (b.size != 3 || memcmp(b.elems, src, 3 * es)) fail("copy-source");
                freeDynArray(&b);
                for (int i = 0; i < 3; i++) model[n++] = (int16_t)c++;
            }
            if (a.size != n || a.capacity < a.size) fail("size");
            for (size_t i = 0; i < n && i < a.size; i++) {
                unsigned char *p = (unsigned char *)a.elems + i * es;
                if (model[i] >= 0 && (p[0] != model[i] || p[es - 1] != model[i])) { fail("content"); break; }
            }
        }
        if (a.capacity) memset(a.elems, 7, a.capacity * es); /* all of the capacity is really there */
        freeDynArray(&a);
        if (a.size || a.elems) fail("free");
    }
}

/* ---------------------------------------------------------------- MemPool */
typedef struct { unsigned char *p; size_t n; int kind; unsigned char tag; } Blk; /* kind 0 pool, 1.. cache, 10 tracked */
static void famPool(int depth, int shard, int nshards)
{
    static const size_t sizes[] = {1, 16, 24, 500, 1025, 3000};
    enum { NOPS = 6 + 2 + 2 + 1 + 1 + 4 };
    long total = 1;
    for (int i = 0; i < depth; i++) total *= NOPS;
    for (long s = shard; s < total; s += nshards) {
        MemPool pool = newMemPool();
        Blk live[64];
        int n = 0, o = snprintf(hist, sizeof hist, "pool:");
        long x = s;
        size_t tracked = 0;
        bool skip = false;
        nstates++;
        for (int d = 0; d < depth && !skip; d++, x /= NOPS) {
            int op = (int)(x % NOPS);
            o += snprintf(hist + o, sizeof hist - o, "%d.", op);
            nops++;
            Blk b = {0};
            b.tag = (unsigned char)(0x11 * (d + 1));
            if (op < 6) b.n = sizes[op], b.p = allocFromMemPool(&pool, b.n);
            else if (op < 8) b.kind = 1 + op - 6, b.n = op == 6 ? 32 : 120, b.p = allocFromCacheOrPool(&pool, op == 6 ? memAstNode : memType, b.n);
            else if (op < 10) { /* give back the oldest / newest cached item */
                int k = -1;
                for (int i = 0; i < n; i++) if ((live[i].kind == 1 || live[i].kind == 2) && (k < 0 || op == 9)) k = i;
                if (k < 0) { skip = true; break; }
                freeMemToPoolCache(&pool, live[k].kind == 1 ? memAstNode : memType, live[k].p, live[k].n);
                memmove(live + k, live + k + 1, sizeof(Blk) * (size_t)(n-- - k - 1));
            } else if (op == 10) { /* reset: everything but tracked memory is reclaimed */
                resetMemPool(&pool);
                int k = 0;
                for (int i = 0; i < n; i++) if (live[i].kind == 10) live[k++] = live[i];
                n = k;
                MemPoolStats st;
                getMemPoolStats(&pool, &st);
                if (st.totalUsed != tracked) fail("reset-used");
            } else if (op == 11) b.kind = 10, b.n = 40, b.p = allocTrackedMem(&pool, b.n), tracked += b.n;
            else { /* reallocate the oldest / newest tracked block: grow, shrink */
                int k = -1;
                for (int i = 0; i < n; i++) if (live[i].kind == 10 && (k < 0 || op % 2)) k = i;
                if (k < 0) { skip = true; break; }
                size_t sz = op < 14 ? 3000 : 8;
                unsigned char *p = reallocTrackedMem(&pool, live[k].p, sz);
                for (size_t i = 0; i < (sz < live[k].n ? sz : live[k].n); i++) if (p[i] != live[k].tag) { fail("realloc-content"); break; }
                memset(p, live[k].tag, sz);
                tracked += sz - live[k].n;
                live[k].p = p, live[k].n = sz;
            }
            if (b.p) {
                if ((uintptr_t)b.p % 16 && b.kind != 10) fail("alignment");
                if ((uintptr_t)b.p % 8) fail("alignment");
                for (int i = 0; i < n; i++)
                    if (b.p < live[i].p + live[i].n && live[i].p < b.p + b.n) { fail("overlap"); break; }
                memset(b.p, b.tag, b.n);
                live[n++] = b;
            } else if (b.n) fail("null");
            for (int i = 0; i < n; i++)
                if (live[i].p[0] != live[i].tag || live[i].p[live[i].n - 1] != live[i].tag || live[i].p[live[i].n / 2] != live[i].tag) { fail("content"); break; }
            MemPoolStats st;
            getMemPoolStats(&pool, &st);
            size_t used = tracked;
            for (int i = 0; i < n; i++) if (live[i].kind != 10) used += live[i].n;
            if (st.totalUsed < used) fail("used");
            if (pool.trackedAllocations.allocated != tracked) fail("tracked");
            size_t c = 0;
            for (TrackedMemoryItem *t = pool.trackedAllocations.first, *prev = NULL; t; prev = t, t = t->next, c++)
                if (t->prev != prev || (!t->next && pool.trackedAllocations.last != t)) { fail("tracked-list"); break; }
            for (int i = 0; i < n; i++) c -= live[i].kind == 10;
            if (c) fail("tracked-count");
        }
        freeMemPool(&pool);
        MemPoolStats st;
        getMemPoolStats(&pool, &st);
        if (st.totalUsed || st.numberOfBlocks) fail("free");
    }
}

/* ---------------------------------------------------------------- StrPool */
typedef struct { const char *p; char s[600]; } Known;
static Known known[20000];
static int nknown;
static void strCheck(const char *p, const char *want)
{
    if (!p) { fail("null"); return; }
    if (strcmp(p, want)) { fail("content"); return; }
    for (int i = 0; i < nknown; i++)
        if ((known[i].p == p) != !strcmp(known[i].s, want)) { fail("identity"); return; }
        else if (known[i].p == p) return;
    known[nknown].p = p;
    strcpy(known[nknown++].s, want);
}
static void famStr(int depth, int shard, int nshards)
{
    /* every history of depth operations over these strings */
    static const char *words[] = {"", "a", "b", "ab", "ba", "a b", " a", "ab "};
    enum { NW = 8, NM = 6 };
    long total = 1;
    for (int i = 0; i < depth; i++) total *= NW * NM;
    for (long s = shard; s < total; s += nshards) {
        MemPool mp = newMemPool();
        StrPool sp = newStrPool(&mp);
        nknown = 0;
        nstates++;
        long x = s;
        int o = snprintf(hist, sizeof hist, "strings:");
        for (int d = 0; d < depth; d++, x /= NW * NM) {
            const char *w = words[x % NW];
            int m = (int)(x / NW % NM);
            o += snprintf(hist + o, sizeof hist - o, "%d(%s)", m, w);
            for (char *q = hist; *q; q++) if (*q == ' ') *q = '_';
            nops++;
            char buf[64], want[64];
            strcpy(want, w);
            const char *p;
            switch (m) {
            case 0: p = makeString(&sp, strcpy(buf, w)); break;
            case 1: strcpy(buf, w); strcat(buf, "ab"); p = makeStringSized(&sp, buf, strlen(w)); break;
            case 2: {
                p = makeTrimmedString(&sp, strcpy(buf, w));
                const char *q = w;
                while (*q == ' ') q++;
                strcpy(want, q);
                want[strcspn(want, " ")] = 0;
                break;
            }
            case 3: p = makeStringConcat(&sp, w, "a", w); snprintf(want, sizeof want, "%sa%s", w, w); break;
            case 4: p = makeStringf(&sp, "%s%d%s", w, d, "b"); snprintf(want, sizeof want, "%s%db", w, d); break;
            default: p = makeAnonymousVariable(&sp, *w ? w : NULL);
                for (int i = 0; i < nknown; i++) if (known[i].p == p) fail("not-unique");
                strcpy(want, p);
                if (strncmp(want, *w ? w : "cxy_", *w ? strlen(w) : 4)) fail("prefix");
            }
            memset(buf, '?', sizeof buf);
            strCheck(p, want);
        }
        for (int i = 0; i < nknown; i++) if (strcmp(known[i].p, known[i].s)) fail("changed");
        if (makeString(&sp, NULL)) fail("null-string");
        freeStrPool(&sp);
        freeMemPool(&mp);
    }
}
static void famStrAll(int depth, int shard, int nshards)
{
    /* all strings over three letters up to the depth together in one pool, inserted in several orders */
    static char all[20000][16];
    int n = 0;
    strcpy(all[n++], "");
    for (int lo = 0, l = 1; l <= depth; l++) {
        int hi = n;
        for (int i = lo; i < hi; i++) for (const char *c = "aZ0"; *c; c++) { snprintf(all[n], 16, "%s%c", all[i], *c); n++; }
        lo = hi;
    }
    static const int strides[] = {1, 7, 11, 13, 17, 19, 23, 29};
    for (int k = shard; k < 8; k += nshards) {
        MemPool mp = newMemPool();
        StrPool sp = newStrPool(&mp);
        static const char *ptr[20000];
        int st = strides[k];
        while (n % st == 0 && st > 1) st++;
        for (int i = 0; i < n; i++, nops++) {
            int j = (int)((long)i * st % n);
            snprintf(hist, sizeof hist, "strall:stride=%d,%d", st, i);
            ptr[j] = makeStringSized(&sp, all[j], strlen(all[j]));
        }
        for (int i = 0; i < n; i++, nops++, nstates++) {
            char b[40];
            snprintf(b, sizeof b, "%s", all[i]);
            snprintf(hist, sizeof hist, "strall:stride=%d,again:%s", st, b);
            if (strcmp(ptr[i], all[i])) fail("content");
            if (makeString(&sp, b) != ptr[i]) fail("identity");
            strcat(b, "xx");
            if (makeStringSized(&sp, b, strlen(all[i])) != ptr[i]) fail("identity-sized");
        }
        for (int i = 0; i < n; i++) for (int j = 0; j < i; j += 1 + j / 50) if (ptr[i] == ptr[j]) fail("same");
        freeStrPool(&sp);
        freeMemPool(&mp);
    }
}
static void famPath(int depth, int shard, int nshards)
{
    static const char *parts[] = {"a", "b/", "/", "c.cxy", "/x", "../", "d/e"};
    (void)depth;
    MemPool mp = newMemPool();
    StrPool sp = newStrPool(&mp);
    nknown = 0;
    for (int i = 0, job = 0; i < 7; i++) for (int j = 0; j < 7; j++) for (int k = -1; k < 7; k++) for (int l = -1; l < 7; l++) {
        if (k < 0 && l >= 0) continue;
        if (job++ % nshards != shard) continue;
        const char *v[4] = {parts[i], parts[j], k < 0 ? NULL : parts[k], l < 0 ? NULL : parts[l]};
        char want[64] = "";
        for (int q = 0; q < 4 && v[q]; q++) {
            if (q && want[strlen(want) - 1] != '/') strcat(want, "/");
            strcat(want, v[q]);
        }
        snprintf(hist, sizeof hist, "path:%s|%s|%s|%s", v[0], v[1], v[2] ? v[2] : "", v[3] ? v[3] : "");
        strCheck(joinPath(&sp, v[0], v[1], v[2], v[3]), want);
        nstates++, nops++;
    }
    freeStrPool(&sp);
    freeMemPool(&mp);
}
/* lengths around the limits of the concatenation buffer */
static void famLong(int depth, int shard, int nshards)
{
    (void)depth;
    static char big[400];
    memset(big, 'k', sizeof big - 1);
    for (int a = 0, job = 0; a < 200; a++)
        for (int b = 0; a + b < 250; b += 1 + (a + b < 200) * 23) {
            if (job++ % nshards != shard) continue;
            MemPool mp = newMemPool();
            StrPool sp = newStrPool(&mp);
            char s1[300], s2[300], want[700];
            snprintf(s1, sizeof s1, "%.*s", a, big);
            snprintf(s2, sizeof s2, "%.*s", b, big);
            snprintf(want, sizeof want, "%s%s", s1, s2);
            snprintf(hist, sizeof hist, "long:%d,%d", a, b);
            const char *p = makeStringConcat(&sp, s1, s2), *q = makeStringf(&sp, "%s%s", s1, s2), *r = makeString(&sp, want);
            if (strcmp(p, want)) fail("content");
            if (p != q || q != r) fail("identity");
            nops += 3, nstates++;
            freeStrPool(&sp);
            freeMemPool(&mp);
        }
}

/* ---------------------------------------------------------------- StringBuilder, UTF-8 */
static void famSb(int depth, int shard, int nshards)
{
    static const struct { int kind; const char *text; long long num; } ops[] = {
        {0, "", 0}, {0, "x", 0}, {0, "0123456789012345678901234567890", 0}, {0, "01234567890123456789012345678901", 0},
        {0, "012345678901234567890123456789012345678901234567890123456789012345678901234567890123456789", 0},
        {1, "-9223372036854775808", INT64_MIN}, {2, "18446744073709551615", -1}, {3, "true", 1}, {3, "false", 0},
        {4, "\xe2\x82\xac", 0x20ac}, {4, "\xc3\xa9", 0xe9}, {4, "\xf0\x9f\x98\x80", 0x1f600}, {5, "0.5", 0}};
    enum { NOPS = sizeof ops / sizeof *ops };
    long total = 1;
    for (int i = 0; i < depth; i++) total *= NOPS;
    for (long s = shard; s < total; s += nshards) {
        StringBuilder sb = {0}, *b = &sb;
        if (s % 2) stringBuilderInit(&sb);
        char want[1024] = "";
        long x = s;
        int o = snprintf(hist, sizeof hist, "sb%ld:", s % 2);
        nstates++;
        for (int d = 0; d < depth; d++, x /= NOPS, nops++) {
            int k = (int)(x % NOPS);
            o += snprintf(hist + o, sizeof hist - o, "%d.", k);
            switch (ops[k].kind) {
            case 0: stringBuilderAppendCstr1(b, ops[k].text); break;
            case 1: stringBuilderAppendInt(b, ops[k].num); break;
            case 2: stringBuilderAppendUInt(b, (u64)ops[k].num); break;
            case 3: stringBuilderAppendBool(b, ops[k].num != 0); break;
            case 4: stringBuilderAppendChar(b, (wchar)ops[k].num); break;
            default: stringBuilderAppendFloat(b, 0.5);
            }
            strcat(want, ops[k].text);
            if (b->size != strlen(want) || memcmp(b->data, want, b->size + 1)) { fail("content"); break; }
            if (b->capacity < b->size) fail("capacity");
        }
        char *r = stringBuilderRelease(b);
        if (strcmp(r, want)) fail("release");
        if (b->data || b->size) fail("released");
        free(r);
        stringBuilderAppendCstr1(b, "again");
        if (!b->data || strcmp(b->data, "again")) fail("reuse");
        stringBuilderDeinit(b);
    }
}
static void famUtf(int depth, int shard, int nshards)
{
    (void)depth;
    for (uint32_t c = (uint32_t)shard; c < 0x200000; c += (uint32_t)nshards) {
        snprintf(hist, sizeof hist, "utf:%x", c);
        Stack_str_8 s = wcharToStr(c);
        size_t n = c < 0x80 ? 1 : c < 0x800 ? 2 : c < 0x10000 ? 3 : 4;
        unsigned char w[5] = {0};
        if (n == 1) w[0] = (unsigned char)c;
        else {
            uint32_t v = c;
            for (size_t i = n - 1; i > 0; i--, v >>= 6) w[i] = (unsigned char)(0x80 | (v & 63));
            w[0] = (unsigned char)(v | (n == 2 ? 0xC0 : n == 3 ? 0xE0 : 0xF0));
        }
        if ((size_t)s.str[5] != n || memcmp(s.str, w, n + 1)) fail("encode");
        u32 r = 0;
        nstates++, nops += 4;
        if (c != '\\' && (readChar(s.str, n, &r) != n || r != c)) fail("decode");
        FormatState f = newFormatState("", true);
        format(&f, "{c}{cE}{cl}", (FormatArg[]){{.c = c}, {.c = c}, {.c = c}, {.len = 3}});
        char *t = formatStateToString(&f), want[64];
        size_t k = 0;
        memcpy(want + k, w, n), k += n;
        const char *from = "\0\n\t\v\r\a\b\"'\\", *to = "0ntvrab\"'\\";
        const char *e = c < 0x80 ? memchr(from, (int)c, 10) : NULL;
        if (e) want[k++] = '\\', want[k++] = to[e - from];
        else memcpy(want + k, w, n), k += n;
        for (int i = 0; i < 3; i++) memcpy(want + k, w, n), k += n;
        want[k] = 0;
        if (memcmp(t, want, c ? k + 1 : 2)) fail("print");
        /* what is printed escaped is read back as the same character */
        if (e) {
            char b[3] = {'\\', *(to + (e - from)), 0}, d[8];
            if (c && (escapeString(b, 2, d, 8) != 1 || (unsigned char)d[0] != c)) fail("unescape");
            if (convertEscapeSeq(b, 2, &r) != 2 || r != c) fail("escape-sequence");
        }
        free(t);
        freeFormatState(&f);
    }
}

/* ---------------------------------------------------------------- format */
static void famFormat(int depth, int shard, int nshards)
{
    static char big[1400];
    memset(big, 'w', sizeof big - 1);
    static const char *pieces[] = {"lit", "{{", "\n", "{>}", "{<}", "{s}", "{sl}", "{u8}", "{i64}", "{u32}", "{b}", "{c}", "{i}", "{s}", "{i16}", "{$}x{$}", "{sE}"};
    enum { NP = sizeof pieces / sizeof *pieces };
    long total = 1;
    for (int i = 0; i < depth; i++) total *= NP;
    for (long s = shard; s < total; s += nshards) {
        char fmt[256] = "", *want = malloc(20000);
        size_t w = 0;
        FormatArg args[32];
        int na = 0, indent = 0;
        bool ok = true;
        long x = s;
        for (int d = 0; d < depth && ok; d++, x /= NP) {
            int k = (int)(x % NP);
            strcat(fmt, pieces[k]);
            memset(&args[na], 0, sizeof args[na]);
            switch (k) {
            case 0: w += (size_t)sprintf(want + w, "lit"); break;
            case 1: want[w++] = '{'; break;
            case 2: want[w++] = '\n'; for (int i = 0; i < indent; i++) want[w++] = '\t'; break;
            case 3: indent++; break;
            case 4: if (indent-- == 0) ok = false; break;
            case 5: args[na++].s = "text"; w += (size_t)sprintf(want + w, "text"); break;
            case 6: args[na++].s = "textual"; args[na++].len = 4; w += (size_t)sprintf(want + w, "text"); break;
            case 7: args[na++].u8 = 200; w += (size_t)sprintf(want + w, "200"); break;
            case 8: args[na++].i64 = INT64_MIN; w += (size_t)sprintf(want + w, "-9223372036854775808"); break;
            case 9: args[na++].u32 = 4294967295u; w += (size_t)sprintf(want + w, "4294967295"); break;
            case 10: args[na++].b = d & 1; w += (size_t)sprintf(want + w, d & 1 ? "true" : "false"); break;
            case 11: args[na++].c = 0xe9; w += (size_t)sprintf(want + w, "\xc3\xa9"); break;
            case 12: args[na++].i = -5; w += (size_t)sprintf(want + w, "-5"); break;
            case 13: args[na++].s = big; w += (size_t)sprintf(want + w, "%s", big); break;
            case 14: args[na++].i16 = -32768; w += (size_t)sprintf(want + w, "-32768"); break;
            case 15: args[na++].style = errorStyle; args[na++].style = resetStyle; want[w++] = 'x'; break;
            default: args[na++].s = "q\"\n\\"; w += (size_t)sprintf(want + w, "q\\\"\\n\\\\"); break;
            }
        }
        want[w] = 0;
        snprintf(hist, sizeof hist, "format:%ld:%s", s, fmt);
        for (char *q = hist; *q; q++) if (*q == '\n' || *q == ' ') *q = '~';
        if (ok && !strstr(fmt, "{sE}{") && true) {
            FormatState f = newFormatState("\t", true);
            format(&f, fmt, args);
            append(&f, "!", 1);
            want[w++] = '!', want[w] = 0;
            char *t = formatStateToString(&f);
            if (strcmp(t, want)) fail("text");
            free(t);
            freeFormatState(&f);
            nstates++, nops += (uint64_t)depth;
        }
        free(want);
    }
}

int main(int argc, char **argv)
{
    if (argc < 5) return 2;
    fam = argv[1];
    int depth = atoi(argv[2]), shard = atoi(argv[3]), n = atoi(argv[4]);
    signal(SIGSEGV, died), signal(SIGABRT, died), signal(SIGALRM, died), signal(SIGFPE, died), signal(SIGBUS, died);
    alarm((unsigned)(argc > 5 ? atoi(argv[5]) : 600));
    static const struct { const char *n; void (*f)(int, int, int); } fams[] = {
        {"table", famTable}, {"grow", famGrow}, {"hmap", famHmap}, {"hgrow", famHgrow}, {"array", famArray}, {"pool", famPool},
        {"str", famStr}, {"strall", famStrAll}, {"path", famPath}, {"long", famLong}, {"sb", famSb}, {"utf", famUtf}, {"format", famFormat}};
    for (size_t i = 0; i < sizeof fams / sizeof *fams; i++)
        if (!strcmp(fams[i].n, fam)) fams[i].f(depth, shard, n);
    printf("N %lu %lu\n", nstates, nops);
    return nviol ? 1 : 0;
}

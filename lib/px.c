/* Path explorer for generated programs: every sequence of at most PX_L choices, per function.
 *   px_begin(id); while (px_next()) f();   prints "P id execs hash"                               */
#include <stdio.h>
#include <stdlib.h>
#include <stdint.h>
#include <stdbool.h>
#include <string.h>
#include <signal.h>
#include <unistd.h>
#ifndef PX_L
#define PX_L 5
#endif
static int id = -1, n, depth, running, verbose, vid = -2;
static int pick[64], width[64];
static uint64_t h;
static long execs, evs;
static int tr[100000];
static void out(void) { printf("P %d %ld %016llx\n", id, execs, (unsigned long long)h); fflush(stdout); }
static void mix(int64_t v) { for (int i = 0; i < 4; i++) h = (h ^ ((v >> (8 * i)) & 255)) * 0x100000001b3ULL; }
static void dump(const char *why)
{
    printf("T %d %s", id, why);
    for (int i = 0; i < n; i++) printf("%s%d", i ? "," : " ", pick[i]);
    printf(" :");
    for (long i = 0; i < evs; i++) printf(" %d", tr[i]);
    printf("\n");
}
static void onsig(int s) { dump(s == SIGALRM ? "hang" : "crash"); fflush(stdout); _exit(70); }
void px_begin(int i)
{
    if (vid == -2) {
        vid = getenv("PX_ID") ? atoi(getenv("PX_ID")) : -1;
        signal(SIGSEGV, onsig); signal(SIGABRT, onsig); signal(SIGALRM, onsig); signal(SIGFPE, onsig); signal(SIGBUS, onsig); signal(SIGILL, onsig);
    }
    id = i; running = 0; depth = 0; execs = 0; h = 0xcbf29ce484222325ULL; verbose = vid == id;
    alarm(20);
}
extern void __attribute__((weak)) px_reset(void);
extern void __attribute__((weak)) px_finish(void);
void px_ev(int k) { if (evs >= 2000) { dump("runaway"); fflush(stdout); _exit(71); } tr[evs++] = k; }
int px_next(void)
{
    if (vid >= 0 && vid != id) return 0;
    if (running) {
        if (px_finish) px_finish();
        execs++;
        mix(-1000 - n);
        for (int i = 0; i < n; i++) mix(pick[i]);
        for (long i = 0; i < evs; i++) mix(tr[i]);
        if (verbose) dump("ok");
        while (n > 0 && pick[n - 1] + 1 >= width[n - 1]) n--;
        if (n == 0) { out(); running = 0; return 0; }
        pick[n - 1]++;
        depth = n;
    }
    running = 1; n = 0; evs = 0;
    if (px_reset) px_reset();
    return 1;
}
int choose(int k)
{
    if (n >= PX_L) return 0;
    if (n >= depth) { pick[n] = 0; }
    width[n] = k;
    return pick[n++];
}
void ev(int k) { px_ev(k); }
int32_t evv(int k) { px_ev(k); return k; }
bool evb(int k, bool v) { px_ev(k); return v; }
bool bit(void) { return choose(2); }
int32_t pick3(void) { return choose(3); }

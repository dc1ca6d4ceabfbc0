/* Value explorer: every tuple of input values of a case is run through the reference (this file's
 * generated part, below) and through the code the cxy compiler produced; all observations must agree. */
#include <stdio.h>
#include <stdlib.h>
#include <stdint.h>
#include <stdbool.h>
#include <string.h>
#include <signal.h>
#include <unistd.h>
#include <math.h>
typedef float f32; typedef double f64;
typedef int8_t i8; typedef int16_t i16; typedef int32_t i32; typedef int64_t i64;
typedef uint8_t u8; typedef uint16_t u16; typedef uint32_t u32; typedef uint64_t u64;
enum { T_i8, T_i16, T_i32, T_i64, T_u8, T_u16, T_u32, T_u64, T_f32, T_f64, T_bool, T_wchar, T_char, T_small, T_sh, NT };
typedef struct { int id; void (*ref)(void); int n; int ty[6]; } Case;
#define MAXOBS 64
typedef struct { int kind; union { int64_t i; double f; } u; } Obs;
static Obs want[MAXOBS], got[MAXOBS];
static int nw, ng, inref, skip, cur = -1, pos[6], bad, started;
static long runs, skipped;
static const Case *cc;
#ifndef XV_VALUES
static const i8 v_i8[] = { INT8_MIN, -127, -2, -1, 0, 1, 2, 7, 126, 127 };
static const i16 v_i16[] = { INT16_MIN, -257, -2, -1, 0, 1, 3, 255, 256, INT16_MAX };
static const i32 v_i32[] = { INT32_MIN, -65537, -2, -1, 0, 1, 5, 65535, 65536, INT32_MAX };
static const i64 v_i64[] = { INT64_MIN, -4294967297LL, -2, -1, 0, 1, 6, 4294967295LL, 4294967296LL, INT64_MAX };
static const u8 v_u8[] = { 0, 1, 2, 7, 127, 128, 254, 255 };
static const u16 v_u16[] = { 0, 1, 3, 255, 256, 32767, 32768, 65535 };
static const u32 v_u32[] = { 0, 1, 5, 65535, 65536, 2147483647u, 2147483648u, 4294967295u };
static const u64 v_u64[] = { 0, 1, 6, 4294967295ull, 4294967296ull, 9223372036854775807ull, 9223372036854775808ull, 18446744073709551615ull };
static const f32 v_f32[] = { 0, 1, -1, 0.5f, -2.25f, 100.75f, 16777216.0f, -3e9f };
static const f64 v_f64[] = { 0, 1, -1, 0.5, -2.25, 1e10, 9007199254740993.0, -123456789.125, 1e-5 };
#endif
static const bool v_bool[] = { false, true };
static const u32 v_wchar[] = { 0, 'a', 0x7f, 0x80, 0xff, 0x100, 0xffff, 0x10ffff };
static const char v_char[] = { 0, 'A', 'z', 0x7f };
static const i32 v_small[] = { 1, 2, 3, 5, 0 };
static const i32 v_sh[] = { 0, 1, 7, 8, 15, 31, 63 };
#define N_(a) ((int)(sizeof(a) / sizeof((a)[0])))
static int tn(int t)
{
    switch (t) {
#define X(t) case T_##t: return N_(v_##t);
    X(i8) X(i16) X(i32) X(i64) X(u8) X(u16) X(u32) X(u64) X(f32) X(f64) X(bool) X(wchar) X(char) X(small) X(sh)
#undef X
    }
    abort();
}
#define X(t, ct) ct x##t(int32_t k) { return v_##t[pos[k]]; }
X(i8, i8) X(i16, i16) X(i32, i32) X(i64, i64) X(u8, u8) X(u16, u16) X(u32, u32) X(u64, u64) X(f32, f32) X(f64, f64) X(bool, bool)
X(wchar, u32) X(char, char) X(small, i32) X(sh, i32)
#undef X
static void obs(Obs o) { if (inref) { if (nw < MAXOBS) want[nw++] = o; } else if (ng < MAXOBS) got[ng++] = o; }
void oi(int64_t v) { obs((Obs){.kind = 0, .u.i = v}); }
void of(double v) { if (isnan(v)) v = NAN; obs((Obs){.kind = 1, .u.f = v}); }
void ob(bool v) { obs((Obs){.kind = 0, .u.i = v}); }
static const Case cases[];
static const int ncases;
static void pr(const Obs *o, int n)
{
    for (int i = 0; i < n; i++) if (o[i].kind) printf(" %.17g", o[i].u.f); else printf(" %lld", (long long)o[i].u.i);
}
static void vec(void)
{
    for (int k = 0; k < cc->n; k++) {
        int t = cc->ty[k];
        if (t == T_f32) printf(" %.9g", v_f32[pos[k]]);
        else if (t == T_f64) printf(" %.17g", v_f64[pos[k]]);
        else if (t == T_u64) printf(" %llu", (unsigned long long)v_u64[pos[k]]);
        else {
            i64 v = 0;
#define X(tt) if (t == T_##tt) v = v_##tt[pos[k]];
            X(i8) X(i16) X(i32) X(i64) X(u8) X(u16) X(u32) X(bool) X(wchar) X(char) X(small) X(sh)
#undef X
            printf(" %lld", (long long)v);
        }
    }
}
static void fail(const char *why) { printf("X %d %s inputs:", cc->id, why); vec(); printf(" expected:"); pr(want, nw); printf(" got:"); pr(got, ng); printf("\n"); bad = 1; }
static void onsig(int s) { fail(s == SIGALRM ? "hang" : "crash"); printf("S %d\n", cc->id); fflush(stdout); _exit(70); }
static int step(void)
{
    for (int k = cc->n - 1; k >= 0; k--) {
        if (++pos[k] < tn(cc->ty[k])) return 1;
        pos[k] = 0;
    }
    return 0;
}
static int same(const Obs *a, const Obs *b) { return a->kind == b->kind && !memcmp(&a->u, &b->u, 8); }
int32_t xv_next(int32_t id)
{
    static int init;
    if (!init) {
        init = 1;
        signal(SIGSEGV, onsig); signal(SIGABRT, onsig); signal(SIGFPE, onsig); signal(SIGALRM, onsig); signal(SIGBUS, onsig); signal(SIGILL, onsig);
    }
    if (id != cur) {
        cur = id; bad = 0; runs = 0; skipped = 0; started = 0; cc = NULL;
        for (int i = 0; i < ncases; i++) if (cases[i].id == id) cc = &cases[i];
        if (!cc) abort();
        memset(pos, 0, sizeof(pos));
        alarm(20);
    }
    if (started) {
        int ok = ng == nw;
        for (int i = 0; ok && i < nw; i++) ok = same(&want[i], &got[i]);
        runs++;
        if (!ok && !bad) fail("differs");
        if (!step()) goto end;
    }
    for (;;) {
        nw = ng = 0; skip = 0; inref = 1; cc->ref(); inref = 0;
        if (!skip) { started = 1; return 1; }
        skipped++;
        if (!step()) goto end;
    }
end:
    printf("R %d %ld %ld %s\n", id, runs, skipped, bad ? "bad" : "ok");
    cur = -1;
    return 0;
}
/* reference helpers; SKIP marks inputs on which the operation is undefined */
#define SKIP(c) do { if (c) { skip = 1; return; } } while (0)

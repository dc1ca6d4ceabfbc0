/* Stateless explorer: exhaustive depth-first enumeration of every choice sequence of a harness body.
 *   while (vx_next()) { body: uses vx_choose(n), vx_op(..), vx_expect*(..) }
 * Every execution starts from scratch; the whole tree of choices is covered (no sampling, no cap
 * unless VX_MAX is given, and then the cap is reported). */
#ifndef VX_H
#define VX_H
#include <stdint.h>
#include <stddef.h>
#ifdef __cplusplus
extern "C" {
#endif
int vx_next(void);
int vx_choose(int n);
void vx_op(const char *fmt, ...);
void vx_soft(const char *key, const char *fmt, ...);
void vx_fail(const char *fmt, ...);
void vx_expect_i64(const char *what, int64_t got, int64_t want);
void vx_expect_u64(const char *what, uint64_t got, uint64_t want);
void vx_expect_bytes(const char *what, const void *got, uint64_t ngot, const void *want, uint64_t nwant);
void vx_state(uint64_t h);        /* records an (abstract) state hash, counted distinct */
uint64_t vx_hash(uint64_t h, const void *p, size_t n);
long vx_live(void);               /* live heap blocks (sanitizer build only, else 0) */
long vx_live_delta(void);   /* blocks allocated since vx_leakcheck_begin and still live */
void vx_leakcheck_begin(void);
void vx_leakcheck_end(const char *what);
#ifdef __cplusplus
}
#endif
#endif

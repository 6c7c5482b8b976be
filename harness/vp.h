/* Harness API shared by the symbolic run (lsym) and the native replay. */
#ifndef VP_H
#define VP_H
#include <stddef.h>
#include <stdint.h>
/* A fresh value of the given bit width (1..64), zero-extended. */
uint64_t vp_nd(unsigned bits, const char *name);
/* A value in [lo,hi]; the symbolic run explores every one of them. */
uint64_t vp_range(uint64_t lo, uint64_t hi, const char *name);
void vp_assume(int cond);
void vp_assert(int cond, const char *msg);
void vp_fail(const char *msg);
/* Marks a point that must be reachable (guards against vacuity). */
void vp_witness(unsigned id);
/* Ends the path normally. */
void vp_done(void) __attribute__((noreturn));
/* Number of heap blocks allocated and not freed. */
uint64_t vp_heap_live(void);
/* 1 when running under the symbolic executor. */
int vp_symbolic_run(void);
/* The value, case-split so that it is concrete on each path. */
uint64_t vp_concrete(uint64_t v);
/* Records an observable value; sampled paths are compared with the native run. */
void vp_note(uint64_t v);
void vp_print(const char *s, ...);
void vp_main(void);
#define ND8(n) ((unsigned char)vp_nd(8, n))
#define ND32(n) ((uint32_t)vp_nd(32, n))
#define ND64(n) ((uint64_t)vp_nd(64, n))
#endif

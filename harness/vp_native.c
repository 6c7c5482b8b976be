/* Native runtime: replays one assignment found (or sampled) by the solver
 * against the real code compiled by the system compiler. */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdarg.h>
#include "vp.h"
static FILE *vals;
static long live;
static int in_harness = 1;
static uint64_t next(void) { unsigned long long v; if (fscanf(vals, "%llu", &v) != 1) { printf("VP_UNDERRUN\n"); fflush(stdout); _Exit(78); } return v; }
uint64_t vp_nd(unsigned bits, const char *name) { (void)name; uint64_t v = next(); return bits >= 64 ? v : v & ((1ull << bits) - 1); }
uint64_t vp_range(uint64_t lo, uint64_t hi, const char *name) { (void)name; uint64_t v = next(); if (v < lo || v > hi) { printf("VP_RANGE\n"); fflush(stdout); _Exit(77); } return v; }
void vp_assume(int c) { if (!c) { printf("VP_ASSUME\n"); fflush(stdout); _Exit(77); } }
void vp_assert(int c, const char *msg) { if (!c) { printf("VP_VIOLATION %s\n", msg); fflush(stdout); _Exit(1); } }
void vp_fail(const char *msg) { vp_assert(0, msg); }
void vp_witness(unsigned id) { (void)id; }
void vp_done(void) { printf("VP_OK\n"); fflush(stdout); _Exit(0); }
uint64_t vp_heap_live(void) { return (uint64_t)live; }
int vp_symbolic_run(void) { return 0; }
uint64_t vp_concrete(uint64_t v) { return v; }
void vp_print(const char *s, ...) { printf("%s\n", s); }
void vp_note(uint64_t v) { printf("VP_NOTE %llu\n", (unsigned long long)v); }
__attribute__((weak)) void *vp_malloc(size_t n) { if (n > (64ull << 20)) return NULL; void *p = malloc(n ? n : 1); if (p) live++; return p; }
__attribute__((weak)) void *vp_calloc(size_t a, size_t b) { if (b && a > (64ull << 20) / b) return NULL; void *p = calloc(a, b); if (p) live++; return p; }
__attribute__((weak)) void *vp_realloc(void *o, size_t n) { if (n > (64ull << 20)) return NULL; void *p = realloc(o, n ? n : 1); if (p && !o) live++; return p; }
__attribute__((weak)) void vp_free(void *p) { if (p) live--; free(p); }
int main(int argc, char **argv) {
    (void)in_harness;
    if (argc < 2 || !(vals = fopen(argv[1], "r"))) return 79;
    setvbuf(stdout, NULL, _IOLBF, 0);
    vp_main();
    vp_done();
}

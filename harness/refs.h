/* Reference definitions, written from the documentation. */
#ifndef REFS_H
#define REFS_H
#include <stdint.h>
#include <stddef.h>
static uint32_t ref_rollsum(const unsigned char *p, size_t n) {
    uint32_t a = 0, b = 0;
    for (size_t i = 0; i < n; i++) { a += p[i] + 31u; b += (uint32_t)(n - i) * (p[i] + 31u); }
    return (b << 16) | (a & 0xffff);
}
static uint32_t ref_rabinkarp(const unsigned char *p, size_t n) {
    uint32_t h = 1;
    for (size_t i = 0; i < n; i++) h = h * 0x08104225u + p[i];
    return h;
}
static uint32_t ref_mix32(uint32_t h) {
    h ^= h >> 16; h *= 0x85ebca6bu; h ^= h >> 13; h *= 0xc2b2ae35u; h ^= h >> 16; return h;
}
static uint32_t ref_weak(int magic, const unsigned char *p, size_t n) { return (magic & 0xf0) == 0x30 ? ref_rollsum(p, n) : ref_rabinkarp(p, n); }
/* The ideal hash of ihash.c. */
static void ref_strong(int magic, const unsigned char *p, size_t n, unsigned char *o) {
    size_t l = (magic & 0x0f) == 6 ? 16 : 32;
    o[0] = n; for (size_t i = 0; i + 1 < l; i++) o[1 + i] = i < n ? p[i] : 0;
}
static size_t ref_maxstrong(int magic) { return (magic & 0x0f) == 6 ? 16 : 32; }
static void put4(unsigned char *o, uint32_t v) { o[0] = v >> 24; o[1] = v >> 16; o[2] = v >> 8; o[3] = v; }
static const int ref_magics[4] = { 0x72730136, 0x72730137, 0x72730146, 0x72730147 };
#endif

/* MD4 (RFC 1320) and BLAKE2b (RFC 7693), straightforward forms. */
#include <stdint.h>
#include <string.h>
static uint32_t rl(uint32_t x, int s) { return (x << s) | (x >> (32 - s)); }
static void md4_block(uint32_t h[4], const unsigned char *p) {
    static const int K2[16] = { 0, 4, 8, 12, 1, 5, 9, 13, 2, 6, 10, 14, 3, 7, 11, 15 }, K3[16] = { 0, 8, 4, 12, 2, 10, 6, 14, 1, 9, 5, 13, 3, 11, 7, 15 };
    static const int S[3][4] = { { 3, 7, 11, 19 }, { 3, 5, 9, 13 }, { 3, 9, 11, 15 } };
    uint32_t x[16], a = h[0], b = h[1], c = h[2], d = h[3]; int r, i;
    for (i = 0; i < 16; i++) x[i] = p[4 * i] | (uint32_t)p[4 * i + 1] << 8 | (uint32_t)p[4 * i + 2] << 16 | (uint32_t)p[4 * i + 3] << 24;
    for (r = 0; r < 3; r++) for (i = 0; i < 16; i++) {
        uint32_t f = r == 0 ? ((b & c) | (~b & d)) : r == 1 ? ((b & c) | (b & d) | (c & d)) : (b ^ c ^ d);
        int k = r == 0 ? i : r == 1 ? K2[i] : K3[i];
        uint32_t t = rl(a + f + x[k] + (r == 0 ? 0 : r == 1 ? 0x5a827999u : 0x6ed9eba1u), S[r][i & 3]);
        a = d; d = c; c = b; b = t;
    }
    h[0] += a; h[1] += b; h[2] += c; h[3] += d;
}
/* MD4 of a message of before+n bytes whose first `before` bytes (a multiple of
 * 64) are already in h. */
static void md4_from(uint32_t h[4], uint64_t before, const unsigned char *p, size_t n, unsigned char *o) {
    unsigned char t[128]; uint64_t bits = (before + n) << 3; size_t i, m;
    for (; n >= 64; n -= 64, p += 64) md4_block(h, p);
    memset(t, 0, sizeof t); memcpy(t, p, n); t[n] = 0x80; m = n < 56 ? 64 : 128;
    for (i = 0; i < 8; i++) t[m - 8 + i] = bits >> 8 * i;
    md4_block(h, t); if (m == 128) md4_block(h, t + 64);
    for (i = 0; i < 16; i++) o[i] = h[i / 4] >> 8 * (i % 4);
}
static void md4_ref(const unsigned char *p, size_t n, unsigned char *o) { uint32_t h[4] = { 0x67452301, 0xefcdab89, 0x98badcfe, 0x10325476 }; md4_from(h, 0, p, n, o); }
static uint64_t rr(uint64_t x, int s) { return (x >> s) | (x << (64 - s)); }
static const uint64_t b2iv[8] = { 0x6a09e667f3bcc908ull, 0xbb67ae8584caa73bull, 0x3c6ef372fe94f82bull, 0xa54ff53a5f1d36f1ull, 0x510e527fade682d1ull, 0x9b05688c2b3e6c1full, 0x1f83d9abfb41bd6bull, 0x5be0cd19137e2179ull };
static void b2_block(uint64_t h[8], const unsigned char *p, uint64_t t, uint64_t hi, int last) {
    static const unsigned char s[10][16] = { { 0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15 }, { 14, 10, 4, 8, 9, 15, 13, 6, 1, 12, 0, 2, 11, 7, 5, 3 }, { 11, 8, 12, 0, 5, 2, 15, 13, 10, 14, 3, 6, 7, 1, 9, 4 }, { 7, 9, 3, 1, 13, 12, 11, 14, 2, 6, 5, 10, 4, 0, 15, 8 }, { 9, 0, 5, 7, 2, 4, 10, 15, 14, 1, 11, 12, 6, 8, 3, 13 }, { 2, 12, 6, 10, 0, 11, 8, 3, 4, 13, 7, 5, 15, 14, 1, 9 }, { 12, 5, 1, 15, 14, 13, 4, 10, 0, 7, 6, 3, 9, 2, 8, 11 }, { 13, 11, 7, 14, 12, 1, 3, 9, 5, 0, 15, 4, 8, 6, 2, 10 }, { 6, 15, 14, 9, 11, 3, 0, 8, 12, 2, 13, 7, 1, 4, 10, 5 }, { 10, 2, 8, 4, 7, 6, 1, 5, 15, 11, 9, 14, 3, 12, 13, 0 } };
    static const unsigned char ix[8][4] = { { 0, 4, 8, 12 }, { 1, 5, 9, 13 }, { 2, 6, 10, 14 }, { 3, 7, 11, 15 }, { 0, 5, 10, 15 }, { 1, 6, 11, 12 }, { 2, 7, 8, 13 }, { 3, 4, 9, 14 } };
    uint64_t v[16], m[16]; int i, r, k;
    for (i = 0; i < 8; i++) { v[i] = h[i]; v[i + 8] = b2iv[i]; }
    v[12] ^= t; v[13] ^= hi; if (last) v[14] = ~v[14];
    for (i = 0; i < 16; i++) { m[i] = 0; for (k = 0; k < 8; k++) m[i] |= (uint64_t)p[8 * i + k] << 8 * k; }
    for (r = 0; r < 12; r++) for (i = 0; i < 8; i++) {
        uint64_t *a = v + ix[i][0], *b = v + ix[i][1], *c = v + ix[i][2], *d = v + ix[i][3];
        *a = *a + *b + m[s[r % 10][2 * i]]; *d = rr(*d ^ *a, 32); *c += *d; *b = rr(*b ^ *c, 24);
        *a = *a + *b + m[s[r % 10][2 * i + 1]]; *d = rr(*d ^ *a, 16); *c += *d; *b = rr(*b ^ *c, 63);
    }
    for (i = 0; i < 8; i++) h[i] ^= v[i] ^ v[i + 8];
}
static void b2_from(uint64_t h[8], uint64_t t, const unsigned char *p, size_t n, unsigned char *o, size_t outlen) {
    unsigned char b[128]; size_t i; uint64_t hi = 0; /* 128-bit byte count */
    for (; n > 128; n -= 128, p += 128) { t += 128; hi += t < 128; b2_block(h, p, t, hi, 0); }
    memset(b, 0, sizeof b); memcpy(b, p, n); t += n; hi += t < n; b2_block(h, b, t, hi, 1);
    for (i = 0; i < outlen; i++) o[i] = h[i / 8] >> 8 * (i % 8);
}
static void b2_ref(const unsigned char *p, size_t n, unsigned char *o, size_t outlen) {
    uint64_t h[8]; size_t i;
    for (i = 0; i < 8; i++) h[i] = b2iv[i];
    h[0] ^= 0x01010000 ^ outlen; b2_from(h, 0, p, n, o, outlen);
}

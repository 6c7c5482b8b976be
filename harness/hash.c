/* C07: the strong hashes against RFC 1320 and RFC 7693, for every message of
 * the stated lengths and every way of splitting it into two updates.
 * PART 1 MD4, 2 BLAKE2b-256, 3 MD4 and 5 BLAKE2b of messages of any total length,
 * 4 fixed vectors. */
#include "common.h"
#include "checksum.h"
#include "mdfour.h"
#include "blake2.h"
#include "hashref.h"
#ifndef LMIN
#define LMIN 0
#endif
#ifndef LMAX
#define LMAX 130
#endif
static u8 buf[LMAX + 16], o1[32], o2[32];
static void same(const char *msg, size_t n) { for (size_t i = 0; i < n; i++) vp_assert(o1[i] == o2[i], msg); }
/* size of the second of three updates */
static size_t middle(size_t left) {
#ifdef CUT3
    static const size_t m[] = { CUT3 }; size_t k = m[vp_range(0, sizeof m / sizeof *m - 1, "mid")]; return k < left ? k : left;
#else
    return left;
#endif
}
void vp_main(void) {
    size_t i, n, cut, off; rs_strong_sum_t ss; u8 *d;
    n = vp_range(LMIN, LMAX, "len");
#if PART == 4
    for (i = 0; i < sizeof buf; i++) buf[i] = (u8)(i * 7 + (i >> 6) * 13 + 1);
#else
    for (i = 0; i < sizeof buf; i++) buf[i] = ND8("d");
#endif
    off = vp_range(0, 3, "align"); if (n < 60 && off > 1) vp_done();
#ifdef CUT3
    if (off) vp_done();
#endif

    d = malloc(n + off); memcpy(d + off, buf, n);
#if PART == 1 || PART == 3
    rs_mdfour_t md;
#if PART == 3
    uint64_t before = ND64("before"); vp_assume((before & 63) == 0 && before < (uint64_t)1 << 60);
    uint32_t h[4]; for (i = 0; i < 4; i++) h[i] = ND32("h");
    rs_mdfour_begin(&md); md.A = h[0]; md.B = h[1]; md.C = h[2]; md.D = h[3]; md.totalN = before;
    rs_mdfour_update(&md, d + off, n); rs_mdfour_result(&md, o1); md4_from(h, before, buf, n, o2); same("MD4 of a long message is wrong", 16);
#else
    md4_ref(buf, n, o2);
    rs_mdfour(o1, d + off, n); same("MD4 is wrong", 16);
    rs_calc_strong_sum(RS_MD4, d + off, n, &ss); memcpy(o1, ss, 16); same("MD4 strong sum is wrong", 16);
#ifdef CUT3
    cut = vp_range(0, n, "cut");
#else
    static const size_t step[] = { 1, 7, 8, 55, 56, 63, 64, 65, 100, 127, 128 };
    cut = vp_range(0, n > 20 ? 14 : n, "cut"); if (n > 20) cut = cut < 11 ? step[cut] : n - (cut - 11); if (cut > n) cut = n;
#endif
    rs_mdfour_begin(&md); rs_mdfour_update(&md, d + off, cut); size_t mid = middle(n - cut); rs_mdfour_update(&md, d + off + cut, mid); rs_mdfour_update(&md, d + off + cut + mid, n - cut - mid); rs_mdfour_result(&md, o1); same("MD4 depends on how the message is split", 16);
#endif
#elif PART == 5
    uint64_t before = ND64("before"), h[8]; vp_assume((before & 127) == 0 && before < (uint64_t)1 << 62); for (i = 0; i < 8; i++) h[i] = ND64("h");
    blake2b_state S; blake2b_init(&S, 32); S.t[0] = before; for (i = 0; i < 8; i++) S.h[i] = h[i];
    blake2b_update(&S, d + off, n); blake2b_final(&S, o1, 32); b2_from(h, before, buf, n, o2, 32); same("BLAKE2b of a long message is wrong", 32);
#else
    b2_ref(buf, n, o2, 32);
    rs_calc_strong_sum(RS_BLAKE2, d + off, n, &ss); memcpy(o1, ss, 32); same("BLAKE2b strong sum is wrong", 32);
#ifdef CUT3
    cut = vp_range(0, n, "cut");
#else
    static const size_t step[] = { 1, 64, 127, 128, 129, 255, 256, 257 };
    cut = vp_range(0, n > 20 ? 11 : n, "cut"); if (n > 20) cut = cut < 8 ? step[cut] : n - (cut - 8); if (cut > n) cut = n;
#endif
    blake2b_state S; blake2b_init(&S, 32); blake2b_update(&S, d + off, cut); size_t mid = middle(n - cut); blake2b_update(&S, d + off + cut, mid); blake2b_update(&S, d + off + cut + mid, n - cut - mid); blake2b_final(&S, o1, 32); same("BLAKE2b depends on how the message is split", 32);
#endif
    vp_witness(1);
    for (i = 0; i < 4; i++) vp_note(o1[i]);
    free(d);
}

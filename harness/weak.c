/* C06: the rolling checksums.
 * PART 1: any sequence of operations on windows of up to LMAX symbolic bytes.
 * PART 2: one rotate/rollin/rollout step on a window of ANY length and content
 *         (state given by the sums of the bytes that stay).
 * PART 3: long windows of concrete data (power table, 16-byte loops). */
#include "common.h"
#include "refs.h"
#include "checksum.h"
#ifndef LMAX
#define LMAX 20
#endif
#ifndef OPS
#define OPS 3
#endif
static uint32_t want(int kind, const u8 *p, size_t n) { return kind == RS_ROLLSUM ? ref_mix32(ref_rollsum(p, n)) : ref_rabinkarp(p, n); }
#if PART == 1
static u8 d[LMAX + OPS + 1];
static void check(weaksum_t *w, int kind, size_t lo, size_t hi) {
    vp_assert(weaksum_count(w) == hi - lo, "count of bytes in the window is wrong");
    vp_assert(weaksum_digest(w) == want(kind, d + lo, hi - lo), "rolling checksum differs from the checksum of the window");
}
#endif
void vp_main(void) {
    int kind = vp_range(0, 1, "kind") ? RS_RABINKARP : RS_ROLLSUM; weaksum_t w; size_t i;
#if PART == 1
    for (i = 0; i < sizeof d; i++) d[i] = ND8("d");
    size_t L = vp_range(0, LMAX, "len"), cut = vp_range(0, L, "cut"), lo = 0, hi = L;
    weaksum_init(&w, kind); check(&w, kind, 0, 0);
    weaksum_update(&w, d, cut); weaksum_update(&w, d + cut, L - cut); check(&w, kind, 0, L);
    vp_assert(rs_calc_weak_sum(kind, d, L) == (kind == RS_ROLLSUM ? ref_rollsum(d, L) : ref_rabinkarp(d, L)), "one-shot weak sum differs from its definition");
    for (i = 0; i < OPS; i++) {
        int op = vp_range(0, 3, "op");
        if (op == 0) { if (lo == hi) break; weaksum_rotate(&w, d[lo], d[hi]); lo++; hi++; }
        else if (op == 1) { weaksum_rollin(&w, d[hi]); hi++; }
        else if (op == 2) { if (lo == hi) break; weaksum_rollout(&w, d[lo]); lo++; }
        else { weaksum_reset(&w); lo = hi; }
        check(&w, kind, lo, hi);
    }
    if (L > 16 && lo > 1) vp_witness(1);
    vp_note(weaksum_digest(&w));
#elif PART == 2
    /* window = out . rest, |window| = k; A,B (rollsum) or P=M^(k-1),R (rabinkarp) describe rest */
    size_t k = ND64("k"); u8 out = ND8("out"), in = ND8("in"); vp_assume(k >= 1 && k < (size_t)1 << 48);
    weaksum_init(&w, kind); uint32_t g_rot, g_out, g_in;
    if (kind == RS_ROLLSUM) {
        uint64_t A = ND64("A"), B = ND64("B"); weaksum_t v;
#define SET(x) (x.kind = kind, x.sum.rs.count = k, x.sum.rs.s1 = A + out + 31, x.sum.rs.s2 = B + k * (out + 31ull))
        uint32_t a = A, b = B;
        SET(w); weaksum_rotate(&w, out, in); g_rot = ((uint32_t)(b + a + in + 31) << 16) | ((a + in + 31) & 0xffff);
        vp_assert(RollsumDigest(&w.sum.rs) == g_rot && weaksum_count(&w) == k, "rotate is wrong for some window");
        SET(w); weaksum_rollout(&w, out); g_out = (b << 16) | (a & 0xffff);
        vp_assert(RollsumDigest(&w.sum.rs) == g_out && weaksum_count(&w) == k - 1, "rollout is wrong for some window");
        SET(w); uint32_t s1 = a + out + 31 + in + 31, s2 = b + (uint32_t)k * (out + 31u) + s1; weaksum_rollin(&w, in); g_in = (s2 << 16) | (s1 & 0xffff);
        vp_assert(RollsumDigest(&w.sum.rs) == g_in && weaksum_count(&w) == k + 1, "rollin is wrong for some window");
        (void)v;
    } else {
        const uint32_t M = 0x08104225u; uint32_t P = ND32("P"), R = ND32("R");
#define SETK() (w.kind = kind, w.sum.rk.count = k, w.sum.rk.mult = P * M, w.sum.rk.hash = P * M + P * out + R)
        SETK(); weaksum_rotate(&w, out, in); g_rot = P * M + R * M + in;
        vp_assert(weaksum_digest(&w) == g_rot && w.sum.rk.mult == P * M && weaksum_count(&w) == k, "rotate is wrong for some window");
        SETK(); weaksum_rollout(&w, out); g_out = P + R;
        vp_assert(weaksum_digest(&w) == g_out && w.sum.rk.mult == P && weaksum_count(&w) == k - 1, "rollout is wrong for some window");
        SETK(); weaksum_rollin(&w, in); g_in = (P * M + P * out + R) * M + in;
        vp_assert(weaksum_digest(&w) == g_in && w.sum.rk.mult == P * M * M && weaksum_count(&w) == k + 1, "rollin is wrong for some window");
    }
    vp_witness(kind == RS_ROLLSUM ? 1 : 2); vp_note(g_rot);
#else
    static u8 buf[70100]; static const size_t L[] = { 64, 255, 256, 257, 1000, 2048, 4096 + 3, 65535, 65536 + 16 * 3 + 5 };
    size_t n = L[vp_range(0, sizeof L / sizeof *L - 1, "L")], cut;
    for (i = 0; i < sizeof buf; i++) buf[i] = (u8)(i * 131 + (i >> 8) * 7 + 200);
    cut = vp_range(0, 2, "cut"); cut = cut == 0 ? 0 : cut == 1 ? 33 : n - 17;
    u8 s0 = ND8("first"), s1 = ND8("in"); buf[0] = s0; buf[n] = s1;
    weaksum_init(&w, kind); weaksum_update(&w, buf, cut); weaksum_update(&w, buf + cut, n - cut);
    vp_assert(weaksum_count(&w) == n && weaksum_digest(&w) == want(kind, buf, n), "checksum of a long window is wrong");
    weaksum_rotate(&w, buf[0], buf[n]); vp_assert(weaksum_digest(&w) == want(kind, buf + 1, n), "rotate of a long window is wrong");
    weaksum_rollout(&w, buf[1]); vp_assert(weaksum_digest(&w) == want(kind, buf + 2, n - 1), "rollout of a long window is wrong");
    weaksum_rollin(&w, buf[n + 1]); vp_assert(weaksum_digest(&w) == want(kind, buf + 2, n), "rollin of a long window is wrong");
    vp_witness(1); vp_note(weaksum_digest(&w));
#endif
}

/* C09: block lookup.  K blocks with symbolic weak sums and SL-byte strong
 * sums are loaded through the public API; lookups of a symbolic weak sum and
 * block must find the first matching block exactly when there is one.
 * The stand-in hash (IH_RAW) makes the strong sum of a block its bytes. */
#include "common.h"
#include "refs.h"
#include "sumset.h"
#ifndef K
#define K 3
#endif
#ifndef SL
#define SL 1
#endif
#ifndef LOOKUPS
#define LOOKUPS 1
#endif
#ifndef MAGICS
#define MAGICS 2, 3
#endif
static u8 s[12 + K * (4 + SL)], out[1];
static uint32_t be4(const u8 *p) { return (uint32_t)p[0] << 24 | p[1] << 16 | p[2] << 8 | p[3]; }
static uint32_t weak(void) {
#if COLLIDE == 1 /* same bucket, different high bits */
    return (uint32_t)(ND8("w") & 3) << 28;
#elif COLLIDE == 2 /* two neighbouring buckets, same high bits */
    uint8_t b = ND8("w"); return ((b & 1) << 8) | ((b >> 1) & 1);
#elif COLLIDE == 3 /* around the reserved value and the last bucket */
    return (uint32_t)(ND8("w") & 3) - 2u;
#else
    return ND32("w");
#endif
}
void vp_main(void) {
    static const int mags[] = { MAGICS }; size_t i, q, n = K; rs_signature_t *sig;
    int magic = ref_magics[mags[vp_range(0, sizeof mags / sizeof *mags - 1, "magic")]], rollsum = (magic & 0xf0) == 0x30;
#if ANYK
    n = vp_range(0, K, "k");
#endif
    put4(s, magic); uint32_t bl = 8;
#if ANYBL
    bl = ND32("bl"); vp_assume(bl >= 1 && bl < 0x80000000u);
#endif
    put4(s + 4, bl); put4(s + 8, SL);
    for (i = 0; i < n; i++) { put4(s + 12 + i * (4 + SL), weak()); for (q = 0; q < SL; q++) {
#if SMALLSTRONG
        s[12 + i * (4 + SL) + 4 + q] = ND8("s") & 1;
#else
        s[12 + i * (4 + SL) + 4 + q] = ND8("s");
#endif
    } }
    rs_job_t *job = rs_loadsig_begin(&sig); io_t io = { s, 12 + n * (4 + SL), 0, out, 0, 0 };
    vp_assert(io_run(job, &io, S_WHOLE) == RS_DONE, "signature rejected"); rs_job_free(job);
    vp_assert(rs_build_hash_table(sig) == RS_DONE, "hash table not built");
    for (q = 0; q < LOOKUPS; q++) {
        uint32_t raw = weak(), w = rollsum ? ref_mix32(raw) : raw; u8 buf[8]; size_t len = SL + vp_range(0, 1, "extra");
        for (i = 0; i < len; i++) buf[i] = i < SL ? ND8("b") : 0;
        rs_long_t p = rs_signature_find_match(sig, w, buf, len);
        int first = -1, k;
        for (k = (int)n - 1; k >= 0; k--) { const u8 *e = s + 12 + k * (4 + SL); int eq = be4(e) == raw; for (i = 0; i < SL; i++) eq &= e[4 + i] == buf[i]; if (eq) first = k; }
        if (p == -1) { vp_assert(first == -1, "a matching block was not found"); vp_witness(1); }
        else {
            for (k = 0; k < (int)n && p != (rs_long_t)((uint64_t)k * bl); k++) ;
            vp_assert(k < (int)n, "match position is not a block of the signature"); const u8 *e = s + 12 + k * (4 + SL);
            for (i = 0; i < SL; i++) vp_assert(e[4 + i] == buf[i], "matched a block with a different strong sum");
            uint32_t we = rollsum ? ref_mix32(be4(e)) : be4(e);
            vp_assert(we == w || (we + 1 <= 1 && w + 1 <= 1), "matched a block with a different weak sum");
            vp_assert(first == -1 || k <= first, "not the first of the matching blocks");
            vp_witness(2); if (k > 1) vp_witness(3);
        }
        vp_note(p);
    }
    rs_free_sumset(sig); vp_assert(vp_heap_live() == 0, "memory leaked");
}

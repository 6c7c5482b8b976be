/* C11: recommended signature parameters, for every file size.
 * PART 1 block length 0 (recommended); PART 2 given block length; PART 3 integer helpers. */
#include "common.h"
#include "refs.h"
#include "util.h"
static unsigned floorlog2(uint64_t v) { unsigned n = 0; while (v >>= 1) n++; return n; }
void vp_main(void) {
    int64_t fsize = (int64_t)ND64("fsize"); rs_magic_number magic, m0; size_t bl, sl, b0, s0; uint32_t mg = ND32("magic");
#if PART == 1
    { static const uint64_t base[] = { 0, 65000, 1 << 20, (1ull << 24) - 1000, 1ull << 31, (1ull << 32) - 500, 1ull << 40, (1ull << 52) - 1, 1ull << 61, (1ull << 62) - (1 << WIN) };
      int w = vp_range(0, sizeof base / sizeof *base, "window"); if (w == sizeof base / sizeof *base) fsize = -1; else fsize = base[w] + (fsize & ((1 << WIN) - 1)); }
#endif
    vp_assume(fsize >= -1 && fsize < 1ll << 62);
#if SMALLF
    vp_assume(fsize < SMALLF);
#endif
#if PART == 1
    bl = 0;
#else
    { static const size_t bls[] = { BLS }; bl = bls[vp_range(0, sizeof bls / sizeof *bls - 1, "bl")]; }
#endif
    #if PART == 1
    sl = vp_range(0, 1, "sl") ? (size_t)-1 : 0;
#else
    { static const size_t sls[] = { SLS }; sl = sls[vp_range(0, sizeof sls / sizeof *sls - 1, "sl")]; }
#endif

    magic = m0 = mg; b0 = bl; s0 = sl;
    int md4 = mg == 0x72730136 || mg == 0x72730146, b2 = mg == 0 || mg == 0x72730137 || mg == 0x72730147;
    rs_result r = rs_sig_args(fsize, &magic, &bl, &sl);
    if (!md4 && !b2) { vp_assert(r == RS_BAD_MAGIC, "unknown magic accepted"); vp_witness(3); vp_done(); }
    size_t max = md4 ? 16 : 32;
    if (s0 > max && s0 != (size_t)-1) { vp_assert(r == RS_PARAM_ERROR, "strong sum length beyond the hash accepted"); vp_witness(4); vp_done(); }
    if (b0 > 0x7fffffff) { vp_assert(r == RS_PARAM_ERROR, "block length beyond what a signature can hold accepted"); vp_witness(4); vp_done(); }
    vp_assert(r == RS_DONE, "good parameters rejected");
    vp_assert((uint32_t)magic == (mg ? mg : 0x72730147), "wrong default format");
    if (b0) vp_assert(bl == b0, "given block length changed");
    else if (fsize < 0) vp_assert(bl == 2048, "wrong default block length");
    else if (fsize <= 65536) vp_assert(bl == 256, "wrong minimum block length");
    else { uint64_t b = bl; vp_assert((b & 127) == 0 && b >= 256 && b < 1ull << 32, "recommended block length is not a multiple of 128");
        vp_assert(b * b <= (uint64_t)fsize, "recommended block length above the square root of the size"); vp_assert((b + 128) * (b + 128) > (uint64_t)fsize, "recommended block length too small"); vp_witness(1); }
    if (s0 != 0 && s0 != (size_t)-1) vp_assert(sl == s0, "given strong sum length changed");
    else if (s0 == 0) vp_assert(sl == max, "default strong sum length is not the maximum");
    else {
        vp_assert(sl >= 1 && sl <= max, "minimum strong sum length is not one the format can hold");
        if (fsize < 0) vp_assert(sl == 12, "wrong minimum strong sum length for an unknown size");
        else { /* 2 bytes more than the bits of a collision-safe sum; capped by the hash */
            unsigned bits = floorlog2((uint64_t)fsize + (1 << 24)) + floorlog2((uint64_t)fsize / bl + 1); size_t want = 2 + (bits + 7) / 8; if (want > max) want = max;
            vp_assert(sl == want, "wrong minimum strong sum length"); vp_witness(2); }
    }
    vp_note(sl);
}

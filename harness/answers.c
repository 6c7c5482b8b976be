/* C23: the delta stands for exactly the new file whatever the lookup answers,
 * that is for every signature, colliding, damaged or hostile.  The lookup may
 * name any block number at any window; the new file's bytes are all different,
 * so a window is known by its first byte.
 * NN size of the new file, BL block length, DM slicing. */
#include "common.h"
#include "refs.h"
#include "sumset.h"
#ifndef NN
#define NN 6
#endif
#ifndef BL
#define BL 2
#endif
#ifndef DM
#define DM S_WHOLE
#endif
#ifndef MAGICS
#define MAGICS 2
#endif
#ifndef IDXBITS
#define IDXBITS 31
#endif
#define DCAP (18 * NN + 24)
static u8 new_[NN + 1], sigb[17], delta[DCAP]; static size_t nn = NN, bl; static int magic;
static int asked[NN], hit[NN]; static uint64_t at[NN];
rs_long_t rs_signature_find_match(rs_signature_t *sig, rs_weak_sum_t weak, void const *buf, size_t len) {
    const u8 *p = buf; size_t q, i;
    vp_assert(len > 0, "lookup of an empty window"); q = vp_concrete(p[0]) - 1u;
    vp_assert(q < nn && len == (nn - q < bl ? nn - q : bl), "lookup of a window of wrong length");
    for (i = 0; i < len; i++) vp_assert(p[i] == new_[q + i], "lookup of a window that is not in the new file");
    uint32_t w = ref_weak(magic, p, len);
    vp_assert((uint32_t)weak == ((magic & 0xf0) == 0x30 ? ref_mix32(w) : w), "rolling checksum does not match the data under the window");
    if (!asked[q]) { asked[q] = 1; hit[q] = vp_range(0, 1, "hit"); if (hit[q]) at[q] = (ND64("block") & (((uint64_t)1 << IDXBITS) - 1)) * bl; }
    return hit[q] ? (rs_long_t)at[q] : -1;
}
static uint64_t be(const u8 *p, size_t n) { uint64_t v = 0; while (n--) v = v << 8 | *p++; return v; }
void vp_main(void) {
    static const int mags[] = { MAGICS }; static const size_t bls[] = { BL }, sz[4] = { 1, 2, 4, 8 }; size_t i; rs_signature_t *sig; u8 dummy[1];
    magic = ref_magics[mags[vp_range(0, sizeof mags / sizeof *mags - 1, "magic")]]; bl = bls[vp_range(0, sizeof bls / sizeof *bls - 1, "bl")];
#if ANYLEN
    nn = vp_range(0, NN, "nn");
#endif
    for (i = 0; i < nn; i++) new_[i] = (u8)(i + 1);
    put4(sigb, magic); put4(sigb + 4, (uint32_t)bl); put4(sigb + 8, 1);
    { rs_job_t *j = rs_loadsig_begin(&sig); io_t io = { sigb, 17, 0, dummy, 0, 0 }; vp_assert(io_run(j, &io, S_WHOLE) == RS_DONE, "signature rejected"); rs_job_free(j); }
    vp_assert(rs_build_hash_table(sig) == RS_DONE, "hash table not built");
    rs_job_t *j = rs_delta_begin(sig); io_t io = { new_, nn, 0, delta, DCAP, 0 };
    vp_assert(io_run(j, &io, DM) == RS_DONE, "delta failed"); vp_assert(io.pos == nn, "input left unread");
    size_t p = 4, q = 0, copies = 0, lits = 0, merged = 0;
    vp_assert(io.got >= 5 && be(delta, 4) == 0x72730236, "wrong delta magic");
    for (;;) {
        vp_assert(p < io.got, "delta is truncated"); unsigned op = vp_concrete(delta[p++]); if (op == 0) break;
        if (op <= 0x44) { uint64_t l = op; if (op > 0x40) { size_t w = sz[op - 0x41]; vp_assert(w <= io.got - p, "delta is truncated"); l = be(delta + p, w); p += w; }
            l = vp_concrete(l); lits++; vp_assert(l > 0 && l <= io.got - p && l <= nn - q, "literal command of impossible length");
            for (i = 0; i < l; i++, q++) { vp_assert(delta[p++] == new_[q], "literal byte is not the new file's"); vp_assert(!asked[q] || !hit[q], "a window that has a block was sent as literal"); }
        } else { vp_assert(op <= 0x54, "unknown command"); size_t w1 = sz[(op - 0x45) / 4], w2 = sz[(op - 0x45) % 4]; vp_assert(w1 + w2 <= io.got - p, "delta is truncated");
            uint64_t from = be(delta + p, w1), l = vp_concrete(be(delta + p + w1, w2)); p += w1 + w2; copies++;
            vp_assert(l > 0 && l <= nn - q, "copy command of impossible length"); if (l > bl) merged = 1;
            while (l) { size_t wl = nn - q < bl ? nn - q : bl; vp_assert(wl <= l, "copy ends inside a block"); vp_assert(asked[q] && hit[q] && at[q] == from, "copied window is not the block the lookup named"); q += wl; from += wl; l -= wl; }
        }
    }
    vp_assert(p == io.got, "data after the end command"); vp_assert(q == nn, "delta does not cover the new file");
    if (copies > 1 && lits > 1) vp_witness(1); if (merged) vp_witness(2); if (nn && !copies) vp_witness(3); if (copies == 1 && !lits) vp_witness(4);
    vp_note(io.got); vp_note(copies); vp_note(lits);
    rs_job_free(j); rs_free_sumset(sig); vp_assert(vp_heap_live() == 0, "memory leaked");
}

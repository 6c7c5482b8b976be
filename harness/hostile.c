/* C23: a delta made with any accepted signature, honest or not.  K block
 * entries with arbitrary weak and strong sums, an arbitrary new file, the real
 * lookup.  The delta must stand for exactly the new file: literals are its
 * bytes, every copied window is justified by a block whose sums equal those of
 * the window, and a window justified by some block is never a literal.
 * SL bytes of strong sum (IH_RAW: the first SL bytes of the window). */
#include "common.h"
#include "refs.h"
#include "sumset.h"
#ifndef K
#define K 2
#endif
#ifndef NN
#define NN 4
#endif
#ifndef BLS
#define BLS 2
#endif
#ifndef SL
#define SL 1
#endif
#ifndef MAGICS
#define MAGICS 2, 3
#endif
#ifndef DM
#define DM S_WHOLE
#endif
#define DCAP (10 * NN + 24)
static u8 s[12 + K * (4 + SL) + 1], new_[NN + 1], delta[DCAP], dummy[1];
static size_t nk = K, nn = NN; static uint32_t bl; static int magic;
static uint64_t be(const u8 *p, size_t n) { uint64_t v = 0; while (n--) v = v << 8 | *p++; return v; }
/* do the sums of block b equal those of the window?  (The table reserves weak
 * sum zero and takes it for all ones; the strong sum decides, see C09.) */
static int same(size_t b, const u8 *p, size_t len, int loose) {
    const u8 *e = s + 12 + b * (4 + SL); size_t i; uint32_t w = ref_weak(magic, p, len);
    uint32_t kb = (uint32_t)be(e, 4); int eq = kb == w;
    if (loose && (magic & 0xf0) != 0x30) eq |= (kb == 0 && w == 0xffffffffu) | (w == 0 && kb == 0xffffffffu);
    for (i = 0; i < SL; i++) eq &= e[4 + i] == (i < len ? p[i] : 0);
    return eq;
}
void vp_main(void) {
    static const int mags[] = { MAGICS }; static const uint32_t bls[] = { BLS }; static const size_t sz[4] = { 1, 2, 4, 8 };
    size_t i, b; rs_signature_t *sig;
    magic = ref_magics[mags[vp_range(0, sizeof mags / sizeof *mags - 1, "magic")]];
    bl = bls[vp_range(0, sizeof bls / sizeof *bls - 1, "bl")];
#if ANYLEN
    nk = vp_range(0, K, "k"); nn = vp_range(0, NN, "nn");
#endif
    put4(s, magic); put4(s + 4, bl); put4(s + 8, SL);
    for (i = 0; i < nk * (4 + SL); i++) s[12 + i] = ND8("s");
    for (i = 0; i < nn; i++) new_[i] =
#ifdef ALPHA
        ND8("n") & (ALPHA - 1);
#else
        ND8("n");
#endif
    { rs_job_t *j = rs_loadsig_begin(&sig); io_t io = { s, 12 + nk * (4 + SL), 0, dummy, 0, 0 }; vp_assert(io_run(j, &io, S_WHOLE) == RS_DONE, "signature rejected"); rs_job_free(j); }
    vp_assert(rs_build_hash_table(sig) == RS_DONE, "hash table not built");
    rs_job_t *j = rs_delta_begin(sig); io_t io = { new_, nn, 0, delta, DCAP, 0 };
    vp_assert(io_run(j, &io, DM) == RS_DONE, "delta failed");
    vp_assert(io.pos == nn, "input left unread");
    size_t p = 4, q = 0, copies = 0, lits = 0;
    vp_assert(io.got >= 5 && be(delta, 4) == 0x72730236, "wrong delta magic");
    for (;;) {
        vp_assert(p < io.got, "delta is truncated");
        unsigned op = vp_concrete(delta[p++]);
        if (op == 0) break;
        if (op <= 0x44) { uint64_t l = op; size_t w = 0; if (op > 0x40) { w = sz[op - 0x41]; vp_assert(w <= io.got - p, "delta is truncated"); l = be(delta + p, w); p += w; }
            l = vp_concrete(l); lits++;
            vp_assert(l > 0 && l <= io.got - p && l <= nn - q, "literal command of impossible length");
            for (i = 0; i < l; i++, q++) { vp_assert(delta[p++] == new_[q], "literal byte is not the new file's");
                size_t wl = nn - q < bl ? nn - q : bl;
                for (b = 0; b < nk; b++) vp_assert(!same(b, new_ + q, wl, 0), "a window with the sums of a block was sent as literal"); }
        } else { vp_assert(op <= 0x54, "unknown command"); size_t w1 = sz[(op - 0x45) / 4], w2 = sz[(op - 0x45) % 4];
            vp_assert(w1 + w2 <= io.got - p, "delta is truncated");
            uint64_t from = vp_concrete(be(delta + p, w1)), l = vp_concrete(be(delta + p + w1, w2)); p += w1 + w2; copies++;
            vp_assert(l > 0 && l <= nn - q, "copy command of impossible length");
            vp_assert(from % bl == 0 && from / bl < nk && l <= (uint64_t)(nk - from / bl) * bl, "copy command outside the blocks of the signature");
            for (b = from / bl; l; b++) { size_t wl = nn - q < bl ? nn - q : bl;
                vp_assert(wl <= l, "copy ends inside a block"); vp_assert(same(b, new_ + q, wl, 1), "copied window does not have the sums of the block");
                q += wl; l -= wl; }
        }
    }
    vp_assert(p == io.got, "data after the end command");
    vp_assert(q == nn, "delta does not cover the new file");
    if (copies && lits) vp_witness(1); if (copies == 2) vp_witness(2); if (nk && nn && !copies) vp_witness(3); if (copies == 1 && !lits && nn > bl) vp_witness(4);
    vp_note(io.got); vp_note(copies); vp_note(lits);
    rs_job_free(j); rs_free_sumset(sig); vp_assert(vp_heap_live() == 0, "memory leaked");
}

/* C01: patch(basis, delta(signature(basis), new)) == new, through the four
 * real jobs.  NB basis bytes, NN new bytes, BL block length, all data symbolic.
 * ORACLE=1 replaces the block lookup by its specification (see C11). */
#include "common.h"
#include "refs.h"
#include "sumset.h"
#ifndef NB
#define NB 4
#endif
#ifndef NN
#define NN 5
#endif
#ifndef BL
#define BL 2
#endif
#ifndef SM
#define SM S_WHOLE
#endif
#ifndef LM
#define LM S_WHOLE
#endif
#ifndef DM
#define DM S_WHOLE
#endif
#ifndef PM
#define PM S_WHOLE
#endif
#ifndef MAGICS
#define MAGICS 2, 3
#endif
#define SCAP (12 + 36 * (NB / BL + 1))
#define DCAP (NN + 3 * NN + 8)
static u8 basis[NB + 1], new_[NN + 1], sigb[SCAP], delta[DCAP], outp[NN + 1];
static size_t nb = NB, nn = NN;
static int magic;
static rs_result cb(void *opaque, rs_long_t pos, size_t *len, void **buf) {
    vp_assert(pos >= 0 && (uint64_t)pos < nb, "copy from outside the basis");
    size_t p = vp_concrete(pos), l = vp_concrete(*len);
    vp_assert(l > 0 && l <= nb - p, "copy runs past the end of the basis");
    memcpy(*buf, basis + p, l); *len = l;
    return RS_DONE;
}
#if ORACLE
static size_t lookups;
rs_long_t rs_signature_find_match(rs_signature_t *sig, rs_weak_sum_t weak, void const *buf, size_t len) {
    const u8 *p = buf; size_t i, b;
    vp_assert(len > 0 && len <= BL, "lookup of a block of impossible length");
    uint32_t w = ref_weak(magic, p, len);
    vp_assert((uint32_t)weak == ((magic & 0xf0) == 0x30 ? ref_mix32(w) : w), "rolling checksum does not match the data under the window");
    lookups++;
    for (b = 0; b * BL < nb; b++) {
        size_t l = nb - b * BL < BL ? nb - b * BL : BL; int eq = l == len;
        if (!eq) continue;
        for (i = 0; i < len; i++) eq &= p[i] == basis[b * BL + i];
        if (eq) return (rs_long_t)(b * BL);
    }
    return -1;
}
#endif
static rs_result job_run(rs_job_t *j, const u8 *in, size_t n, u8 *out, size_t cap, size_t *got, int mode) {
    io_t io = { in, n, 0, out, cap, 0 };
    rs_result r = io_run(j, &io, mode); *got = io.got; vp_assert(rs_job_free(j) == RS_DONE, "rs_job_free failed"); return r;
}
void vp_main(void) {
    static const int mags[] = { MAGICS };
    size_t i, sn, dn, on, x; rs_signature_t *sig;
    magic = ref_magics[mags[vp_range(0, sizeof mags / sizeof mags[0] - 1, "magic")]];
#if ANYLEN
    nb = vp_range(0, NB, "nb"); nn = vp_range(0, NN, "nn");
#endif
#if CONCB /* fixed basis contents, distinct or repeating blocks */
    { static const char *const pat[] = { "abcdefghijklmnop", "ababababababab", "aaaaaaaaaaaaaa", "abcdabefababcd" }; const char *q = pat[vp_range(0, 3, "pattern")]; for (i = 0; i < NB; i++) basis[i] = q[i]; }
#else
    for (i = 0; i < NB; i++) basis[i] = ND8("b");
#endif
    for (i = 0; i < NN; i++) new_[i] = ND8("n");
#if ALPHA
#if !CONCB
    for (i = 0; i < NB; i++) vp_assume((u8)(basis[i] - 'a') < ALPHA);
#endif
    for (i = 0; i < NN; i++) vp_assume((u8)(new_[i] - 'a') < ALPHA);
#endif
#if ORACLE
    /* weak sums are not looked at by the oracle */
    { put4(sigb, magic); put4(sigb + 4, BL); put4(sigb + 8, 1); sn = 12; for (i = 0; i * BL < nb; i++) { put4(sigb + sn, i + 1); sigb[sn + 4] = 0; sn += 5; } }
#else
    vp_assert(job_run(rs_sig_begin(BL, 0, magic), basis, nb, sigb, SCAP, &sn, SM) == RS_DONE, "signature failed");
#endif
    vp_assert(job_run(rs_loadsig_begin(&sig), sigb, sn, outp, 0, &x, LM) == RS_DONE, "loading the signature failed");
    vp_assert(rs_build_hash_table(sig) == RS_DONE, "building the hash table failed");
    vp_assert(job_run(rs_delta_begin(sig), new_, nn, delta, DCAP, &dn, DM) == RS_DONE, "delta failed");
    rs_free_sumset(sig);
    vp_assert(job_run(rs_patch_begin(cb, 0), delta, dn, outp, NN, &on, PM) == RS_DONE, "patch failed on a delta made by the library");
    vp_assert(on == nn, "patched file has the wrong length");
    for (i = 0; i < on; i++) vp_assert(outp[i] == new_[i], "patched file differs from the new file");
    vp_assert(vp_heap_live() == 0, "memory leaked");
    if (dn < nn + 4) vp_witness(1);
    if (nn == NN && nb == NB) vp_witness(2);
    vp_note(dn); vp_note(on);
}

/* C12: the buffering between calls, on streams longer than the internal
 * buffers.  KIND 1 signature, 2 loading a signature, 3 patch. All data
 * symbolic; the first CUTS calls get any amount of input and an output area
 * of one of a few sizes; STEP > 0 continues with STEP-byte pieces. */
#include "common.h"
#include "refs.h"
#include "sigmem.h"
#ifndef BL
#define BL 100
#endif
#ifndef N
#define N 250
#endif
#ifndef CUTS
#define CUTS 2
#endif
#ifndef SL
#define SL 32
#endif
#if KIND == 2
#define INCAP (12 + N * (4 + SL) + 4)
#else
#define INCAP 1024
#endif
#ifndef STEP
#define STEP 0
#endif
#ifndef GRAIN
#define GRAIN 1
#endif
static u8 in[INCAP], ref[INCAP], out[1025], basis[128]; static size_t inn, rn; static rs_signature_t *sig;
static void fold(const u8 *p, size_t n, u8 *o, size_t l) { u8 a[16]; size_t i; memset(a, 0, 16); for (i = 0; i < n; i++) a[i & 15] = a[i & 15] * 3 + p[i] + 1; for (i = 0; i < l; i++) o[i] = a[i & 15] ^ (i == 0 ? n : 0); }
static rs_result cb(void *o, rs_long_t pos, size_t *len, void **buf) { vp_assert(pos >= 0 && *len > 0 && (uint64_t)pos + *len <= sizeof basis, "copy outside the basis"); memcpy(*buf, basis + pos, *len); return RS_DONE; }
static void lit(size_t l) { size_t i; if (l > 64) { in[inn++] = 0x41; in[inn++] = l; } else in[inn++] = l; for (i = 0; i < l; i++) ref[rn++] = in[inn] = ND8("l"), inn++; }
static void copy(size_t p, size_t l) { in[inn++] = 0x45; in[inn++] = p; in[inn++] = l; memcpy(ref + rn, basis + p, l); rn += l; }
void vp_main(void) {
    size_t i, k; rs_job_t *j; int magic = 0x72730147;
    for (i = 0; i < sizeof basis; i++) basis[i] = ND8("b");
#if KIND == 1
    for (i = 0; i < N; i++) in[i] = ND8("d"); inn = N;
    put4(ref, magic); put4(ref + 4, BL); put4(ref + 8, 32); rn = 12;
    for (i = 0; i < N; i += BL) { size_t l = N - i < BL ? N - i : BL; put4(ref + rn, ref_weak(magic, in + i, l)); fold(in + i, l, ref + rn + 4, 32); rn += 36; }
    j = rs_sig_begin(BL, 0, magic);
#elif KIND == 2
    put4(in, magic); put4(in + 4, BL); put4(in + 8, SL); inn = 12;
    for (i = 0; i < N; i++) { for (k = 0; k < 4 + SL; k++) in[inn + k] = N > 40 && i % 41 ? (u8)(i * 29 + k * 7 + (i >> 8)) : ND8("s"); inn += 4 + SL; }
    j = rs_loadsig_begin(&sig);
#else
    put4(in, 0x72730236); inn = 4;
    lit(30); copy(0, 100); lit(100); copy(60, 64); lit(1); lit(65); in[inn++] = 0;
    j = rs_patch_begin(cb, 0);
#endif
    io_t io = { in, inn, 0, out, sizeof out - 1, 0 }; rs_result r = RS_BLOCKED; int c, lim = 3 * (int)sizeof out;
    static const size_t ms[] = { 0, 1, 13, 70, 1024 };
    for (c = 0; r == RS_BLOCKED; c++) {
        size_t left = inn - io.pos, n = left, m = sizeof out - 1 - io.got;
        if (c < CUTS) { n = vp_range(0, (left + GRAIN - 1) / GRAIN, "n") * GRAIN; if (n > left) n = left; size_t q = ms[vp_range(0, 4, "m")]; if (q < m) m = q; }
        else if (STEP) { if (n > STEP) n = STEP; if (m > STEP) m = STEP; }
        vp_assert(c < lim, "the job does not finish");
        r = io_step(j, &io, n, m, io.pos + n == inn);
    }
    vp_assert(r == RS_DONE, "a good stream failed"); vp_assert(io.pos == inn, "input left unread"); vp_assert(io.got == rn, "wrong amount of output");
    for (i = 0; i < rn; i++) vp_assert(out[i] == ref[i], "wrong output byte");
#if KIND == 2
    vp_assert(sig->count == N && sig->block_len == BL && sig->strong_sum_len == SL, "signature loaded wrongly");
    size_t stride = sig_stride(sig);
    for (i = 0; i < N; i++) { const rs_block_sig_t *b = sig_entry(sig, stride, i); uint32_t w = 0; for (k = 0; k < 4; k++) w = w << 8 | in[12 + i * (4 + SL) + k]; vp_assert((uint32_t)b->weak_sum == w, "weak sum loaded wrongly"); for (k = 0; k < SL; k++) vp_assert(b->strong_sum[k] == in[16 + i * (4 + SL) + k], "strong sum loaded wrongly"); }
    rs_free_sumset(sig);
#endif
    if (io.iters > 3) vp_witness(1); vp_note(io.iters); vp_note(io.got);
    rs_job_free(j); vp_assert(vp_heap_live() == 0, "memory leaked");
}

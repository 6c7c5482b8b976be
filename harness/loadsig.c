/* C04 / C02: loading an arbitrary signature stream.
 * N bytes, the header fields limited as the macros say; MODE slicing. */
#include "common.h"
#include "refs.h"
#include "sigmem.h"
#ifndef N
#define N 16
#endif
#ifndef MODE
#define MODE S_WHOLE
#endif
static u8 in[N + 1], out[1];
static uint32_t be4(const u8 *p) { return (uint32_t)p[0] << 24 | p[1] << 16 | p[2] << 8 | p[3]; }
void vp_main(void) {
    size_t i, n = N; rs_signature_t *sig = (void *)1;
    for (i = 0; i < N; i++) in[i] = ND8("s");
#if ANYLEN
    n = vp_range(0, N, "len");
#endif
#if GOOD /* a plausible header, arbitrary block entries */
    put4(in, ref_magics[vp_range(0, 3, "magic")]); in[4] = in[5] = 0; vp_assume(in[7] || in[6]); in[8] = in[9] = in[10] = 0; in[11] = vp_range(1, GOOD, "sl");
#endif
    /* reference */
    uint32_t magic = be4(in), bl = be4(in + 4), sl = be4(in + 8);
    int mok = magic == 0x72730136 || magic == 0x72730137 || magic == 0x72730146 || magic == 0x72730147;
    rs_result want; size_t blocks = 0;
    rs_job_t *job = rs_loadsig_begin(&sig);
    vp_assert(sig != 0 && sig != (void *)1, "no signature object");
    io_t io = { in, n, 0, out, 0, 0 };
    rs_result r = io_run(job, &io, MODE);
    vp_assert(io.got == 0, "loading a signature wrote output");
    if (r == RS_DONE) {
        vp_assert(n >= 12, "truncated signature header accepted");
        vp_assert(mok, "bad signature magic accepted");
        vp_assert((int32_t)bl >= 1, "bad block length accepted");
        vp_assert(sl >= 1 && sl <= ref_maxstrong(magic), "bad strong sum length accepted");
        vp_assert((uint32_t)sig->magic == magic && (uint32_t)sig->block_len == bl, "signature header loaded wrongly");
        size_t esl = vp_concrete(sl);
        vp_assert((size_t)sig->strong_sum_len == esl, "strong sum length loaded wrongly");
        blocks = (n - 12) / (4 + esl);
        vp_assert((n - 12) % (4 + esl) == 0, "signature truncated inside a block entry accepted");
        vp_assert((size_t)sig->count == blocks, "wrong number of blocks loaded");
#if BUILD
        vp_assert(rs_build_hash_table(sig) == RS_DONE, "hash table not built");
#endif
        size_t stride = sig_stride(sig);
        for (i = 0; i < blocks; i++) {
            const rs_block_sig_t *b = sig_entry(sig, stride, i);
            const u8 *e = in + 12 + i * (4 + esl); uint32_t w = be4(e);
            vp_assert(((magic & 0xf0) == 0x30 && (uint32_t)b->weak_sum == ref_mix32(w)) || (uint32_t)b->weak_sum == w, "weak sum loaded wrongly");
            for (size_t k = 0; k < esl; k++) vp_assert(((const u8 *)b->strong_sum)[k] == e[4 + k], "strong sum loaded wrongly");
        }
#ifdef STATS
        vp_assert(rs_job_statistics(job)->sig_blocks == blocks, "wrong block count in the statistics");
#endif
        vp_witness(1); if (blocks >= 2) vp_witness(2);
    } else {
        /* rejected: it must really be bad, with the right kind of error */
        int badlen = n >= 8 && (int32_t)bl < 1, badsl = n >= 12 && (sl < 1 || sl > ref_maxstrong(magic)), trunc = n < 12;
        if (n >= 12 && !badsl) trunc = (n - 12) % (4 + vp_concrete(sl)) != 0;
        (void)want;
        vp_assert((n >= 4 && !mok) || badlen || badsl || trunc, "a good signature was rejected");
        /* several things may be wrong at once; the code must name one of them */
        vp_assert((r == RS_BAD_MAGIC && n >= 4 && !mok) || (r == RS_CORRUPT && (badlen || badsl)) || (r == RS_PARAM_ERROR && badsl) || (r == RS_INPUT_ENDED && trunc), "wrong error code for a bad signature");
        vp_witness(3); if (r == RS_INPUT_ENDED && n > 12) vp_witness(4);
    }
    vp_note(r); 
    rs_job_free(job); rs_free_sumset(sig);
    vp_assert(vp_heap_live() == 0, "memory leaked");
}

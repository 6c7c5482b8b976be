/* C05 / C02: signature generation against the documented format.
 * N input bytes (symbolic), BLMAX largest block length, MODE slicing. */
#include "common.h"
#include "refs.h"
#ifndef N
#define N 5
#endif
#ifndef BLMAX
#define BLMAX 3
#endif
#ifndef MODE
#define MODE S_WHOLE
#endif
#define CAP (12 + 36 * (N + 1))
static u8 in[N + 1], ref[CAP], out[CAP];
void vp_main(void) {
    size_t i, n = N, bl, sl, rn = 12;
    int mi = vp_range(0, 4, "magic"), magic, nmagic;
    for (i = 0; i < N; i++) in[i] = ND8("b");
#if ANYLEN
    n = vp_range(0, N, "len");
#endif
    bl = vp_range(BLMIN, BLMAX, "bl");
    nmagic = magic = mi == 4 ? 0 : ref_magics[mi];
    if (!nmagic) nmagic = 0x72730147;
#if SLALL
    { size_t k = vp_range(0, ref_maxstrong(nmagic) + 1, "sl"); sl = k == ref_maxstrong(nmagic) + 1 ? (size_t)-1 : k; }
#else
    { static const size_t s[3] = { 0, 1, 5 }; sl = s[vp_range(0, 2, "sl")]; }
#endif
    size_t esl = sl == 0 ? ref_maxstrong(nmagic) : sl == (size_t)-1 ? 12 : sl, ebl = bl ? bl : 2048;
    put4(ref, nmagic); put4(ref + 4, ebl); put4(ref + 8, esl);
    size_t blocks = 0;
    for (size_t p = 0; p < n; p += ebl) {
        size_t l = n - p < ebl ? n - p : ebl; u8 st[32];
        put4(ref + rn, ref_weak(nmagic, in + p, l)); ref_strong(nmagic, in + p, l, st);
        memcpy(ref + rn + 4, st, esl); rn += 4 + esl; blocks++;
    }
    rs_job_t *job = rs_sig_begin(bl, sl, magic);
    io_t io = { in, n, 0, out, CAP, 0 };
    rs_result r = io_run(job, &io, MODE);
    vp_assert(r == RS_DONE, "signature generation failed");
    vp_assert(io.got == rn, "signature has the wrong length");
    for (i = 0; i < rn; i++) vp_assert(out[i] == ref[i], "signature byte differs from the format");
    vp_assert(io.pos == n, "input left unread");
#ifdef STATS
    const rs_stats_t *st = rs_job_statistics(job);
    vp_assert(st->sig_blocks == blocks, "wrong count of signature blocks");
    vp_assert(st->block_len == ebl, "wrong block length in the statistics");
#endif
    if (n && blocks > 1 && n % ebl) vp_witness(1);
    if (n == N && n % ebl == 0) vp_witness(2);
    vp_note(io.got); vp_note(out[io.got - 1]); vp_note(out[7]);
    vp_assert(rs_job_free(job) == RS_DONE, "rs_job_free failed");
    vp_assert(vp_heap_live() == 0, "memory leaked");
}

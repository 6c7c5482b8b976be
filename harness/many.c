/* C09: lookups in a signature of K blocks (past 65536), with concrete weak sums
 * and a symbolic block.  Catches index types, table sizes and fill limits that
 * only matter with many blocks. */
#include "common.h"
#include "refs.h"
#include "sumset.h"
#ifndef K
#define K 70000
#endif
static u8 s[12 + K * 5], out[1];
static uint32_t wk(uint32_t i) { return (i ^ (i >> 3)) * 2654435761u + (i % 7 == 0 ? 1 : 0); }
void vp_main(void) {
    static const uint32_t at[] = { 0, 1, 255, 256, 32767, 32768, 65535, 65536, 65537, K - 1 }; static const int mags[] = { MAGICS };
    size_t i; rs_signature_t *sig; int magic = ref_magics[mags[vp_range(0, sizeof mags / sizeof *mags - 1, "magic")]], rollsum = (magic & 0xf0) == 0x30; uint32_t bl = 70001;
    put4(s, magic); put4(s + 4, bl); put4(s + 8, 1);
    for (i = 0; i < K; i++) { put4(s + 12 + i * 5, wk(i)); s[12 + i * 5 + 4] = (u8)(i ^ (i >> 8)); }
    rs_job_t *job = rs_loadsig_begin(&sig); io_t io = { s, sizeof s, 0, out, 0, 0 };
    vp_assert(io_run(job, &io, S_WHOLE) == RS_DONE, "signature rejected"); rs_job_free(job);
    vp_assert(rs_build_hash_table(sig) == RS_DONE, "hash table not built");
    uint32_t n = at[vp_range(0, sizeof at / sizeof *at - 1, "which")], raw = wk(n); u8 b = ND8("b");
    rs_long_t p = rs_signature_find_match(sig, rollsum ? ref_mix32(raw) : raw, &b, 1), want = b == (u8)(n ^ (n >> 8)) ? (rs_long_t)n * bl : -1;
    vp_assert(p == want, want == -1 ? "matched a block with a different strong sum" : "a matching block was not found");
    if (p == -1) vp_witness(1); else vp_witness(2);
    vp_note(p); rs_free_sumset(sig); vp_assert(vp_heap_live() == 0, "memory leaked");
}

/* C08 / C10: adjacent matches become one copy command whatever their length.
 * One delta call over an input area of M blocks of any length; the data are
 * never read: block lookup and the rolling sum updates are stand-ins. */
#include "common.h"
#include "refs.h"
#include "sumset.h"
#include "rollsum.h"
#include "rabinkarp.h"
#ifndef M
#define M 5
#endif
static uint64_t bl, first, second; static unsigned at, brk;
void RollsumUpdate(Rollsum *s, const unsigned char *p, size_t l) { s->count += l; }
void rabinkarp_update(rabinkarp_t *s, const unsigned char *p, size_t l) { s->count += l; }
rs_long_t rs_signature_find_match(rs_signature_t *sig, rs_weak_sum_t weak, void const *buf, size_t len) {
    vp_assert(len == bl, "lookup of a block of the wrong length"); unsigned i = at++;
    return (rs_long_t)(i < brk ? first + i * bl : second + (i - brk) * bl);
}
static uint64_t be(const u8 *p, size_t n) { uint64_t v = 0; while (n--) v = v << 8 | *p++; return v; }
static size_t copy(const u8 *p, uint64_t pos, uint64_t len) {
    static const size_t sz[4] = { 1, 2, 4, 8 }; unsigned op = vp_concrete(*p);
    vp_assert(op >= 0x45 && op <= 0x54, "a matching run is not sent as a copy command"); size_t w1 = sz[(op - 0x45) / 4], w2 = sz[(op - 0x45) % 4];
    vp_assert(be(p + 1, w1) == pos, "copy command starts at the wrong position"); vp_assert(be(p + 1 + w1, w2) == len, "copy command has the wrong length");
    return 1 + w1 + w2;
}
void vp_main(void) {
    static u8 s[17], in[8], out[64]; rs_signature_t *sig; rs_job_t *j = rs_loadsig_begin(&sig); unsigned m = vp_range(1, M, "blocks"); size_t p = 4;
    bl = ND32("bl"); vp_assume(bl >= 1 && bl < 0x80000000u); first = ND64("first") & ((1ull << 60) - 1); second = ND64("second") & ((1ull << 60) - 1); brk = vp_range(1, m, "break");
    put4(s, ref_magics[vp_range(0, 1, "magic") ? 3 : 1]); put4(s + 4, bl); put4(s + 8, 1); io_t io = { s, 17, 0, out, 0, 0 };
    vp_assert(io_run(j, &io, S_WHOLE) == RS_DONE, "signature rejected"); rs_job_free(j); vp_assert(rs_build_hash_table(sig) == RS_DONE, "hash table not built");
    vp_assume(second != first + brk * bl);
    j = rs_delta_begin(sig); rs_buffers_t b; b.next_in = (char *)in; b.avail_in = m * bl; b.eof_in = 1; b.next_out = (char *)out; b.avail_out = sizeof out;
    vp_assert(rs_job_iter(j, &b) == RS_DONE, "delta not finished"); vp_assert(b.avail_in == 0, "input left unread"); vp_assert(at == m, "a block was looked up twice or not at all");
    vp_assert(be(out, 4) == 0x72730236, "wrong delta magic");
    p += copy(out + p, first, brk * bl); if (brk < m) p += copy(out + p, second, (m - brk) * bl);
    vp_assert(out[p++] == 0 && p == sizeof out - b.avail_out, "wrong end of delta");
#ifdef STATS
    { const rs_stats_t *t = rs_job_statistics(j); vp_assert(t->copy_cmds == 1 + (brk < m) && (uint64_t)t->copy_bytes == m * bl && (size_t)t->copy_cmdbytes == p - 5 && t->lit_cmds == 0, "copy statistics wrong"); }
#endif
    if (brk == M && bl > 0x60000000) vp_witness(1); if (brk < m) vp_witness(2); vp_note(p);
    rs_job_free(j); rs_free_sumset(sig); vp_assert(vp_heap_live() == 0, "memory leaked");
}

/* C08: every position and length survives encoding and decoding.
 * PART 1 copy command, 2 literal command, 3 integers, 4 huge slack input. */
#include "common.h"
#include "job.h"
#include "scoop.h"
#include "netint.h"
#include "emit.h"
#include "refs.h"
static uint64_t cpos, clen; static int calls;
static rs_result cb(void *o, rs_long_t pos, size_t *len, void **buf) { cpos = pos; clen = *len; calls++; return RS_IO_ERROR; }
static u8 enc[40]; static size_t en;
static const size_t widths[4] = { 1, 2, 4, 8 };
static size_t minw(uint64_t v) { return v <= 0xff ? 1 : v <= 0xffff ? 2 : v <= 0xffffffffu ? 4 : 8; }
static uint64_t be(const u8 *p, size_t n) { uint64_t v = 0; while (n--) v = v << 8 | *p++; return v; }
/* A bare job whose output goes to enc. */
static rs_buffers_t eb;
static rs_job_t *encoder(void) { rs_job_t *j = rs_patch_begin(cb, 0); eb.next_out = (char *)enc; eb.avail_out = sizeof enc; j->stream = &eb; return j; }
static void encoded(rs_job_t *j) { vp_assert(rs_tube_catchup(j) == RS_DONE, "tube not drained"); en = sizeof enc - eb.avail_out; }
/* Runs patch over enc with claimed output room `room`, bytewise if slow. */
static rs_result decode(rs_job_t **jp, size_t room, int slow) {
    rs_job_t *j = rs_patch_begin(cb, 0); static u8 hdr[4] = { 0x72, 0x73, 2, 0x36 }; static u8 sink[8]; rs_buffers_t b; rs_result r; size_t i;
    b.next_in = (char *)hdr; b.avail_in = 4; b.eof_in = 0; b.next_out = (char *)sink; b.avail_out = room; r = rs_job_iter(j, &b);
    vp_assert(r == RS_BLOCKED, "header");
    if (slow) for (i = 0; i < en && r == RS_BLOCKED; i++) { b.next_in = (char *)enc + i; b.avail_in = 1; r = rs_job_iter(j, &b); }
    else { b.next_in = (char *)enc; b.avail_in = en; r = rs_job_iter(j, &b); }
    vp_assert(b.avail_in == 0, "command not consumed");
    *jp = j; return r;
}
void vp_main(void) {
    rs_job_t *j, *d; size_t i;
#if PART == 1
    uint64_t w = ND64("where"), l = ND64("len");
    vp_assume((int64_t)w >= 0 && (int64_t)l > 0);
    j = encoder(); rs_emit_copy_cmd(j, w, l); encoded(j);
    size_t ww = vp_concrete(minw(w)), lw = vp_concrete(minw(l));
    vp_assert(en == 1 + ww + lw, "copy command is not as short as the format allows");
    vp_assert(enc[0] == 0x45 + 4 * (ww == 1 ? 0 : ww == 2 ? 1 : ww == 4 ? 2 : 3) + (lw == 1 ? 0 : lw == 2 ? 1 : lw == 4 ? 2 : 3), "wrong copy opcode");
    vp_assert(be(enc + 1, ww) == w && be(enc + 1 + ww, lw) == l, "copy parameters encoded wrongly");
    const rs_stats_t *s = rs_job_statistics(j);
#ifdef STATS
    vp_assert(s->copy_cmds == 1 && (uint64_t)s->copy_bytes == l && (size_t)s->copy_cmdbytes == en, "copy statistics wrong");
#endif
    rs_result r = decode(&d, (size_t)1 << 63 >> 1, vp_range(0, 1, "slow"));
    vp_assume(l <= (uint64_t)1 << 62);
    vp_assert(r == RS_IO_ERROR, "callback error not reported");
    vp_assert(calls == 1 && cpos == w && clen == l, "copy command decoded to a different range");
    s = rs_job_statistics(d);
#ifdef STATS
    vp_assert(s->copy_cmds == 1 && (uint64_t)s->copy_bytes == l && (size_t)s->copy_cmdbytes == en, "patch copy statistics wrong");
#endif
    if (ww == 8 && lw == 8) vp_witness(1); if (ww == 1 && lw == 4) vp_witness(2);
    vp_note(en); rs_job_free(d); rs_job_free(j);
#elif PART == 2
    uint32_t l = ND32("len"); vp_assume(l > 0 && l < 0x80000000u);
    j = encoder(); rs_emit_literal_cmd(j, (int)l); encoded(j);
    size_t pw = l <= 64 ? 0 : vp_concrete(minw(l));
    vp_assert(en == 1 + pw, "literal command is not as short as the format allows");
    if (pw == 0) vp_assert(enc[0] == l, "wrong short literal opcode"); else { vp_assert(enc[0] == 0x40 + (pw == 1 ? 1 : pw == 2 ? 2 : 3), "wrong literal opcode"); vp_assert(be(enc + 1, pw) == l, "literal length encoded wrongly"); }
    const rs_stats_t *s = rs_job_statistics(j);
#ifdef STATS
    vp_assert(s->lit_cmds == 1 && (uint64_t)s->lit_bytes == l && (size_t)s->lit_cmdbytes == en, "literal statistics wrong");
#endif
    rs_result r = decode(&d, 8, vp_range(0, 1, "slow"));
    vp_assert(r == RS_BLOCKED && calls == 0, "literal command not accepted");
    s = rs_job_statistics(d);
    vp_assert((uint64_t)s->lit_bytes == l, "literal command decoded to a different length"); /* the only place the decoded length shows before the data arrive */
#ifdef STATS
    vp_assert(s->lit_cmds == 1 && (uint64_t)s->lit_bytes == l && (size_t)s->lit_cmdbytes == en, "patch literal statistics wrong");
#endif
    if (pw == 0) vp_witness(1); if (pw == 4) vp_witness(2);
    vp_note(en); rs_job_free(d); rs_job_free(j);
#elif PART == 3
    uint64_t v = ND64("v"), got; size_t k = widths[vp_range(0, 3, "w")];
    vp_assume((int64_t)v >= 0);
    vp_assert((size_t)rs_int_len(v) == minw(v), "integer length class wrong");
    j = encoder(); rs_squirt_netint(j, v, k); encoded(j);
    vp_assert(en == k, "integer written with the wrong width");
    uint64_t m = k == 8 ? ~0ull : (1ull << (8 * k)) - 1;
    vp_assert(be(enc, k) == (v & m), "integer not big-endian");
    rs_buffers_t b; d = rs_patch_begin(cb, 0); d->stream = &b; b.eof_in = 0;
    size_t cut = vp_range(0, k, "cut"); rs_long_t x = -1; rs_result r;
    b.next_in = (char *)enc; b.avail_in = cut; r = rs_suck_netint(d, &x, k);
    if (cut < k) { vp_assert(r == RS_BLOCKED, "integer read before it arrived"); b.next_in = (char *)enc + cut; b.avail_in = k - cut; r = rs_suck_netint(d, &x, k); }
    vp_assert(r == RS_DONE && (uint64_t)x == (v & m), "integer read back differently");
    u8 c = ND8("c"), c2; eb.next_out = (char *)enc; eb.avail_out = sizeof enc; rs_squirt_byte(j, c); encoded(j); b.next_in = (char *)enc; b.avail_in = 1;
    vp_assert(en == 1 && rs_suck_byte(d, &c2) == RS_DONE && c2 == c, "byte read back differently");
    int n4 = (int)ND32("n4"), y; eb.next_out = (char *)enc; eb.avail_out = sizeof enc; rs_squirt_n4(j, n4); encoded(j); b.next_in = (char *)enc; b.avail_in = 4;
    vp_assert(en == 4 && be(enc, 4) == (uint32_t)n4 && rs_suck_n4(d, &y) == RS_DONE && y == n4, "32-bit integer read back differently");
    vp_witness(1); (void)got; (void)i;
    vp_note(x); rs_job_free(d); rs_job_free(j);
#elif PART == 4
    /* One call with an input area of any size; only what fits the output is read. */
    size_t avail = ND64("avail"); static u8 in[64]; u8 *out = malloc(ROOM); rs_buffers_t b;
    vp_assume(avail >= 64 && avail <= (size_t)1 << 62);
    d = rs_delta_begin(NULL);
    b.next_in = (char *)in; b.avail_in = avail; b.eof_in = 1; b.next_out = (char *)out; b.avail_out = ROOM;
    rs_result r = rs_job_iter(d, &b);
    vp_assert(r == RS_BLOCKED, "delta of a huge buffer did not block on output");
    size_t o = 4; uint64_t total = 0;
    unsigned op = vp_concrete(out[4]), w = op <= 64 ? 0 : op == 0x41 ? 1 : op == 0x42 ? 2 : op == 0x43 ? 4 : op == 0x44 ? 8 : 99;
    vp_assert(op >= 1 && w != 99, "delta does not start with a literal command");
    uint64_t l = w ? be(out + 5, w) : op;
    vp_assert(l > 0 && l <= avail, "literal command is longer than the input");
    vp_assert(b.avail_in == avail - (ROOM - 5 - w), "wrong amount of input consumed");
    vp_witness(1); if (avail > 0xffffffffu) vp_witness(2); vp_note(l);
    (void)o; (void)total; (void)i; (void)j;
    rs_job_free(d); free(out);
#endif
    vp_assert(vp_heap_live() == 0, "memory leaked");
}

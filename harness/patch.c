/* C03 / C02: rs_patch on an arbitrary delta stream against a reference
 * interpreter of doc/format.md.
 * N     bytes of delta after the 4-byte magic (all symbolic)
 * MODE  slicing; MAGIC=1 makes the magic symbolic as well
 * B     basis length; OUTMAX largest output explored */
#include "common.h"
#ifndef N
#define N 6
#endif
#ifndef B
#define B 3
#endif
#ifndef OUTMAX
#define OUTMAX 8
#endif
#ifndef MODE
#define MODE S_WHOLE
#endif
static u8 d[4 + N], basis[B], ref[OUTMAX + 1], out[OUTMAX + 1];
static int cb_ptr, cb_short;
static rs_result cb(void *opaque, rs_long_t pos, size_t *len, void **buf) {
    size_t want = *len;
    vp_assert(opaque == (void *)basis, "copy callback got the wrong opaque pointer");
    vp_assert(want > 0, "copy callback asked for nothing");
    vp_assert(pos >= 0, "copy callback asked for a negative position");
    if (pos >= B) return RS_INPUT_ENDED;
    size_t p = vp_concrete((uint64_t)pos), have = B - p;
    size_t l = want < have ? want : have;
    l = vp_concrete(l);
#if CBSHORT
    if (l > 1 && vp_range(0, 1, "short")) l = 1;
#endif
#if CBPTR
    *buf = basis + p;
#else
    memcpy(*buf, basis + p, l);
#endif
    *len = l;
    return RS_DONE;
}
static uint64_t be(const u8 *p, size_t n) { uint64_t v = 0; while (n--) v = v << 8 | *p++; return v; }
/* Reference: returns the result code, fills ref/refn with the output up to the error. */
static size_t refn, refend, rlc, rlb, rlcb, rcc, rcb, rccb;
static rs_result reference(size_t n) {
    static const int sz[4] = { 1, 2, 4, 8 };
    size_t i = 4;
    refn = 0;
    if (n < 4) return RS_INPUT_ENDED;
    if (be(d, 4) != 0x72730236) return RS_BAD_MAGIC;
    for (;;) {
        if (i >= n) return RS_INPUT_ENDED;
        unsigned op = d[i++];
        if (op == 0) { refend = i; return RS_DONE; }
        if (op <= 0x44) {
            uint64_t len = op;
            if (op > 0x40) {
                size_t w = sz[vp_concrete(op) - 0x41];
                if (n - i < w) return RS_INPUT_ENDED;
                len = be(d + i, w); i += w;
                if ((int64_t)len <= 0) return RS_CORRUPT;
                rlcb += w;
            } else len = vp_concrete(op);
            rlc++; rlcb++; rlb += len;
            for (; len; len--) {
                if (i >= n) return RS_INPUT_ENDED;
                vp_assume(refn < OUTMAX);
                ref[refn++] = d[i++];
            }
        } else if (op <= 0x54) {
            size_t k = vp_concrete(op) - 0x45, w1 = sz[k / 4], w2 = sz[k % 4];
            if (n - i < w1 + w2) return RS_INPUT_ENDED;
            uint64_t pos = be(d + i, w1), len = be(d + i + w1, w2);
            i += w1 + w2;
            if ((int64_t)len <= 0 || (int64_t)pos < 0) return RS_CORRUPT;
            rcc++; rccb += 1 + w1 + w2; rcb += len;
            for (; len; len--) {
                if (pos >= B) return RS_INPUT_ENDED;
                vp_assume(refn < OUTMAX);
                ref[refn++] = basis[vp_concrete(pos)]; pos++;
            }
        } else
            return RS_CORRUPT;
    }
}
void vp_main(void) {
    size_t i, n = sizeof d;
    for (i = 0; i < sizeof d; i++) d[i] = ND8("d");
    for (i = 0; i < B; i++) basis[i] = ND8("b");
#if !MAGIC
    d[0] = 0x72; d[1] = 0x73; d[2] = 2; d[3] = 0x36;
#endif
#if WIDE /* CMDS commands of any opcode with parameters, small values in wide fields, then END */
    { static const size_t sz[4] = { 1, 2, 4, 8 }; size_t q = 4, k; memset(d + 4, 0, N);
      for (i = 0; i < CMDS; i++) { unsigned op = vp_range(0x41, 0x54, "op"); d[q++] = op; size_t w1 = op < 0x45 ? sz[op - 0x41] : sz[(op - 0x45) / 4], w2 = op < 0x45 ? 0 : sz[(op - 0x45) % 4];
        q += w1; d[q - 1] = op < 0x45 ? 2 : vp_range(0, 2, "pos"); q += w2; if (w2) d[q - 1] = 1; else for (k = 0; k < 2; k++) d[q++] = ND8("l"); }
      d[q++] = 0; n = q; }
#endif
#if LITS /* one-byte literal commands of any length */
    d[4] = vp_range(0, 0x40, "op"); memset(d + 5, 0, N - 1); d[5] = ND8("l"); d[5 + LITS] = ND8("l");
#endif
#if ANYLEN
    n = vp_range(0, sizeof d, "len");
#endif
    rs_result want = reference(n);
    rs_job_t *job = rs_patch_begin(cb, basis);
    io_t io = { d, n, 0, out, OUTMAX, 0 };
    rs_result r = io_run(job, &io, MODE);
    vp_assert((r == RS_DONE) == (want == RS_DONE), "a delta was accepted or rejected wrongly");
    vp_assert(r == want, "wrong error code for a bad delta");
    if (want == RS_DONE) vp_assert(io.got == refn, "wrong output length");
    if (r == RS_DONE) {
        const rs_stats_t *st = rs_job_statistics(job);
        vp_assert(io.pos == refend, "data after the end command was consumed, or not all of the delta read");
#ifdef STATS
        vp_assert((size_t)st->lit_cmds == rlc && (size_t)st->lit_bytes == rlb && (size_t)st->lit_cmdbytes == rlcb, "literal statistics do not describe the delta");
        vp_assert((size_t)st->copy_cmds == rcc && (size_t)st->copy_bytes == rcb && (size_t)st->copy_cmdbytes == rccb, "copy statistics do not describe the delta");
#endif
        (void)st; if (refend < n) vp_witness(5);
    }
    vp_assert(io.got <= refn, "output beyond what the delta says");
    for (i = 0; i < io.got; i++) vp_assert(out[i] == ref[i], "wrong output byte");
    if (r == RS_DONE && io.got >= 2) vp_witness(1);
    if (r == RS_CORRUPT) vp_witness(2);
    if (r == RS_INPUT_ENDED && io.got) vp_witness(3);
    if (r == RS_BAD_MAGIC) vp_witness(4);
    vp_note(r); vp_note(io.got);
    vp_assert(rs_job_free(job) == RS_DONE, "rs_job_free failed");
    vp_assert(vp_heap_live() == 0, "memory leaked");
}

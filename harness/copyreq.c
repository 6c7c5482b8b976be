/* C15: the copy callback protocol, for every 64-bit position and length.
 * A copy command with symbolic parameters, output offered in arbitrary
 * pieces, a callback that returns any shorter amount, its own buffer, or an
 * error. */
#include "common.h"
#ifndef CALLS
#define CALLS 3
#endif
#ifndef OUTM
#define OUTM 3
#endif
static uint64_t pos, len, done; static int ncalls, failed; static rs_result errc; static u8 own[OUTM + 1]; static u8 exp[CALLS * OUTM + 8]; static size_t en; static size_t room, phys; static char *room_at;
static rs_result cb(void *o, rs_long_t p, size_t *l, void **buf) {
    size_t i;
    vp_assert(o == (void *)&ncalls, "wrong opaque pointer");
    vp_assert(!failed, "callback called again after it failed");
    vp_assert((uint64_t)p == pos + done, "callback position is not the next one of the copied range");
    vp_assert(*l > 0 && *l <= len - done, "callback asked for more than the copy command says");
    vp_assert(*l <= room, "callback asked for more than fits the output");
    ncalls++;
    int act = phys ? vp_range(0, 2, "act") : 2;
    if (act == 2) { u8 c = ND8("err"); vp_assume(c != RS_DONE && c != RS_RUNNING && c != RS_BLOCKED && c < 128); errc = c; failed = 1; return errc; }
    size_t m = vp_concrete(*l < phys ? *l : phys); m = vp_range(1, m, "give");
    if (act == 1) *buf = own; /* the callback's own memory */
    else vp_assert(*buf == (void *)room_at, "callback buffer is not the output");
    for (i = 0; i < m; i++) { u8 v = ND8("data"); ((u8 *)*buf)[i] = v; vp_assert(en < sizeof exp, "harness"); exp[en++] = v; }
    *l = m; done += m; room -= m; phys -= m; room_at += m;
    return RS_DONE;
}
void vp_main(void) {
    static const int sz[4] = { 1, 2, 4, 8 };
    int a = vp_range(0, 3, "pw"), b = vp_range(0, 3, "lw"); u8 cmd[24]; size_t n = 0, i; u8 out[CALLS * OUTM + 1]; size_t got = 0;
    pos = ND64("pos"); len = ND64("len");
    if (a < 3) vp_assume(pos < 1ull << 8 * sz[a]); if (b < 3) vp_assume(len < 1ull << 8 * sz[b]);
    vp_assume((int64_t)pos >= 0 && (int64_t)len > 0 && pos <= 0x7fffffffffffffffull - len);
    cmd[n++] = 0x72; cmd[n++] = 0x73; cmd[n++] = 2; cmd[n++] = 0x36; cmd[n++] = 0x45 + 4 * a + b;
    for (i = sz[a]; i--;) cmd[n++] = pos >> 8 * i; for (i = sz[b]; i--;) cmd[n++] = len >> 8 * i;
    cmd[n++] = 0; /* END */
    rs_job_t *job = rs_patch_begin(cb, &ncalls); size_t ip = 0; rs_result r = RS_BLOCKED;
    for (int k = 0; k < CALLS && r == RS_BLOCKED; k++) {
        rs_buffers_t bu; size_t m = vp_range(0, OUTM, "m"); u8 *po = malloc(m);
#if BIGOUT /* an output area of any larger size, of which only the beginning is touched */
        if (m == OUTM) { m = ND64("room"); vp_assume(m >= OUTM && m <= (size_t)1 << 62); }
#endif
        bu.next_in = (char *)cmd + ip; bu.avail_in = n - ip; bu.eof_in = 1; bu.next_out = (char *)po; bu.avail_out = m; room = m; room_at = (char *)po; phys = m < OUTM ? m : OUTM;
        r = rs_job_iter(job, &bu); ip = n - bu.avail_in;
        for (i = 0; i < m - bu.avail_out; i++) out[got++] = po[i];
        if (m > OUTM) { free(po); break; }
        if (r == RS_BLOCKED) vp_assert(bu.avail_out == 0, "blocked with output space left");
        free(po);
    }
    if (failed) { vp_assert(r == errc, "callback's error code was not returned"); vp_witness(1); }
    else if (r == RS_DONE) { vp_assert(done == len, "finished before the whole range was copied"); vp_witness(2); }
    else vp_assert(r == RS_BLOCKED, "unexpected failure");
    if (!failed) vp_assert(got == en, "output does not hold what the callback gave");
    for (i = 0; i < got; i++) vp_assert(out[i] == exp[i], "output byte differs from the callback's data");
    if (r == RS_BLOCKED && ncalls >= 2) vp_witness(3);
    vp_note(r); vp_note(got); vp_note(ncalls);
    rs_job_free(job); vp_assert(vp_heap_live() == 0, "memory leaked");
}

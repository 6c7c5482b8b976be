/* C24: driving a job by callbacks.  The callbacks offer input and output areas
 * of any size, and one of them may fail with any code at any call. */
#include "common.h"
#include "jobs.h"
#ifndef CALLS
#define CALLS 2
#endif
#ifndef FAILS
#define FAILS 5
#endif
#ifndef MS
#define MS 0, 1, 5, JCAP
#endif
static const size_t ms[] = { MS };
static jb_t a, ref; static rs_buffers_t buf; static char *ibuf, *obuf; static size_t osize; static int calls, ins, outs, failat, failed, lastout, ieof; static uint32_t code; static void *io_in = &ins, *io_out = &outs;
static rs_result fail(void) { failed = 1; vp_witness(2); return (rs_result)code; }
static rs_result in_cb(rs_job_t *job, rs_buffers_t *b, void *opaque) {
    size_t left = a.n - a.io.pos, n = left, i; char *nb; calls++;
    vp_assert(job == a.job && b == &buf && opaque == io_in, "input callback called with other arguments"); vp_assert(!failed, "callback called after one failed"); vp_assert(!ieof, "input callback called after the end of input");
    vp_assert(!ins || lastout || a.kind == J_LOAD, "input asked for twice without offering output"); lastout = 0;
    if (!ins) vp_assert(!b->avail_in && !b->avail_out && !b->eof_in && !b->next_in && !b->next_out, "buffers not cleared at the start");
    if (calls == failat) return fail();
    if (ins++ < CALLS) n = vp_range(0, left, "n");
    nb = malloc(b->avail_in + n); for (i = 0; i < b->avail_in; i++) nb[i] = b->next_in[i]; for (i = 0; i < n; i++) nb[b->avail_in + i] = (char)a.in[a.io.pos + i];
    if (ibuf) free(ibuf); ibuf = nb; b->next_in = nb; b->avail_in += n; a.io.pos += n;
    if (n == left && (ins > CALLS + 1 || n == 0 || vp_range(0, 1, "eof"))) b->eof_in = ieof = 1;
    return RS_DONE;
}
static void collect(rs_buffers_t *b) {
    if (!obuf) { vp_assert(!b->next_out && !b->avail_out, "output area made up"); return; }
    size_t g = (size_t)(b->next_out - obuf), i; vp_assert(g <= osize && b->avail_out == osize - g, "output pointer and count do not agree");
    vp_assert(a.io.got + g <= JCAP, "more output than can be right"); for (i = 0; i < g; i++) a.out[a.io.got + i] = (u8)obuf[i]; a.io.got += g; free(obuf); obuf = 0;
}
static rs_result out_cb(rs_job_t *job, rs_buffers_t *b, void *opaque) {
    calls++; vp_assert(job == a.job && b == &buf && opaque == io_out, "output callback called with other arguments"); vp_assert(!failed, "callback called after one failed");
    vp_assert(!lastout || ieof, "output callback called twice without asking for input"); lastout = 1;
    if (calls == failat) return fail();
    collect(b); osize = outs++ < CALLS ? ms[vp_range(0, sizeof ms / sizeof *ms - 1, "m")] : JCAP; obuf = malloc(osize); b->next_out = obuf; b->avail_out = osize;
    vp_assert(calls < 60, "the job does not finish"); return RS_DONE;
}
void vp_main(void) {
    rs_result r; int kind = (int)vp_range(0, J_KINDS - 1, "kind"), noout; size_t i;
    jb_data(&a, kind); a.n = vp_range(0, 2, "cut") * a.n / 2; ref = a;
    jb_begin(&ref); jb_finish(&ref);
    jb_begin(&a); failat = (int)vp_range(0, FAILS, "failat"); code = ND32("code"); vp_assume(code != 0);
    noout = kind == J_LOAD ? (int)vp_range(0, 1, "noout") : 0;
    memset(&buf, 0xa5, sizeof buf);
    r = rs_job_drive(a.job, &buf, in_cb, io_in, noout ? NULL : out_cb, io_out);
    if (failed) vp_assert((uint32_t)r == code, "the callback's error was not passed back");
    else {
        vp_assert(r == ref.r, "the driven job ends with another result"); if (r == RS_DONE && !noout) vp_assert(lastout, "the last output was not offered to the callback"); 
        if (r != RS_DONE && obuf) collect(&buf);
        vp_assert(a.io.pos - buf.avail_in == ref.io.pos, "the driven job read another amount of input");
        if (kind != J_SLACK && r == RS_DONE) { a.r = r; a.io.pos = ref.io.pos; jb_same(&a, &ref, "the driven job gives other output"); }
        if (r == RS_DONE) vp_witness(1); else vp_witness(3); if (outs > 2) vp_witness(4);
    }
    (void)i; if (ibuf) free(ibuf); if (obuf) free(obuf); vp_note(r); vp_note(a.io.got); vp_note(calls);
    jb_end(&a); jb_end(&ref); vp_assert(vp_heap_live() == 0, "memory leaked");
}

/* PART 1 (C20) a job dropped at any point; PART 2 (C21) two jobs interleaved
 * in any order do what each does alone; PART 3 (C14) empty calls change
 * nothing, and a finished job stays finished; PART 4 (C14) a job that ended,
 * well or badly, gives the same result for ever and touches nothing. */
#include "common.h"
#include "jobs.h"
#ifndef CALLS
#define CALLS 3
#endif
#ifndef MS
#define MS 0, 1, 4, JCAP
#endif
static const size_t ms[] = { MS };
#ifndef ALT
#define ALT 0
#endif
#ifndef KIND0
#define KIND0 0
#define KIND1 (J_KINDS - 1)
#endif
static void arb(jb_t *j) { size_t left = j->n - j->io.pos, n, m = ms[vp_range(0, sizeof ms / sizeof *ms - 1, "m")]; 
#ifdef COARSE
    n = vp_range(0, 3, "n"); n = n == 3 ? left : n == 2 ? (left + 1) / 2 : n < left ? n : left;
#else
    n = vp_range(0, left, "n");
#endif
    if (m > JCAP - j->io.got) m = JCAP - j->io.got; jb_step(j, n, m, n == left && (n == 0 || vp_range(0, 1, "eof"))); }
void vp_main(void) {
    static jb_t a, b, c, d; int k, kind = (int)vp_range(KIND0, KIND1, "kind");
    jb_data(&a, kind);
#if PART == 1
    jb_begin(&a); if ((kind == J_LOAD || kind == J_PATCH) && vp_range(0, 1, "damage")) { static const u8 x[] = { 0, 3, 0x44, 0x48, 0xff }; a.in[vp_range(0, a.n - 1, "at")] = x[vp_range(0, 4, "x")]; }
    int calls = (int)vp_range(0, CALLS, "calls");
    for (k = 0; k < calls && a.r == RS_BLOCKED; k++) arb(&a);
    if (a.r == RS_BLOCKED && k == CALLS) vp_witness(1); if (a.r == RS_DONE) vp_witness(2); if (a.r > RS_RUNNING) vp_witness(3);
    if (kind == J_DELTA && a.r == RS_BLOCKED) { /* the signature survives and can be used again */
        rs_job_free(a.job); b = a; b.sig = a.sig; b.ownsig = 0; jb_begin(&b); jb_finish(&b); vp_assert(b.r == RS_DONE, "signature unusable after a delta was dropped"); jb_end(&b); rs_free_sumset(a.sig);
    } else jb_end(&a);
    vp_note(a.r); vp_note(a.io.got);
#elif PART == 2
    int kind2 = (int)vp_range(kind, KIND1, "kind2"); b.alt = ALT; jb_data(&b, kind2); c = a; d = b;
    int share = kind == J_DELTA && kind2 == J_DELTA ? (int)vp_range(0, 1, "share") : 0; rs_signature_t *sh = share ? jb_sig() : 0;
    a.sig = b.sig = sh; c.sig = d.sig = sh;
    jb_begin(&c); jb_finish(&c); jb_begin(&d); jb_finish(&d); /* alone */
    jb_begin(&a); jb_begin(&b);
    for (k = 0; k < CALLS; k++) { jb_t *x = vp_range(0, 1, "who") ? &b : &a; if (x->r == RS_BLOCKED) arb(x); }
    if (a.io.got && b.io.got && a.r == RS_BLOCKED) vp_witness(1);
    jb_finish(&b); jb_finish(&a);
    if (a.kind != J_SLACK) jb_same(&a, &c, "a job's result depends on another job"); if (b.kind != J_SLACK) jb_same(&b, &d, "a job's result depends on another job");
    vp_note(a.io.got); vp_note(b.io.got);
    jb_end(&a); jb_end(&b); jb_end(&c); jb_end(&d); if (sh) rs_free_sumset(sh);
#elif PART == 4
    u8 good[sizeof a.in]; size_t i, gn = a.n; memcpy(good, a.in, sizeof good);
    jb_begin(&a); int how = (int)vp_range(0, 3, "how"); /* good, damaged, cut short, failing callback */
    if (how == 1) { if (kind != J_LOAD && kind != J_PATCH) vp_done(); static const u8 x[] = { 0, 3, 0x44, 0x48, 0xff }; a.in[vp_range(0, a.n - 1, "at")] = x[vp_range(0, 4, "x")]; }
    if (how == 2) { a.n = vp_range(0, a.n - 1, "cut"); a.io.n = a.n; }
    if (how == 3) { if (kind != J_PATCH) vp_done(); jb_fail = 1 + (int)vp_range(0, 1, "fail"); }
    for (k = 0; k < CALLS && a.r == RS_BLOCKED; k++) arb(&a);
    jb_finish(&a); vp_assert(how == 1 || how == 2 || (a.r == RS_DONE) == (how == 0 || jb_fail > 0), "wrong result"); jb_fail = -1;
    for (k = 0; k < 2; k++) {
        rs_buffers_t z; u8 o[8]; size_t n = vp_range(0, 2, "n"), m = vp_range(0, 2, "m"); n = n == 2 ? gn : n * 3; m = m * 4;
        u8 *pi = malloc(n), *po = malloc(m); for (i = 0; i < n; i++) pi[i] = good[i]; z.next_in = (char *)pi; z.avail_in = n; z.eof_in = (int)vp_range(0, 1, "eof"); z.next_out = (char *)po; z.avail_out = m;
        rs_result r = rs_job_iter(a.job, &z); (void)o;
        vp_assert(r == a.r, "a job that ended gives another result when called again"); vp_assert(z.next_in == (char *)pi && z.avail_in == n, "a job that ended reads on"); vp_assert(z.next_out == (char *)po && z.avail_out == m, "a job that ended writes on");
        free(pi); free(po);
    }
    if (a.r == RS_DONE) vp_witness(1); if (a.r == RS_BAD_MAGIC) vp_witness(2); if (a.r == RS_CORRUPT) vp_witness(3); if (a.r == RS_INPUT_ENDED) vp_witness(4); if (a.r == RS_IO_ERROR) vp_witness(5);
    vp_note(a.r); vp_note(a.io.got); jb_end(&a); (void)b; (void)c; (void)d;
#else
    b = a; jb_begin(&b); jb_finish(&b);
    jb_begin(&a);
    for (k = 0; k < CALLS && a.r == RS_BLOCKED; k++) {
        if (vp_range(0, 1, "empty")) { /* nothing to read, nowhere to write, null pointers */
            rs_buffers_t z; memset(&z, 0, sizeof z); rs_result r = rs_job_iter(a.job, &z);
            if (a.kind == J_LOAD && a.io.pos == a.n) { a.r = r; break; }
            vp_assert(r == RS_BLOCKED && !z.next_in && !z.next_out && !z.avail_in && !z.avail_out, "a call with empty buffers did something"); vp_witness(1);
        } else arb(&a);
    }
    jb_finish(&a); if (a.kind != J_SLACK) jb_same(&a, &b, "empty or small calls change the result");
    vp_assert(a.r == RS_DONE, "a good stream failed");
    { rs_buffers_t z; memset(&z, 0, sizeof z); z.eof_in = 1; u8 o[1]; z.next_out = (char *)o; z.avail_out = 1; rs_result r = rs_job_iter(a.job, &z); vp_assert(r == RS_DONE && z.avail_out == 1, "a finished job did not stay finished"); }
    vp_witness(2); vp_note(a.io.got); vp_note(a.io.iters); jb_end(&a); jb_end(&b); (void)c; (void)d;
#endif
    vp_assert(vp_heap_live() == 0, "memory leaked");
}

/* Helpers shared by the job harnesses. */
#ifndef COMMON_H
#define COMMON_H
#include <stdlib.h>
#include <string.h>
#include <stdio.h>
#include <stdarg.h>
#include <time.h>
#include "vp.h"
#include "librsync.h"

/* Logging and the clock are outside every property here. */
#ifndef KEEP_LOG
void rs_log0(int level, char const *fn, char const *fmt, ...) { (void)level; (void)fn; (void)fmt; }
#endif
#ifndef KEEP_TIME
time_t time(time_t *t) { if (t) *t = 1; return 1; }
#endif

typedef unsigned char u8;

/* Slicing of a stream into calls. */
enum { S_WHOLE, S_BYTE, S_ARB, S_IN2, S_OUT2, S_BYTEIN, S_BYTEOUT, S_LATE, S_CUTS };

typedef struct {
    const u8 *in; size_t n, pos;      /* input stream and how much was consumed */
    u8 *out; size_t cap, got;         /* output collected */
    int iters;                        /* rs_job_iter calls */
    size_t blocked_in, blocked_out;
} io_t;

/* One rs_job_iter call with exact-size buffers that vanish afterwards, so any
 * read or write beyond them, or later through a stale pointer, is an error. */
static rs_result io_step(rs_job_t *job, io_t *io, size_t n, size_t m, int eof) {
    rs_buffers_t b; u8 *pi = malloc(n), *po = malloc(m); size_t i;
    for (i = 0; i < n; i++) pi[i] = io->in[io->pos + i];
    b.next_in = (char *)pi; b.avail_in = n; b.eof_in = eof;
    b.next_out = (char *)po; b.avail_out = m;
    rs_result r = rs_job_iter(job, &b);
    io->iters++;
    vp_assert(b.avail_in <= n && b.next_in == (char *)pi + (n - b.avail_in), "input pointer and count do not agree");
    vp_assert(b.avail_out <= m && b.next_out == (char *)po + (m - b.avail_out), "output pointer and count do not agree");
    vp_assert(b.eof_in == eof, "eof flag changed by the job");
    for (i = 0; i < n; i++) vp_assert(pi[i] == io->in[io->pos + i], "caller's input was modified");
    size_t g = m - b.avail_out;
    vp_assert(io->got + g <= io->cap, "more output than can be right");
    for (i = 0; i < g; i++) io->out[io->got + i] = po[i];
    io->got += g; io->pos += n - b.avail_in;
    if (r == RS_BLOCKED) {
        vp_assert(b.avail_in == 0 || b.avail_out == 0 || b.avail_in != n || b.avail_out != m, "blocked without progress, with input and output space left");
        vp_assert(!eof || b.avail_out == 0, "blocked at end of input with output space left");
    }
    vp_assert(r != RS_RUNNING, "iteration returned the internal running code");
    free(pi); free(po);
    return r;
}

/* Runs the job to its end; the first calls are sliced as `mode` says. */
#ifndef ARB_ITERS
#define ARB_ITERS 2
#endif
#ifndef ARB_OUT
#define ARB_OUT 4
#endif
#ifndef CUT0
#define CUT0 0, 0
#define CUT1 0, 0
#define CUT2 0, 0
#endif
static rs_result io_run(rs_job_t *job, io_t *io, int mode) {
    rs_result r = RS_BLOCKED; int k = 0, m1 = mode == S_LATE ? (int)vp_range(0, 1, "m1") : 0;
    int limit = (int)(io->n + io->cap + 2 * ARB_ITERS + 4);
    while (r == RS_BLOCKED) {
        size_t left = io->n - io->pos, n = left, m = io->cap - io->got + 1; int late = 0; /* end of input told only after the last byte */
        switch (mode) {
        case S_BYTE: n = left ? 1 : 0; m = 1; break;
        case S_BYTEIN: n = left ? 1 : 0; break;
        case S_BYTEOUT: m = 1; break;
        case S_IN2: if (k == 0) n = vp_range(0, left, "n"); break;
        case S_OUT2: if (k < ARB_ITERS) { size_t h = m < ARB_OUT ? m : ARB_OUT; m = vp_range(0, h, "m"); } break;
        case S_ARB: if (k < ARB_ITERS) { size_t h = m < ARB_OUT ? m : ARB_OUT; n = vp_range(0, left, "n"); m = vp_range(0, h, "m"); if (n == left && n) late = vp_range(0, 1, "late"); } break;
        case S_CUTS: if (k < 3) { static const size_t cut[3][2] = { { CUT0 }, { CUT1 }, { CUT2 } }, ms[] = { 0, 5, 1000 }; n = vp_range(cut[k][0], cut[k][1], "n"); if (n > left) n = left; size_t q = ms[vp_range(k == 2, 2, "m")]; if (q < m) m = q; } break;
        case S_LATE: n = left ? 1 : 0; late = left != 0; m = m1 ? m : 1; break;
        }
        k++;
        vp_assert(k <= limit, "the job does not finish");
        r = io_step(job, io, n, m, !late && io->pos + n == io->n);
    }
    return r;
}
#endif

/* Jobs of every kind on small symbolic streams. */
#ifndef JOBS_H
#define JOBS_H
#include "refs.h"
#include "sigmem.h"
enum { J_SIG, J_LOAD, J_DELTA, J_PATCH, J_SLACK, J_KINDS };
#define JCAP 80
#ifndef JTEXT /* variety of the data */
#define JTEXT 3
#endif
typedef struct { int kind; u8 in[64]; size_t n; u8 basis[4]; rs_signature_t *sig; int ownsig; rs_job_t *job; io_t io; u8 out[JCAP]; rs_result r; int alt; /* another shape of the data */ } jb_t;
static int jb_fail; /* the copy callback fails at its n-th call; negative: it must not be called */
static rs_result jb_cb(void *o, rs_long_t pos, size_t *len, void **buf) {
    vp_assert(jb_fail >= 0, "callback called after the end"); if (jb_fail && !--jb_fail) return RS_IO_ERROR;
    jb_t *j = o; if (pos < 0 || pos >= 4) return RS_INPUT_ENDED; size_t p = vp_concrete(pos), l = vp_concrete(*len); if (l > 4 - p) l = 4 - p; memcpy(*buf, j->basis + p, l); *len = l; return RS_DONE;
}
/* A signature of the blocks "ab", "cd" and the short block "e". */
static rs_signature_t *jb_sig(void) {
    static const char *const b[3] = { "ab", "cd", "e" }; u8 s[64]; size_t n = 12, i; rs_signature_t *sig; u8 none[1];
    put4(s, 0x72730147); put4(s + 4, 2); put4(s + 8, 4);
    for (i = 0; i < 3; i++) { size_t l = strlen(b[i]); u8 st[32]; put4(s + n, ref_weak(0x72730147, (const u8 *)b[i], l)); ref_strong(0x72730147, (const u8 *)b[i], l, st); memcpy(s + n + 4, st, 4); n += 8; }
    rs_job_t *j = rs_loadsig_begin(&sig); io_t io = { s, n, 0, none, 0, 0 }; vp_assert(io_run(j, &io, S_WHOLE) == RS_DONE, "signature rejected"); rs_job_free(j);
    vp_assert(rs_build_hash_table(sig) == RS_DONE, "hash table not built"); return sig;
}
static void jb_data(jb_t *j, int kind) {
    size_t i; static const char mix[] = "abcdeabcde"; j->kind = kind;
    switch (kind) {
    case J_SIG: j->n = 5; for (i = 0; i < j->n; i++) j->in[i] = ND8("d"); break;
    case J_LOAD: put4(j->in, j->alt ? 0x72730137 : 0x72730146); put4(j->in + 4, j->alt ? 7 : 2); put4(j->in + 8, j->alt ? 5 : 3); j->n = 12 + 2 * (j->alt ? 9 : 7); for (i = 12; i < j->n; i++) j->in[i] = ND8("d"); break;
    case J_DELTA: { int sh = (int)vp_range(0, JTEXT, "text"); j->n = 6; for (i = 0; i < j->n; i++) j->in[i] = mix[i + sh]; j->in[vp_range(JTEXT ? 0 : 1, JTEXT ? 2 : 1, "where") * 2] = ND8("d"); break; }
    case J_PATCH: if (j->alt) { static const u8 c[] = { 0x72, 0x73, 2, 0x36, 0x41, 3, 7, 8, 9, 0x4a, 0, 1, 0, 2, 1, 4, 0x46, 2, 0, 2, 0 }; memcpy(j->in, c, sizeof c); j->n = sizeof c; j->in[6] = ND8("d"); j->in[15] = ND8("d"); for (i = 0; i < 4; i++) j->basis[i] = ND8("b"); break; }
        put4(j->in, 0x72730236); j->in[4] = 2; j->in[5] = ND8("d"); j->in[6] = ND8("d"); j->in[7] = 0x45; j->in[8] = vp_range(0, JTEXT ? 2 : 0, "pos"); j->in[9] = 2; j->in[10] = 1; j->in[11] = ND8("d"); j->in[12] = 0; j->n = 13; for (i = 0; i < 4; i++) j->basis[i] = ND8("b"); break;
    case J_SLACK: j->n = 4; for (i = 0; i < j->n; i++) j->in[i] = ND8("d"); break;
    }
}
static void jb_begin(jb_t *j) {
    switch (j->kind) {
    case J_SIG: j->job = j->alt ? rs_sig_begin(3, 2, 0x72730146) : rs_sig_begin(2, 3, 0x72730137); break;
    case J_LOAD: j->job = rs_loadsig_begin(&j->sig); j->ownsig = 1; break;
    case J_DELTA: if (!j->sig) { j->sig = jb_sig(); j->ownsig = 1; } j->job = rs_delta_begin(j->sig); break;
    case J_PATCH: j->job = rs_patch_begin(jb_cb, j); break;
    case J_SLACK: j->job = rs_delta_begin(NULL); break;
    }
    vp_assert(j->job != 0, "no job"); j->r = RS_BLOCKED;
    io_t io = { j->in, j->n, 0, j->out, JCAP, 0 }; j->io = io;
}
static void jb_step(jb_t *j, size_t n, size_t m, int eof) { j->r = io_step(j->job, &j->io, n, m, eof); }
static void jb_finish(jb_t *j) { int k = 0; while (j->r == RS_BLOCKED) { vp_assert(k++ < 100, "the job does not finish"); jb_step(j, j->n - j->io.pos, JCAP - j->io.got, 1); } }
static void jb_end(jb_t *j) { vp_assert(rs_job_free(j->job) == RS_DONE, "rs_job_free failed"); if (j->ownsig) rs_free_sumset(j->sig); }
static void jb_same(jb_t *a, jb_t *b, const char *msg) {
    size_t i; vp_assert(a->r == b->r && a->io.got == b->io.got && a->io.pos == b->io.pos, msg); for (i = 0; i < a->io.got; i++) vp_assert(a->out[i] == b->out[i], msg);
    if (a->kind == J_LOAD && a->r == RS_DONE) { 
        int n = a->sig->count, l = a->sig->strong_sum_len; vp_assert(n == b->sig->count && l == b->sig->strong_sum_len && a->sig->block_len == b->sig->block_len && a->sig->magic == b->sig->magic, msg);
        size_t sa = sig_stride(a->sig), sb = sig_stride(b->sig);
        for (int k = 0; k < n; k++) { const rs_block_sig_t *x = sig_entry(a->sig, sa, k), *y = sig_entry(b->sig, sb, k); vp_assert(x->weak_sum == y->weak_sum, msg); for (int i = 0; i < l; i++) vp_assert(x->strong_sum[i] == y->strong_sum[i], msg); } }
}
#endif

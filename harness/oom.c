/* C26: an allocation fails.  Any one of the library's allocations may fail; the
 * process then ends through abort() after a critical message, or the call
 * returns RS_MEM_ERROR, leaks nothing and may be repeated.
 * PART 1 jobs of every kind, 2 the hash table, 3 the whole-file functions. */
#define KEEP_LOG
#include "common.h"
#include "jobs.h"
#include "sumset.h"
#if PART == 3
#include "vfile.h"
#endif
typedef union { size_t n; long double align; } hdr_t;
static int seen, failat = -1, failed, told, live;
void rs_log0(int level, char const *fn, char const *fmt, ...) { (void)fn; (void)fmt; if ((level & 7) <= RS_LOG_ERR) told = 1; }
void *vp_malloc(size_t n) { if (failat >= 0 && seen++ == failat) { vp_assert(!failed, "harness: two failures"); failed = 1; return 0; } n = vp_concrete(n); hdr_t *h = malloc(sizeof *h + n); h->n = n; live++; return h + 1; }
void vp_free(void *p) { if (!p) return; live--; free((hdr_t *)p - 1); }
void *vp_calloc(size_t a, size_t b) { size_t n; vp_assert(!__builtin_mul_overflow(a, b, &n), "calloc overflow"); void *p = vp_malloc(n); if (p) memset(p, 0, ((hdr_t *)p - 1)->n); return p; }
void *vp_realloc(void *p, size_t n) { if (!p) return vp_malloc(n); void *q = vp_malloc(n); if (!q) return 0; hdr_t *h = (hdr_t *)p - 1; size_t k = h->n < ((hdr_t *)q - 1)->n ? h->n : ((hdr_t *)q - 1)->n; memcpy(q, p, k); vp_free(p); return q; }
void vp_abort(void) { vp_assert(failed, "aborted without need"); vp_assert(told, "aborted without a message"); vp_witness(1); vp_note(failat); vp_done(); for (;;) ; }
void vp_main(void) {
#if PART == 1
    static jb_t j, k; int kind = (int)vp_range(0, J_KINDS - 1, "kind"); size_t n;
    failat = -1; jb_data(&j, kind); k = j; jb_begin(&j); jb_finish(&j); if (kind == J_DELTA) { k.sig = jb_sig(); k.ownsig = 1; }
    seen = 0; failat = (int)vp_range(0, FAILS, "failat"); n = kind == J_SLACK ? k.n : vp_range(0, k.n, "n");
    jb_begin(&k); jb_step(&k, n, JCAP, 0); if (k.r == RS_BLOCKED) jb_finish(&k);
    vp_assert(!failed, "a failed allocation went unnoticed"); jb_same(&j, &k, "result differs"); failat = -1; jb_end(&j); jb_end(&k); vp_assert(live == 0, "memory leaked"); vp_witness(2);
#elif PART == 2
    static u8 s[12 + 6 * 40], none[1]; size_t blocks = vp_range(1, BLOCKS, "blocks"), i; rs_signature_t *sig; rs_job_t *q = rs_loadsig_begin(&sig); rs_result r; int before;
    put4(s, 0x72730147); put4(s + 4, 1); put4(s + 8, 2); for (i = 0; i < blocks; i++) { u8 c = i ? (u8)(i * 7) : ND8("d"), st[32]; if (!i) vp_assume(c > 200); put4(s + 12 + 6 * i, ref_weak(0x72730147, &c, 1)); ref_strong(0x72730147, &c, 1, st); memcpy(s + 16 + 6 * i, st, 2); if (!i) none[0] = c; }
    io_t io = { s, 12 + 6 * blocks, 0, s, 0, 0 }; vp_assert(io_run(q, &io, S_WHOLE) == RS_DONE, "signature rejected"); rs_job_free(q);
    before = live; seen = 0; failat = (int)vp_range(0, FAILS, "failat"); r = rs_build_hash_table(sig);
    if (failed) { vp_assert(r == RS_MEM_ERROR, "a failed allocation was not reported"); vp_assert(live == before, "memory leaked by a failed call"); failat = -1; if (vp_range(0, 1, "again")) { r = rs_build_hash_table(sig); vp_assert(r == RS_DONE, "building the table again failed"); vp_witness(3); } else { rs_free_sumset(sig); vp_assert(live == 0, "memory leaked"); vp_witness(1); vp_done(); } }
    else vp_assert(r == RS_DONE, "hash table not built");
    failat = -1; u8 out[8]; rs_job_t *d = rs_delta_begin(sig); io_t dio = { none, 1, 0, out, 8, 0 }; vp_assert(io_run(d, &dio, S_WHOLE) == RS_DONE, "delta failed"); vp_assert(dio.got == 8 && out[4] == 0x45 && out[5] == 0 && out[6] == 1 && out[7] == 0, "matching block not found");
    rs_job_free(d); rs_free_sumset(sig); vp_assert(live == 0, "memory leaked"); vp_witness(2);
#else
    static u8 ib[64], ob[256], bb[8]; int kind = (int)vp_range(0, 3, "kind"); rs_result r; rs_stats_t st; rs_signature_t *sig = 0; size_t i;
    vfile in = { ib, 0, 0, 0, 0, 0, 3, 0 }, out = { ob, 0, 256, 0, 0, 0, 4, 1 }, basis = { bb, 4, 0, 0, 0, 0, 5, 0 };
    fstat_mode = (int)vp_range(0, 2, "fstat"); rs_inbuflen = (int)vp_range(0, 1, "inbuf") * 2;
    if (kind == 0) { in.n = 5; for (i = 0; i < 5; i++) ib[i] = ND8("d"); }
    if (kind == 1) { put4(ib, 0x72730147); put4(ib + 4, 2); put4(ib + 8, 2); for (i = 12; i < 24; i++) ib[i] = ND8("d"); in.n = 24; }
    if (kind == 2) { sig = jb_sig(); in.n = 5; for (i = 0; i < 5; i++) ib[i] = "xabcd"[i]; }
    if (kind == 3) { static const u8 c[] = { 0x72, 0x73, 2, 0x36, 3, 7, 8, 9, 0x45, 1, 2, 0 }; memcpy(ib, c, sizeof c); in.n = sizeof c; for (i = 0; i < 4; i++) bb[i] = ND8("b"); }
    fstat_size[3] = (int64_t)in.n; int before = live; seen = 0; failat = (int)vp_range(0, FAILS, "failat");
    r = kind == 0 ? rs_sig_file((FILE *)&in, (FILE *)&out, 2, 5, RS_RK_BLAKE2_SIG_MAGIC, &st) : kind == 1 ? rs_loadsig_file((FILE *)&in, &sig, &st) : kind == 2 ? rs_delta_file(sig, (FILE *)&in, (FILE *)&out, &st) : rs_patch_file((FILE *)&basis, (FILE *)&in, (FILE *)&out, &st);
    if (failed) vp_assert(r == RS_MEM_ERROR, "a failed allocation went unnoticed"); else { vp_assert(r == RS_DONE, "failed without a fault"); vp_witness(2); }
    if (kind == 1) { if (sig) rs_free_sumset(sig); } vp_assert(live == before, "memory leaked"); vp_note(r);
#endif
}
